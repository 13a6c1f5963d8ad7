------------------------------ MODULE Trace_Box ------------------------------
EXTENDS Box, TraceLib
\* the canvas around the box: what was there before
Before == <<6, 0, 9, 9, 0, 0>>
Same(want, got) == /\ want[1] = got[1] /\ want[2] = got[2]
                   /\ (want[3] = ANY \/ want[3] = got[3])
                   /\ (want[4] = ANY \/ (IF want[4] = 0 THEN 9 ELSE want[4]) = got[4])
                   /\ (want[5] = ANY \/ want[5] = got[5])
At(pic, x, y) == IF y + 1 \in 1..Len(pic) /\ x + 1 \in 1..Len(pic[y + 1]) THEN pic[y + 1][x + 1] ELSE Before
\* glyphs cut by the edge of the canvas are dropped by the canvas
DrawnAs(pic, ox, oy, cw, grid) ==
  \A i \in 1..Len(grid) :
    LET x == (i - 1) % cw   y == (i - 1) \div cw
        e == At(pic, x - ox, y - oy)
    IN IF (e[2] = 2 /\ x = 0) \/ (e[2] = 1 /\ x = cw - 1) THEN TRUE ELSE Same(e, grid[i])
LinksAs(pic, ox, oy, cw, hits) ==
  \A i \in 1..Len(hits) :
    LET e == At(pic, ((i - 1) % cw) - ox, ((i - 1) \div cw) - oy) IN hits[i] \in Acts(e[6])
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ cfg = 0 /\ hover = 0 /\ pending = 0
Step ==
  /\ Advance /\ Ev.panic = 0
  /\ \/ Op("setup") /\ Setup(Ev.c)
     \/ Op("draw") /\ UNCHANGED bvars
        /\ LET p == Picture(cfg, hover) IN DrawnAs(p, Ev.x, Ev.y, Ev.cw, Ev.grid)
     \/ Op("links") /\ UNCHANGED bvars /\ LinksAs(Picture(cfg, hover), Ev.x, Ev.y, Ev.cw, Ev.hits)
     \/ Op("size") /\ UNCHANGED bvars
        /\ (Plain(cfg) => /\ ((Ev.raw = 1 \/ cfg.sw # 0) => Ev.w = WantW(cfg))
                          /\ Ev.h = WantH(cfg) /\ Ev.forh = HeightFor(cfg, Ev.forw))
     \/ Op("move") /\ Move(Ev.px, Ev.py) /\ hover' = Ev.hover
     \/ Op("leave") /\ Leave /\ Ev.hover = 0
     \/ Op("press") /\ Press(Ev.px, Ev.py)
     \/ Op("take") /\ Take /\ pending = Ev.got
Done == AtEnd /\ UNCHANGED <<t, l, cfg, hover, pending>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l, cfg, hover, pending>>
=============================================================================
