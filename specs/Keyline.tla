------------------------------ MODULE Keyline ------------------------------
(* Keylines: the lines a grid, or a vertical or horizontal container, draws between its children.     *)
(* A line is a set of edges between the centres of neighbouring cells; a cell's character joins       *)
(* exactly the edges that meet in it.                                                                *)
EXTENDS Layout, BoxGlyphs, FiniteSets
E_H(x, y) == <<"h", x, y>>              \* from (x, y) to (x + 1, y)
E_V(x, y) == <<"v", x, y>>              \* from (x, y) to (x, y + 1)
HLine(x0, x1, y) == {E_H(x, y) : x \in x0..(x1 - 1)}
VLine(x, y0, y1) == {E_V(x, y) : y \in y0..(y1 - 1)}
Frame(x0, y0, x1, y1) == HLine(x0, x1, y0) \cup HLine(x0, x1, y1) \cup VLine(x0, y0, y1) \cup VLine(x1, y0, y1)
Arms(E, x, y, s) ==
    <<IF E_V(x, y - 1) \in E THEN s ELSE 0, IF E_H(x, y) \in E THEN s ELSE 0,
      IF E_V(x, y) \in E THEN s ELSE 0, IF E_H(x - 1, y) \in E THEN s ELSE 0>>
NoArms == <<0, 0, 0, 0>>

(* Grid: laid out in the region less one cell on every side; a frame, and a line on every boundary     *)
(* between two neighbouring cells that do not belong to the same child                               *)
Inset(w, h) == [x |-> 1, y |-> 1, w |-> Max(0, w - 2), h |-> Max(0, h - 2)]
Owner(cs, tr, r, c) ==
    LET mine == {k \in 1..Len(tr.cell) : /\ r \in tr.cell[k].r..(tr.cell[k].r + tr.cell[k].rs - 1)
                                         /\ c \in tr.cell[k].c..(tr.cell[k].c + tr.cell[k].cs - 1)}
    IN  IF mine = {} THEN 0 ELSE CHOOSE k \in mine : TRUE
Starts(tr, gut, last) == [k \in 1..(Len(tr) + 1) |->
    IF k = 1 THEN 0 ELSE IF k = Len(tr) + 1 THEN last ELSE SumTo(tr, k - 1) + (k - 1) * gut]
Fits(P, cs, w, h) ==
    cs # <<>> => LET tr == GridTracks(cs, Inset(w, h), P)
                 IN  /\ w >= 3 /\ h >= 3
                     /\ Sum(tr.ctr) + (Len(tr.ctr) - 1) * P.guth <= w - 2
                     /\ Sum(tr.rtr) + (Len(tr.rtr) - 1) * P.gutv <= h - 2
GridLines(P, cs, w, h) ==
    IF cs = <<>> THEN {} ELSE
    LET tr == TLCEval(GridTracks(cs, Inset(w, h), P))
        xs == TLCEval(Starts(tr.ctr, P.guth, w - 1))
        ys == TLCEval(Starts(tr.rtr, P.gutv, h - 1))
        own == TLCEval([r \in 1..Len(tr.rtr) |-> [c \in 1..Len(tr.ctr) |-> Owner(cs, tr, r - 1, c - 1)]])
        vs == {<<r, c>> \in (1..Len(tr.rtr)) \X (2..Len(tr.ctr)) : own[r][c - 1] # own[r][c]}
        hs == {<<r, c>> \in (2..Len(tr.rtr)) \X (1..Len(tr.ctr)) : own[r - 1][c] # own[r][c]}
    IN  Frame(0, 0, w - 1, h - 1)
        \cup UNION {VLine(xs[b[2]], ys[b[1]], ys[b[1] + 1]) : b \in vs}
        \cup UNION {HLine(xs[b[2]], xs[b[2] + 1], ys[b[1]]) : b \in hs}
(* vertical and horizontal: a frame, and a line across where each child ends *)
FlowLines(lay, ps, w, h) ==
    IF ps = <<>> THEN {} ELSE
    Frame(0, 0, w - 1, h - 1)
    \cup (IF lay = "vertical"
          THEN UNION {HLine(0, w - 1, y) : y \in {ps[k].y + ps[k].h : k \in 1..Len(ps)} \cap 1..(h - 1)}
          ELSE UNION {VLine(x, 0, h - 1) : x \in {ps[k].x + ps[k].w : k \in 1..Len(ps)} \cap 1..(w - 1)})

(* what stands in cell (x, y) of the region: a line's character, minus the child, or 0 *)
Over(ps, x, y) ==
    LET on == {k \in 1..Len(ps) : x \in ps[k].x..(ps[k].x + ps[k].w - 1) /\ y \in ps[k].y..(ps[k].y + ps[k].h - 1)}
    IN  IF on = {} THEN 0 ELSE -ps[SetMax(on)].i
Picture(E, ps, s, w, h) ==
    [y \in 1..h |-> [x \in 1..w |-> LET a == Arms(E, x - 1, y - 1, s)
                                    IN  IF a = NoArms THEN Over(ps, x - 1, y - 1) ELSE Glyph(a)]]
Placed(lay, P, cs, w, h, vp) ==
    IF lay = "grid" THEN Grid(cs, Inset(w, h), vp, P)
    ELSE Arrange(P, cs, [x |-> 0, y |-> 0, w |-> w, h |-> h], vp)
Drawn(lay, P, cs, s, w, h, vp) ==
    LET ps == TLCEval(Placed(lay, P, cs, w, h, vp))
        E == TLCEval(IF s = 0 THEN {} ELSE IF lay = "grid" THEN GridLines(P, cs, w, h) ELSE FlowLines(lay, ps, w, h))
    IN  Picture(E, ps, s, w, h)

(* rectangles put on top of one another join where they touch *)
Boxes(bs) == UNION {Frame(b.x, b.y, b.x + b.w - 1, b.y + b.h - 1) : b \in {bs[k] : k \in 1..Len(bs)}}

(* which joints must have a character: all whose vertical arms agree and whose horizontal arms agree *)
Must(q) == LET v == {q[1], q[3]} \ {0}
               h == {q[2], q[4]} \ {0}
           IN  Cardinality(v) < 2 /\ Cardinality(h) < 2 /\ Glyph(q) # 0
=============================================================================
