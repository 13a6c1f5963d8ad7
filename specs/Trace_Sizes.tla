----------------------------- MODULE Trace_Sizes -----------------------------
EXTENDS Sizes, TraceLib
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ nodes = <<>>
Fits(cw, ch) == /\ nodes[1].ml + Ask(nodes, 1, "h") + nodes[1].mr <= cw
                /\ nodes[1].mt + Ask(nodes, 1, "v") + nodes[1].mb < ch
Seen(lay, i, got) ==
  LET ps == {p \in lay : p.i = i} IN
  IF ps = {} THEN got[5] = 0
  ELSE LET p == CHOOSE p \in ps : TRUE IN
       IF p.w = 0 \/ p.h = 0 THEN got[5] = 0 ELSE got = <<p.x, p.y, p.w, p.h, p.w * p.h>>
Drawn(cw, ch, got, end) ==
  (ByContent(nodes) /\ Fits(cw, ch)) =>
    LET lay == Lay(nodes, 1, nodes[1].ml, nodes[1].mt) IN
    /\ \A i \in 1..Len(nodes) : nodes[i].k = "leaf" => Seen(lay, i, got[i])
    /\ end = <<0, nodes[1].mt + Ask(nodes, 1, "v") + nodes[1].mb, 1, 1, 1>>
Step ==
  /\ Advance /\ Ev.panic = 0
  /\ \/ Op("new") /\ Start(Ev.nodes)
     \/ Op("set") /\ Change(Ev.i, Ev.node)
     \/ Op("sizes") /\ UNCHANGED svars
        /\ \A i \in 1..Len(nodes) : Ev.got[i] = <<Ask(nodes, i, "h"), Ask(nodes, i, "v")>>
     \/ Op("draw") /\ UNCHANGED svars /\ Drawn(Ev.cw, Ev.ch, Ev.got, Ev.end)
Done == AtEnd /\ UNCHANGED <<t, l, nodes>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l, nodes>>
=============================================================================
