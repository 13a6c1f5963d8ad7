----------------------------- MODULE Trace_Hit ------------------------------
EXTENDS Hit, TraceLib
VARIABLES off
Full(vp) == [x |-> 0, y |-> 0, w |-> vp.w, h |-> vp.h]
Board(e, list) ==   [k \in 1..(e.vp.w * e.vp.h) |-> Cell(list, (k - 1) % e.vp.w, (k - 1) \div e.vp.w)]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ off = [k \in 0..Traces[t].nodes |-> 0]
After == IF Op("wheel") THEN LET e == Steps[l - 1] IN Turn(e.tree, e.reg, off, e.vp, Ev.mx, Ev.my, Ev.dir) ELSE off
Step == /\ Advance /\ Ev.panic = 0
        /\ LET now == Settle(Ev.tree, Ev.reg, After, Ev.vp)
               list == Paint(Ev.tree, Ev.reg, Full(Ev.vp), now, Ev.vp)
           IN  /\ off' = now
               /\ Ev.seen = Board(Ev, SelectSeq(list, LAMBDA o : o.num >= 0))
               /\ Ev.hits = Board(Ev, list)
               /\ Ev.senders = 1
Done == AtEnd /\ UNCHANGED <<t, l, off>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l, off>>
=============================================================================
