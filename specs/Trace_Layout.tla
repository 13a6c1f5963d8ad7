---------------------------- MODULE Trace_Layout ----------------------------
EXTENDS Layout, TraceLib
TraceInit == t \in 1..Len(Traces) /\ l = 1
Step == /\ Advance /\ Ev.panic = 0
        /\ Arrange(Ev.par, Ev.kids, Ev.av, Ev.vp) = Ev.out
Done == AtEnd /\ UNCHANGED <<t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l>>
=============================================================================
