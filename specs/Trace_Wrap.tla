----------------------------- MODULE Trace_Wrap -----------------------------
EXTENDS Wrap, TraceLib
Base(x, b) == [i \in 1..Len(x) |-> <<x[i][1], IF x[i][2] = 0 THEN b ELSE x[i][2]>>]
TraceInit == t \in 1..Len(Traces) /\ l = 1
Step == /\ Advance /\ Ev.panic = 0
        /\ LET r == Layout(Base(Ev.x, Ev.b), Ev.w, Ev.mode, Ev.over) IN
           /\ r = Ev.out
           \* the height a text widget asks for is the number of lines it lays out
           /\ Ev.w > 0 => Ev.h = Len(r)
Done == AtEnd /\ UNCHANGED <<t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l>>
=============================================================================
