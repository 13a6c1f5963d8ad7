---------------------------- MODULE Trace_Canvas ----------------------------
EXTENDS Canvas, TraceLib
VARIABLE term
\* whatever was on the screen before
Garbage(w, h) == [scr |-> [r \in 0..(h-1) |-> [q \in 0..(w-1) |-> <<7, 1, 0, 99, 98, 1>>]], cur |-> <<0, 0>>, pen |-> <<97, 96, 2>>, bad |-> FALSE]
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ W = Traces[t].W /\ H = Traces[t].H
             /\ cells = BlankGrid /\ clips = <<>> /\ term = Garbage(Traces[t].W, Traces[t].H)
Grid(g) == [r \in Rows |-> [q \in Cols |-> g[r * W + q + 1]]]
Do == CASE Op("put") -> Put(Ev.x, Ev.y, Ev.g, Ev.p) /\ UNCHANGED term
        [] Op("strips") -> Strips(Ev.x, Ev.y, Ev.s) /\ UNCHANGED term
        [] Op("push") -> Push(Ev.r) /\ UNCHANGED term
        [] Op("pop") -> Pop /\ UNCHANGED term
        [] Op("clear") -> Clear /\ UNCHANGED term
        [] Op("garble") -> term' = Garbage(W, H) /\ UNCHANGED cvars      \* something else drew over the screen; canvas invalidated
        [] Op("flush") -> term' = TermRun(term, Ev.k, 1) /\ UNCHANGED cvars /\ Shows(term')
Step == /\ Advance /\ Ev.panic = 0
        /\ Do
        /\ ("grid" \in DOMAIN Ev => Grid(Ev.grid) = cells')
Done == AtEnd /\ UNCHANGED <<cvars, term, t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<cvars, term, t, l>>
=============================================================================
