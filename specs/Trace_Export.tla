--------------------------- MODULE Trace_Export ---------------------------
EXTENDS Export, TraceLib
TraceInit == t \in 1..Len(Traces) /\ l = 1
Step == /\ Advance /\ Op("export") /\ Ev.panic = 0
        /\ SvgFrame(Ev.svg, Ev.w, Ev.h)
        /\ SvgShows(Ev.cells, Ev.svg, Ev.w, Ev.h)
        /\ AnsiShows(Ev.cells, Ev.ansi, Ev.h)
        /\ PlainShows(Ev.cells, Ev.rows, Ev.snap, Ev.h)
Done == AtEnd /\ UNCHANGED <<t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l>>
=============================================================================
