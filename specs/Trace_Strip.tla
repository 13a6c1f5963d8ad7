---------------------------- MODULE Trace_Strip ----------------------------
EXTENDS Strip, TraceLib
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ strip = <<>>
Do == CASE Op("set") -> Set(Ev.x)
        [] Op("crop") -> Crop(Ev.a, Ev.b)
        [] Op("divide") -> /\ DivideJoin(Ev.cuts)
                           /\ Ev.parts = Divide(strip, Ev.cuts)
        [] Op("overlay") -> Overlay(Ev.st)
        [] Op("simplify") -> Simplify
        [] Op("join") -> Join(Ev.x, Ev.y)
        [] Op("adjust") -> Adjust(Ev.n, Ev.p)
        [] Op("align") -> Align(Ev.al, Ev.n, Ev.p)
        [] Op("justify") -> Justify(Ev.n, Ev.p)
        [] Op("hide") -> Hide
        [] Op("fade") -> strip' = Ev.out /\ Near(Ev.out, FadeOf(strip, Ev.num, Ev.fb))
        [] Op("tint") -> strip' = Ev.out /\ Near(Ev.out, TintOf(strip, Ev.num, Ev.to))
        [] Op("split") -> /\ Simplify /\ Ev.parts = SplitAt(strip, Ev.at)
                          /\ \A j \in 1..2 : Ev.lens[j] = Len(Ev.parts[j])
Step == /\ Advance /\ Ev.panic = 0
        /\ Do
        /\ strip' = Ev.out
        /\ Ev.len = Len(strip')
Done == AtEnd /\ UNCHANGED <<strip, t, l>>
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<strip, t, l>>
=============================================================================
