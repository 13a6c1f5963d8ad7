----------------------------- MODULE Trace_Css -----------------------------
EXTENDS Css, TraceLib
VARIABLE sheet      \* the flattened rules in force
Tv(d) == Traces[t].tv[d + 1]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ sheet = <<>>
Step == /\ Advance /\ Ev.panic = 0
        /\ CASE Op("parse") -> Ev.ok = 1 /\ sheet' = FlatAll(Traces[t].rules)
             [] Op("bad") -> Ev.ok = 0 /\ UNCHANGED sheet
             [] Op("soup") -> UNCHANGED sheet
             [] Op("style") -> /\ LET want == Visible(Cascade(sheet, Ev.chain, Ev.dark = 1, Tv(Ev.dark)))
                                  IN IF Range(Ev.style) = want THEN TRUE ELSE PrintT(<<"EXPECTED", want \ Range(Ev.style), "OBSERVED", Range(Ev.style) \ want>>) /\ FALSE
                               /\ UNCHANGED sheet
Done == AtEnd /\ UNCHANGED <<sheet, t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<sheet, t, l>>
=============================================================================
