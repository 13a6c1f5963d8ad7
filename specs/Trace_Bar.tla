----------------------------- MODULE Trace_Bar ------------------------------
EXTENDS Bar, TraceLib
VARIABLE b
C0 == Traces[t].cfg
New == [vert |-> C0.vert = 1, n |-> C0.n, virt |-> C0.virt, win |-> C0.win, pos |-> C0.pos, st |-> "normal", at |-> 0, ghost |-> C0.ghost = 1]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ b = New
Given(s) == [i \in 1..3 |-> s[i] = 1]
Drawn1(q) == /\ Ev.look \in Looks(q.n, q.virt, q.win, q.pos, q.ghost)
             /\ Ev.bad = 0
             /\ (Ev.tc # -1 => Ev.tc = Tint(Given(C0.tcols), q.st)) /\ (Ev.bc # -1 => Ev.bc = Tint(Given(C0.bcols), q.st))
Do == CASE Op("mouse") -> \E r \in Mouse(b, Ev.k, Ev.p) :
              b' = r.b /\ Ev.msg = r.msg /\ (r.msg = "to" => AsksFor(b, Ev.p, Ev.v))
        [] Op("update") -> b' = [b EXCEPT !.virt = Ev.virt, !.win = Ev.win, !.pos = Ev.pos] /\ Ev.msg = ""
        [] Op("resize") -> b' = [b EXCEPT !.n = Ev.n] /\ Ev.msg = ""
        [] Op("hover") -> b' = HoverOn(b, Ev.on = 1) /\ Ev.msg = ""
        [] Op("drop") -> b' = Drop(b) /\ Ev.msg = ""
        [] Op("show") -> b' = b /\ Ev.msg = ""
Step == /\ Advance /\ Ev.panic = 0
        /\ Do
        /\ Drawn1(b') /\ Ev.st = b'.st /\ Bool(Ev.can) = (b'.virt > b'.win)
Done == AtEnd /\ UNCHANGED <<b, t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<b, t, l>>
=============================================================================
