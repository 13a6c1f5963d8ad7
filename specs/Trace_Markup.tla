---------------------------- MODULE Trace_Markup ----------------------------
EXTENDS Markup, TraceLib
TraceInit == t \in 1..Len(Traces) /\ l = 1
NB(b) == [Plain EXCEPT !.fg = b.fg, !.bg = b.bg]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Like(x, y, tol) == x = y \/ (x # None /\ y # None /\ \A j \in 1..3 : x[j] - y[j] \in (-tol)..tol)
\* blink is understood but not drawn
Same(o, a, tol) == /\ Like(o.fg, a.fg, tol) /\ Like(o.bg, a.bg, tol) /\ SetOf(o.fl) = (IF Ev.op = "rich" THEN a.fl ELSE a.fl \ {"blink"}) /\ o.click = a.click /\ o.link = a.link
Col(c) == IF c = <<>> THEN None ELSE [c |-> <<c[1], c[2], c[3]>>, num |-> c[4], auto |-> c[5]]
Links(x) == [bg |-> Col(x.bg), fg |-> Col(x.fg), bgh |-> Col(x.bgh), fgh |-> Col(x.fgh), st |-> SetOf(x.st), sth |-> SetOf(x.sth)]
\* clickable text goes through the link style, if there is one; mixing may round either way
Fits(o, a) == IF Ev.ls = <<>> \/ a.click = 0 THEN Same(o, a, 0)
              ELSE LET w == Linked(a, Links(Ev.ls[1]), a.click = Ev.hov) IN
                   \/ Same(o, w, 2)
                   \/ w.bg # None /\ Unsure(w.bg) /\ Same(o, [w EXCEPT !.fg = o.fg], 2)
Step == /\ Advance /\ Ev.panic = 0
        /\ LET m == FeedAll(Start, Ev.toks) IN
           /\ Bool(Ev.err) = m.err
           /\ ~m.err => /\ Len(Ev.out) = Len(m.text)
                        /\ \A p \in 1..Len(m.text) : Ev.out[p].g = m.text[p] /\ (m.text[p] # -1 => Fits(Ev.out[p], LookAt(m, p, NB(Ev.base))))
           \* the lookups by offset say what the segments say
           /\ (Ev.op = "rich" /\ ~m.err) => Ev.whole = 1 /\ Ev.at = Ev.out
Done == AtEnd /\ UNCHANGED <<t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l>>
=============================================================================
