--------------------------- MODULE Trace_Palette ----------------------------
EXTENDS Palette, TraceLib
VARIABLE p, last
T == Traces[t].texts
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ p = New(Traces[t].ros = 1) /\ last = <<>>
F == Fresh(p)
Next1 == CASE Op("provide") -> {Provide(F, Ev.n)}
           [] Op("open") -> {Open(F, Ev.f)}
           [] Op("close") -> {CloseWith(F, FALSE)}
           [] Op("submit") -> {Submit(F, T)}
           [] Op("key") -> {Key(F, Ev.k, Ev.c, T)}
           [] Op("click") -> {Click(F, Ev.i, T)}
           [] Op("answer") -> {IF Ev.i = 0 THEN F ELSE Answers(F, Ev.i, Ev.hits)}
           [] Op("wait") -> {Elapse(F, Ev.d)}
           [] Op("drain") -> Drain(F, Ev.late = 1)
           [] Op("restore") -> {IF F.open THEN F ELSE [F EXCEPT !.restore = -1]}
           [] Op("tick") -> {F}
\* a highlight that repeats what was last announced may be left out
RECURSIVE Terse(_, _)
Terse(h, s) == IF s = <<>> THEN <<>> ELSE IF s[1] = h THEN Terse(h, Tail(s)) ELSE <<s[1]>> \o Terse(IF s[1][1] = "highlight" THEN s[1] ELSE h, Tail(s))
LastHl(h, s) == LET x == SelectSeq(s, LAMBDA e : e[1] = "highlight") IN IF x = <<>> THEN h ELSE x[Len(x)]
RowIds(s) == FlattenSeq([i \in 1..Len(s) |-> IF s[i].id # 0 /\ Traces[t].helps[s[i].id] = 1 THEN <<s[i].id, -s[i].id>> ELSE <<s[i].id>>])
Seen(r) == /\ Ev.act = r.act
           /\ Terse(last, Ev.ev) = Terse(last, r.ev)
           /\ Ev.calls = r.calls
           /\ Bool(Ev.open) = r.open
           /\ Ev.look = RowIds(Rows(r))
           /\ Ev.busy = (IF r.busy THEN 1 ELSE 0)
           /\ (Lists(r) => Ev.high = Highlighted(r))
           /\ (r.open => Ev.q = TrimR(r.q))
Step == /\ Advance /\ Ev.panic = 0
        /\ (Op("restore") => Ev.f = (IF p.open THEN -1 ELSE p.restore))
        /\ (\E r \in Next1 : /\ Seen(r) /\ p' = r /\ last' = (IF r.open THEN LastHl(last, r.ev) ELSE <<>>)
                             /\ (Op("drain") /\ View(r) # View(F) => Ev.changed = 1))
Done == AtEnd /\ UNCHANGED <<p, last, t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<p, last, t, l>>
=============================================================================
