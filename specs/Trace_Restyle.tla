--------------------------- MODULE Trace_Restyle ---------------------------
(* After every (full or incremental) restyle each shown widget has exactly   *)
(* the style of the specification for the present classes, states, inline    *)
(* styles and ancestors.                                                     *)
EXTENDS Css, TraceLib
Dark == Ev.dark = 1
TV == Traces[t].tv[Ev.dark + 1]
Par == Ev.par
N == Len(Par)
RECURSIVE Chain(_), Shown(_)
Chain(i) == IF i = 0 THEN <<>> ELSE <<Ev.els[i]>> \o Chain(Par[i])
Shown(i) == i = 0 \/ (Ev.vis[i] = 1 /\ Shown(Par[i]))
\* styles from the root down: <<style, context>> per node
RECURSIVE Build(_, _, _)
Build(flat, i, acc) ==
    IF i > N THEN acc
    ELSE LET ctx == IF Par[i] = 0 THEN RootCtx(Ev.fg) ELSE acc[Par[i]][2]
             st == Final(flat, Chain(i), Dark, TV, Ev.inl[i], ctx)
         IN Build(flat, i + 1, Append(acc, <<st, CtxOf(st, ctx, Traces[t].ct)>>))
\* the attributes rules match on are the widget's own
Truthful(e) == /\ (Has(e.st, "focus") => e.foc = 1) /\ (Has(e.st, "disabled") => e.dis = 1)
               /\ e.id = e.gid
               /\ {e.cls[k] : k \in 1..Len(e.cls)} = {e.gcls[k] : k \in 1..Len(e.gcls)}
Agree(i, st) == LET want == Visible(st) got == Range(Ev.styles[i]) IN
                IF got = want THEN TRUE ELSE PrintT(<<"NODE", i, "EXPECTED", want \ got, "OBSERVED", got \ want>>) /\ FALSE
TraceInit == t \in 1..Len(Traces) /\ l = 1
Step == /\ Advance /\ Ev.panic = 0
        /\ LET all == Build(FlatAll(Traces[t].rules), 1, <<>>) IN
           \A i \in 1..N : Shown(i) => (Agree(i, all[i][1]) /\ (IF Truthful(Ev.els[i]) THEN TRUE ELSE PrintT(<<"NODE", i, "UNTRUE", Ev.els[i]>>) /\ FALSE))
Done == AtEnd /\ UNCHANGED <<t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l>>
=============================================================================
