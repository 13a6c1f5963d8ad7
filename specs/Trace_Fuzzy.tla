---------------------------- MODULE Trace_Fuzzy -----------------------------
EXTENDS Fuzzy, TraceLib
TraceInit == t \in 1..Len(Traces) /\ l = 1
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* o: [score, shown: the characters shown, marked: positions in the match style]
Explains(q, name, exact, o) == \E m \in Matches(q, name, exact) :
    /\ Close(o.score, m.score) /\ (o.score > 0) = (m.score > 0)
    /\ o.shown = [i \in 1..Len(name) |-> name[i].c]
    /\ SetOf(o.marked) = (IF m.score > 0 THEN Marked(name, m.at) ELSE {})
RECURSIVE Keep(_, _, _)
Keep(cmds, q, k) == IF k > Len(cmds) THEN <<>> ELSE (IF Hits(q, cmds[k].name, FALSE) THEN <<k>> ELSE <<>>) \o Keep(cmds, q, k + 1)
Found(cmds) == SelectSeq([k \in 1..Len(cmds) |-> k], LAMBDA k : cmds[k].disc = 1)
Step == /\ Advance /\ Ev.panic = 0
        /\ CASE Op("match") -> Explains(Ev.q, Ev.name, Bool(Ev.exact), Ev.o)
             \* a provider offers exactly the commands that match, each with its own action and help
             [] Op("search") -> LET ks == Keep(Ev.cmds, Ev.q, 1) IN
                    /\ Len(Ev.hits) = Len(ks)
                    /\ \A i \in 1..Len(ks) : Ev.hits[i].id = ks[i] /\ Explains(Ev.q, Ev.cmds[ks[i]].name, FALSE, Ev.hits[i].o)
             [] Op("discover") -> SetOf(Ev.hits) = SetOf(Found(Ev.cmds)) /\ Len(Ev.hits) = Len(Found(Ev.cmds))
                                  /\ (Ev.sorted = 0 => Ev.hits = Found(Ev.cmds))
                                  /\ (Ev.sorted = 1 => \A i \in 1..(Len(Ev.hits) - 1) : Ev.cmds[Ev.hits[i]].rank <= Ev.cmds[Ev.hits[i + 1]].rank)
Done == AtEnd /\ UNCHANGED <<t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l>>
=============================================================================
