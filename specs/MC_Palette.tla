----------------------------- MODULE MC_Palette -----------------------------
(* Two providers, two commands; the user types, moves, chooses, closes and    *)
(* opens again while answers and timers are under way.                        *)
EXTENDS Palette
CONSTANTS MaxSteps, MaxGen
VARIABLES p, n, sent
vars == <<p, n, sent>>
Texts == <<<<"x">>, <<"y", "y">>>>
HitLists == {<<>>, <<<<1, 2>>>>, <<<<2, 1>>, <<1, 1>>>>}
Init == \E ros \in BOOLEAN, np \in {0, 2} : p = [New(ros) EXCEPT !.np = np, !.wait = [i \in 1..np |-> 0]] /\ n = 0 /\ sent = {}
F == Fresh(p)
Go(r) == p' = r /\ n' = n + 1 /\ UNCHANGED sent
\* what the current search was told so far, for the completeness invariant: <<generation, provider, hits>>
Tell(i, h) == p.wait[i] # 0 /\ p' = Answers(F, i, h) /\ n' = n + 1 /\ sent' = {x \in sent : x[1] = p.gen} \cup {<<p.gen, i, h>>}
Next == /\ n < MaxSteps /\ p.gen <= MaxGen
        /\ \/ Go(Open(F, -1)) \/ Go(CloseWith(F, FALSE))
           \/ \E k \in {"enter", "up", "down", "char", "back"} : Go(Key(F, k, "a", Texts))
           \/ (\E i \in 1..Len(Rows(p)) : Go(Click(F, i, Texts)))
           \/ (\E i \in 1..p.np, h \in HitLists : Tell(i, h))
           \/ \E d \in {260, 520} : Go(Elapse(F, d))
           \/ \E r \in Drain(F, FALSE) : Go(r)
Spec == Init /\ [][Next]_vars
\* results of one search only, and of the current one once anything of it is shown
NoMixing == \A i \in 1..Len(p.es) : p.es[i].g = p.es[1].g /\ p.es[i].g <= p.gen /\ (~p.clear => p.es[i].g = p.gen)
InOrder == \A i, j \in 1..Len(p.es) : i < j => ~Before(p.es[j], p.es[i])
Sound == p.es # <<>> => p.sel \in 1..Len(p.es)
ClosedIsEmpty == ~p.open => p.es = <<>> /\ ~p.busy /\ p.q = <<>> /\ p.chosen = 0 /\ \A i \in 1..p.np : p.wait[i] = 0
\* when all have answered and been heard, everything found is shown and nothing is busy
Pending == {i \in 1..Len(p.chan) : p.chan[i].g = p.gen /\ p.chan[i].k = "hits"}
Heard == p.open /\ p.np > 0 /\ p.chosen = 0 /\ Pending = {} /\ \A i \in 1..p.np : p.wait[i] = 0
Found == UNION {{h[3][j][1] : j \in 1..Len(h[3])} : h \in {x \in sent : x[1] = p.gen}}
AllShown == Heard => ~p.busy /\ {p.es[i].id : i \in 1..Len(p.es)} \ {0} = Found
BusyMeans == p.busy => p.open /\ p.list /\ p.done < p.exp
\* what runs is what was highlighted in the list, or was chosen into the input before
Runs == [][p'.act # 0 => /\ (p.chosen # 0 /\ p'.act = p.chosen) \/ (\E i \in 1..Len(Rows(p)) : p.es[i].id = p'.act /\ p.ros)
                         /\ p.open /\ ~p'.open]_vars
\* opening and closing are announced exactly when they happen
Announced == [][/\ (p.open # p'.open <=> \E i \in 1..Len(p'.ev) : p'.ev[i][1] \in {"opened", "closed"})
                /\ (~p.open /\ ~p'.open => p'.ev = <<>>)]_vars
\* the last highlight announced in a step is the one shown after it, unless the list is gone
HlTrue == [][LET h == SelectSeq(p'.ev, LAMBDA e : e[1] = "highlight") IN h # <<>> /\ p'.list => h[Len(h)][2] = p'.sel /\ h[Len(h)][3] = p'.es[p'.sel].id]_vars
HlMoves == [][p'.open /\ p'.list /\ Highlighted(p') # 0 /\ (~p.list \/ Highlighted(p) # Highlighted(p') \/ p.es[p.sel].id # p'.es[p'.sel].id)
                 => \E i \in 1..Len(p'.ev) : p'.ev[i][1] = "highlight"]_vars
=============================================================================
