------------------------------ MODULE MC_Tree ------------------------------
EXTENDS Tree, TLC
CONSTANTS MaxN
Ids == {"", "a"}
\* every tree in document order: a node's parent is its predecessor or one of the predecessor's ancestors
RECURSIVE Chain(_, _)
Chain(p, i) == IF i = 0 THEN {} ELSE {i} \cup Chain(p, p[i])
Shapes(n) == {p \in [1..n -> 0..(n - 1)] : p[1] = 0 /\ \A i \in 2..n : p[i] \in Chain(p, i - 1) \ {0} /\ p[i] < i}
Mk(par, id, can, mode) == [par |-> par, id |-> id, type |-> "T", can |-> can, sv |-> 1, sd |-> 1, ss |-> 1, sc |-> 1, mode |-> mode]
Init == /\ \E n \in 1..MaxN : \E p \in Shapes(n), c \in [1..n -> {0, 1}], b \in 0..n :
              nodes = [i \in 1..n |-> Mk(p[i], IF i = n THEN "a" ELSE "", c[i], IF i = b THEN "stop" ELSE "log")]
        /\ vis = [i \in All |-> 1] /\ disp = [i \in All |-> 1] /\ dis = [i \in All |-> 0] /\ cls = [i \in All |-> {}]
        /\ focused = {} /\ target = 1
Act == \/ \E r \in -1..MaxN : Next(r) \/ Prev(r)
       \/ \E i \in 0..MaxN, r \in {0, 1} : SetIndex(i, r)
       \/ \E r \in {0, 1} : FocusId("a", r)
       \/ Settle
       \/ \E i \in All \ {1}, v \in {0, 1} : SetVis({i}, v) \/ SetDis({i}, v)
Spec == Init /\ [][Act]_vars

OneFocus == Cardinality(focused) <= 1 /\ (focused # {} => target \in focused)
\* going forward from anywhere reaches every focusable widget exactly once per round, and back undoes forward
RECURSIVE Round(_, _)
Round(i, m) == IF m = 0 THEN {} ELSE {NextOf(i)} \cup Round(NextOf(i), m - 1)
Cyclic == Lives # {} => /\ Round(target, Cardinality(Lives)) = Lives
                        /\ \A i \in Lives : PrevOf(NextOf(i)) = i /\ NextOf(PrevOf(i)) = i
\* a move lands on a usable widget, and only there
Landed == [][(focused' # focused) => (focused' = {} \/ (focused' = {target'} /\ Live(target')))]_vars
\* a message never meets a node that is not above its sender, meets each at most once, and nothing beyond the first stop
Rises == \A i \in All : LET s == Bubble(i).seen IN
            /\ \A x \in 1..Len(s) : s[x][1] \in Range(Anc(nodes, i))
            /\ \A x, y \in 1..Len(s) : x < y => s[x][1] > s[y][1]
            /\ \A x \in 1..Len(s) : nodes[s[x][1]].mode = "stop" => x = Len(s)
            /\ (Bubble(i).stopped = 0 => Len(s) = Len(Anc(nodes, i)))
Queries == /\ Match([t |-> "", i |-> ""]) = {} /\ Match([t |-> "T", i |-> ""]) = All
           /\ FirstOf(Match([t |-> "T", i |-> "a"])) = LastOf(Match([t |-> "", i |-> "a"]))
=============================================================================
