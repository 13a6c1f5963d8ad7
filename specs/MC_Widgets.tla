---------------------------- MODULE MC_Widgets ------------------------------
EXTENDS Widgets, TLC
CONSTANT Small
VARIABLE down      \* the widgets pressed since the pointer last moved
vars == <<w, out, down>>
All == << [kind |-> "button", action |-> "", emits |-> TRUE, tip |-> "", inset |-> 0, x |-> 0, y |-> 0, w |-> 1, h |-> 1],
        [kind |-> "switch", action |-> "", emits |-> TRUE, tip |-> "", inset |-> 0, x |-> 0, y |-> 1, w |-> 1, h |-> 1],
        [kind |-> "list", action |-> "", emits |-> FALSE, tip |-> "", inset |-> 0, x |-> 0, y |-> 2, w |-> 1, h |-> 3],
        [kind |-> "tip", action |-> "", emits |-> FALSE, tip |-> "help", inset |-> 0, x |-> 0, y |-> 5, w |-> 1, h |-> 1],
        [kind |-> "icon", action |-> "go", emits |-> FALSE, tip |-> "icon", inset |-> 0, x |-> 0, y |-> 6, w |-> 1, h |-> 1] >>
F == IF Small THEN SubSeq(All, 1, 3) ELSE All
N == Len(F)
Y == IF Small THEN 0..4 ELSE 0..7
Items == UNION {[1..n -> BOOLEAN] : n \in 0..2}
Init == /\ \E it \in Items : w = [i \in 1..N |-> [NewW(F[i].kind, FALSE, IF F[i].kind = "list" THEN it ELSE <<>>) EXCEPT !.sel = IF F[i].kind = "list" THEN Norm(it, 0) ELSE 0]]
        /\ out = Quiet /\ down = {}
B == {"left", "right"}
Next == \/ \E y \in Y, b \in B : Down(F, 0, y, b) /\ down' = down \cup At(F, 0, y)
        \/ \E y \in Y, b \in B : Up(F, 0, y, b) /\ down' = down
        \/ \E i \in 1..2, b \in B : Hand(F, i, "up", b, FALSE) /\ UNCHANGED down
        \/ \E y \in Y : Moved(F, 0, y) /\ down' = {}
        \/ \E i \in 1..3 : Focus(F, i) /\ UNCHANGED down
        \/ \E k \in {"enter", "up", "down", "x"} : Key(F, k) /\ UNCHANGED down
        \/ \E i \in 1..3, b \in BOOLEAN : SetOn(i, b) /\ UNCHANGED down
        \/ \E b \in BOOLEAN : (SetBusy(2, b) \/ SetValue(2, b)) /\ UNCHANGED down
        \/ \E n \in 0..3 : SetSel(3, n) /\ UNCHANGED down
        \/ \E it \in Items : SetItems(3, it) /\ UNCHANGED down
Spec == Init /\ [][Next]_vars
OneHover == Cardinality({i \in 1..N : w[i].hover}) <= 1
\* a press is held only by widgets pressed since the pointer last moved
Held == \A i \in 1..N : w[i].active => i \in down
\* a list never rests on a disabled option while it has an enabled one, nor outside its items
Rests == LET it == w[3].items IN /\ w[3].sel \in 0..(IF it = <<>> THEN 0 ELSE Len(it) - 1)
                                 /\ (\E j \in 1..Len(it) : it[j]) => it[w[3].sel + 1]
\* nothing comes from a disabled widget, and values change only with a message or by the application
FromEnabled == [][ /\ (out'.msg # <<>> => w'[out'.msg[1]].on /\ (out'.msg[1] = 2 => ~w'[2].busy))
                   /\ (w'[2].value # w[2].value /\ out'.msg = <<>> => w' = [w EXCEPT ![2].value = ~@]) ]_vars
=============================================================================
