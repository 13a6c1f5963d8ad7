------------------------------ MODULE MC_Loop -------------------------------
(* The event loop in the small: four or five cells, every kind of input.     *)
EXTENDS Loop
CONSTANTS Mid, Most10, KeySet
VARIABLES conf, s, log, ks   \* ks: the keys of the last step, for the properties
vars == <<conf, s, log, ks>>
Confs == {[cells |-> <<[can |-> FALSE, tip |-> FALSE]>> \o m \o <<[can |-> FALSE, tip |-> FALSE]>>, hb |-> <<<<0, "-narrow">>, <<40, "-wide">>>>, vb |-> <<>>] :
             m \in [1..Mid -> [can : BOOLEAN, tip : {TRUE}]]}
Init == /\ conf \in Confs /\ \E af \in 0..1 : LET z == Start(conf, 39, 11, af) IN s = Turn(conf, z)
        /\ log = <<>> /\ ks = <<>>
RECURSIVE Sum(_, _)
Sum(n, i) == IF i = 0 THEN 0 ELSE n[i] + Sum(n, i - 1)
Room == s.cnt + s.bell + Sum(s.n, Len(s.n)) - s.n[1] < Most10 /\ s.n[1] <= Most10
View == <<conf, [s EXCEPT !.mx = 0, !.my = 0, !.px = 0, !.py = 0]>>
Take(r, k) == s' = r.s /\ log' = r.log /\ ks' = k /\ UNCHANGED conf
\* with no cell able to take the focus keys reach no cell: the harness keeps away from that, and so does the model
Live == Lives(conf, s) # {}
Keyed == \E k \in KeySet : ~s.open /\ Live /\ Take(Keys(conf, [s |-> s, log |-> <<>>], <<k>>), <<k>>)
Pointed == \E k \in {"down", "up", "move", "drag", "wheel"}, y \in 0..Len(conf.cells) : ~s.open /\ Take(Pointer(conf, s, k, 20, y, TRUE), <<>>)
Sized == \E w \in {39, 40} : ~s.open /\ w # s.w /\ Take(Resize(conf, s, w, s.h), <<>>)
Opened == ~s.open /\ Live /\ Take(Open(conf, s), <<>>)
Closed == \E how \in {"esc", "enter", "outside"} : s.open /\ Take(Close(conf, s, how), <<>>)
Next == ~s.quit /\ Room /\ (Keyed \/ Pointed \/ Sized \/ Opened \/ Closed)
Spec == Init /\ [][Next]_vars
(* ---- between turns ---- *)
FocusLive == ~s.open => (IF Lives(conf, s) = {} THEN s.foc = 0 ELSE s.foc \in Lives(conf, s))
NoDebt == ~s.re /\ s.lf = s.af
Held == Screen(conf, s) # <<>> /\ Cardinality({r \in 1..Len(Screen(conf, s)) : Screen(conf, s)[r][4] = 1}) <= 1
                               /\ Cardinality({r \in 1..Len(Screen(conf, s)) : Screen(conf, s)[r][5] = 1}) <= 1
\* every row of the screen is the row of a visible cell, in order
Rowed == LET r == Screen(conf, s) IN \A i, j \in 1..Len(r) : i < j => r[i][2] < r[j][2]
TipHovered == s.tip # 0 => conf.cells[s.tip].tip
(* ---- steps ---- *)
Starts(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
Num(p) == Cardinality({i \in 1..Len(log') : Starts(log'[i], p)})
Extra == IF ks' = <<"u">> THEN 10 ELSE IF ks' = <<"r">> THEN 1 ELSE 0
\* the application is told of every message and action exactly once, and what it counts is what it was told
ToldOnce == [][s'.cnt = s.cnt + Num("m:") + Num("a:act") + Num("a:cmd") + Extra]_vars
\* and what it was told of is on the screen
CountShown == [][s'.cnt # s.cnt => s'.n[1] = s'.cnt]_vars
\* each key reaches one cell, the one that has the focus, and the application's key handler, in this order
KeyOrder == [][ks' # <<>> => /\ Num("w:") = 1 /\ Num("k:") = 1
                            /\ (\E i, j \in 1..Len(log') : i < j /\ Starts(log'[i], "w:") /\ Starts(log'[j], "k:"))
                            /\ \A i, j \in 1..Len(log') : Starts(log'[i], "a:") /\ Starts(log'[j], "k:") => j < i]_vars
\* the palette changes nothing in the application but through the command it was asked for
PaletteApart == [][s.open => s'.cnt <= s.cnt + 1 /\ (~s'.open => s'.foc = s.back \/ s'.re # s.re)]_vars
Ended == s.quit => \E i \in 1..Len(ks) : ks[i] \in {"q", "z"}
=============================================================================
