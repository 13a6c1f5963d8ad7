------------------------------ MODULE MC_Scroll ------------------------------
EXTENDS Scroll, FiniteSets
CONSTANTS Sizes, Contents
Ov == {"auto", "hidden", "scroll"}
Kinds == IF Cardinality(Contents) > 3 THEN {"pane"} ELSE {"pane", "screen", "container"}
Cfgs == [W : Sizes, H : Sizes, cw : Contents, ch : Contents, ovx : Ov, ovy : {"auto", "scroll"}, sbv : {1}, sbh : {1}, vis : {1}, gut : {0}, kind : Kinds]
Fit0(k) == /\ c = k /\ x = [off |-> 0, virt |-> k.cw, view |-> ViewW(k)]
           /\ y = [off |-> 0, virt |-> k.ch, view |-> ViewH(k)] /\ drag = NoDrag
Init == \E k \in Cfgs : Fit0(k)
Keys == {"up", "down", "left", "right", "pageup", "pagedown", "home", "end"}
Next == \/ \E k \in Keys : Key(k)
        \/ \E k \in {"wheeldown", "wheelup"} : \E m \in {0, 1} : Wheel(k, m)
        \/ \E p \in {0, c.H - 1} : \E q \in {0, c.W - 1} : Press(q, p) \/ Pull(q, p)
        \/ Release
        \/ \E n \in Contents : Configure([c EXCEPT !.ch = n])
        \/ \E n \in Sizes : Configure([c EXCEPT !.W = n, !.H = n])
Spec == Init /\ [][Next]_vars
\* bars are a fixed point: shown exactly when the content does not fit beside the other bar
FlagsFixed == FlagsStep(c, Flags(c)) = Flags(c)
\* with the view inside the content the pane is always full: no gap after the last row
NoGap == (y.virt >= y.view => y.off + y.view <= y.virt) /\ (x.virt >= x.view => x.off + x.view <= x.virt)
=============================================================================
