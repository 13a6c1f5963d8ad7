------------------------------ MODULE Widgets -------------------------------
(* The interactive widgets under the event loop's pointer and key handling:  *)
(* buttons, switches, option lists, header icons and widgets with tooltips.  *)
(* w[i] is the state of widget i; fix[i] what never changes: its kind, what  *)
(* it emits, its tooltip and the rectangle it is drawn in.                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES w, out        \* out: what the last event produced
wvars == <<w, out>>
Quiet == [msg |-> <<>>, acts |-> <<>>, picked |-> <<>>]
NewW(kind, value, items) == [on |-> TRUE, busy |-> FALSE, hover |-> FALSE, active |-> FALSE, focus |-> FALSE,
                             value |-> value, items |-> items, sel |-> 0]
HasHover(f) == f.kind \in {"button", "switch", "icon", "tip"}
Enabled(f, s) == s.on /\ (f.kind = "switch" => ~s.busy)
(* ---- option lists: items is a sequence of enabled flags, sel counts from 0 ---- *)
After(it, k) == {j \in 1..Len(it) : it[j] /\ j > k}
Before(it, k) == {j \in 1..Len(it) : it[j] /\ j < k}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the selection meant by index n: itself, else the next enabled one, else the one before, else stay
Norm(it, n) == IF Len(it) = 0 THEN 0
               ELSE LET k == (IF n >= Len(it) THEN Len(it) - 1 ELSE n) + 1 IN
                    IF it[k] THEN k - 1
                    ELSE IF After(it, k) # {} THEN Min(After(it, k)) - 1
                    ELSE IF Before(it, k) # {} THEN Max(Before(it, k)) - 1 ELSE k - 1
MoveSel(it, n, d) == LET S == IF d > 0 THEN After(it, n + 1) ELSE Before(it, n + 1)
                     IN IF S = {} THEN n ELSE IF d > 0 THEN Min(S) - 1 ELSE Max(S) - 1
(* ---- the pointer ---- *)
In(f, x, y) == x >= f.x /\ x < f.x + f.w /\ y >= f.y /\ y < f.y + f.h
At(F, x, y) == {i \in 1..Len(F) : In(F[i], x, y)}
\* what pressing widget i yields: an action if it has one, else its message, else nothing
Press(F, i, s) == CASE F[i].kind = "button" -> IF F[i].action # "" THEN [Quiet EXCEPT !.acts = <<F[i].action>>]
                                               ELSE IF F[i].emits THEN [Quiet EXCEPT !.msg = <<i, 0>>] ELSE Quiet
                    [] F[i].kind = "icon" -> [Quiet EXCEPT !.acts = <<F[i].action>>]
                    [] F[i].kind = "switch" -> [Quiet EXCEPT !.msg = <<i, IF s.value THEN 1 ELSE 0>>]
                    [] OTHER -> Quiet
Presses(f, b) == (f.kind \in {"button", "icon"} /\ b = "left") \/ f.kind = "switch"
Down(F, x, y, b) ==
    /\ w' = [i \in 1..Len(F) |-> IF In(F[i], x, y) /\ Presses(F[i], b) /\ Enabled(F[i], w[i]) THEN [w[i] EXCEPT !.active = TRUE] ELSE w[i]]
    /\ out' = Quiet
Up(F, x, y, b) ==
    LET T == At(F, x, y) IN
    IF T = {} THEN w' = w /\ out' = Quiet
    ELSE LET i == CHOOSE i \in T : TRUE
             fire == w[i].active /\ Presses(F[i], b) /\ Enabled(F[i], w[i])
             s1 == IF Presses(F[i], b) THEN [w[i] EXCEPT !.active = FALSE] ELSE w[i]
             s2 == IF fire /\ F[i].kind = "switch" THEN [s1 EXCEPT !.value = ~@] ELSE s1
             row == y - F[i].y - F[i].inset + 1
             col == x - F[i].x - F[i].inset + 1
             pick == /\ F[i].kind = "list" /\ b = "left" /\ w[i].on /\ row \in 1..Len(w[i].items) /\ w[i].items[row]
                     /\ row <= F[i].h - 2 * F[i].inset /\ col >= 1 /\ col <= F[i].w - 2 * F[i].inset
         IN IF pick THEN w' = [w EXCEPT ![i].sel = row - 1] /\ out' = [Quiet EXCEPT !.picked = <<i, row - 1>>]
            ELSE w' = [w EXCEPT ![i] = s2] /\ out' = IF fire THEN Press(F, i, s2) ELSE Quiet
\* an event handed to widget i alone (a button or switch), inside its region or not: a release elsewhere ends the press
Hand(F, i, what, b, in) ==
    LET fire == what = "up" /\ in /\ w[i].active /\ Presses(F[i], b) /\ Enabled(F[i], w[i])
        s1 == CASE what = "down" -> IF in /\ Presses(F[i], b) /\ Enabled(F[i], w[i]) THEN [w[i] EXCEPT !.active = TRUE] ELSE w[i]
                [] what = "up" -> IF Presses(F[i], b) THEN [w[i] EXCEPT !.active = FALSE] ELSE w[i]
                [] OTHER -> [w[i] EXCEPT !.hover = in]
        s2 == IF fire /\ F[i].kind = "switch" THEN [s1 EXCEPT !.value = ~@] ELSE s1
    IN w' = [w EXCEPT ![i] = s2] /\ out' = IF fire THEN Press(F, i, s2) ELSE Quiet
\* moving drops every press and hovers exactly the widget under the pointer
Moved(F, x, y) == /\ w' = [i \in 1..Len(F) |-> [w[i] EXCEPT !.active = FALSE, !.hover = In(F[i], x, y) /\ HasHover(F[i])]]
                  /\ out' = Quiet
\* wheel turns and drags leave them alone
Other == w' = w /\ out' = Quiet
(* ---- keys go to the focused widget ---- *)
Focused == {i \in 1..Len(w) : w[i].focus}
CanFocus(F, i) == F[i].kind \in {"button", "switch", "list"} /\ Enabled(F[i], w[i])
Focus(F, i) == /\ IF CanFocus(F, i) THEN w' = [j \in 1..Len(w) |-> [w[j] EXCEPT !.focus = (j = i)]] ELSE w' = w
               /\ out' = Quiet
Key(F, k) ==
    IF Focused = {} THEN Other
    ELSE LET i == CHOOSE i \in Focused : TRUE IN
         IF ~Enabled(F[i], w[i]) THEN Other
         ELSE CASE F[i].kind = "button" -> w' = w /\ out' = IF k \in {"enter", "space"} THEN Press(F, i, w[i]) ELSE Quiet
                [] F[i].kind = "switch" -> LET s == [w[i] EXCEPT !.value = ~@] IN
                                           IF k \in {"enter", "space"} THEN w' = [w EXCEPT ![i] = s] /\ out' = Press(F, i, s) ELSE Other
                [] F[i].kind = "list" -> /\ out' = Quiet
                                         /\ w' = CASE k = "up" -> [w EXCEPT ![i].sel = MoveSel(w[i].items, @, -1)]
                                                   [] k = "down" -> [w EXCEPT ![i].sel = MoveSel(w[i].items, @, 1)]
                                                   [] OTHER -> w
(* ---- changes by the application never emit anything ---- *)
SetOn(i, b) == w' = [w EXCEPT ![i].on = b] /\ out' = Quiet
SetBusy(i, b) == w' = [w EXCEPT ![i].busy = b] /\ out' = Quiet
SetValue(i, b) == w' = [w EXCEPT ![i].value = b] /\ out' = Quiet
SetSel(i, n) == w' = [w EXCEPT ![i].sel = Norm(w[i].items, n)] /\ out' = Quiet
SetItems(i, it) == w' = [w EXCEPT ![i].items = it, ![i].sel = Norm(it, w[i].sel)] /\ out' = Quiet
\* the tooltip to show: that of the hovered widget
Tip(F) == LET H == {i \in 1..Len(w) : w[i].hover} IN IF H = {} THEN "" ELSE F[CHOOSE i \in H : TRUE].tip
\* (several may be, when events were handed to them one by one)
Tips(F) == LET H == {i \in 1..Len(w) : w[i].hover} IN IF Cardinality(H) < 2 THEN {Tip(F)} ELSE {F[i].tip : i \in H} \cup {""}
=============================================================================
