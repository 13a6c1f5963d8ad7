-------------------------------- MODULE Loop --------------------------------
(* The application's event loop: what each input does, whom it reaches, in   *)
(* which order, and what the terminal shows once it has been dealt with.     *)
(* The application has cells 1..N (1 the status line, N the filler), each    *)
(* one row of the screen.  conf: [cells: seq of [can, tip], hb, vb: break-   *)
(* points as seq of [at, cls], palette: BOOLEAN].                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* s: [n: counters, vis, dis: per cell, hov, foc: a cell or 0, cnt: messages the application has counted,
\*     af: the focus index it wants, lf: the one last obeyed, re: wants a new tree, open: palette shown,
\*     back: focus to restore, w, h: terminal size, tip: cell whose tooltip shows or 0, px, py: its pointer,
\*     mx, my: last pointer position, bell, quit]
Cells(c) == 1..Len(c.cells)
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b
Lives(c, s) == {i \in Cells(c) : c.cells[i].can /\ s.vis[i] /\ ~s.dis[i]}
Rank(c, s, i) == Cardinality({j \in Lives(c, s) : j < i})
NthOr(c, s, k, other) == IF \E i \in Lives(c, s) : Rank(c, s, i) = k THEN CHOOSE i \in Lives(c, s) : Rank(c, s, i) = k ELSE other
First(c, s) == IF Lives(c, s) = {} THEN 0 ELSE Least(Lives(c, s))
NextOf(c, s) == LET a == {j \in Lives(c, s) : j > s.foc} IN IF Lives(c, s) = {} THEN s.foc ELSE IF a # {} THEN Least(a) ELSE First(c, s)
PrevOf(c, s) == LET a == {j \in Lives(c, s) : j < s.foc} IN IF Lives(c, s) = {} THEN s.foc ELSE IF a # {} THEN Most(a) ELSE Most(Lives(c, s))
Fresh(c, s) == [s EXCEPT !.n = [i \in Cells(c) |-> IF i = 1 THEN s.cnt ELSE 0], !.vis = [i \in Cells(c) |-> TRUE], !.dis = [i \in Cells(c) |-> FALSE],
                         !.hov = 0, !.foc = 0, !.tip = 0, !.open = FALSE]
Start(c, w, h, af) == Fresh(c, [n |-> <<>>, vis |-> <<>>, dis |-> <<>>, hov |-> 0, foc |-> 0, cnt |-> 0, af |-> af, lf |-> af, re |-> FALSE,
                                open |-> FALSE, back |-> 0, w |-> w, h |-> h, tip |-> 0, px |-> 0, py |-> 0, mx |-> -1, my |-> -1, bell |-> 0, quit |-> FALSE, first |-> TRUE])
(* ---- the turn of the loop: a new tree if asked for, then the focus the application wants, then a live one ---- *)
Turn(c, s) ==
    LET s1 == IF s.re THEN [Fresh(c, s) EXCEPT !.re = FALSE, !.foc = NthOr(c, Fresh(c, s), s.af, 0), !.lf = s.af] ELSE s
        s2 == IF s1.first THEN [s1 EXCEPT !.foc = NthOr(c, s1, s1.af, 0), !.first = FALSE] ELSE s1
        s3 == IF s2.af # s2.lf THEN [s2 EXCEPT !.foc = NthOr(c, s2, s2.af, 0), !.lf = s2.af] ELSE s2
    IN IF s3.foc \in Lives(c, s3) \/ s3.open THEN s3 ELSE [s3 EXCEPT !.foc = First(c, s3)]

(* ---- reports: <<kind, cell or 0, what>> ---- *)
Name(c, i) == IF i = 1 THEN "status" ELSE IF i = Len(c.cells) THEN "filler" ELSE "c" \o ToString(i)
\* the application counts a message or an action and shows the count
Count(s, k) == [s EXCEPT !.cnt = @ + k, !.n[1] = s.cnt + k]
Note(c, s, k) == LET t == Count(s, 1) IN CASE k = 3 -> [t EXCEPT !.re = TRUE] [] k = 4 -> [t EXCEPT !.af = (@ + 1) % 4] [] OTHER -> t
Act(c, s, a) == CASE a = "act" -> Count(s, 1) [] a = "app.bell" -> [s EXCEPT !.bell = @ + 1] [] a = "app.quit" -> [s EXCEPT !.quit = TRUE] [] OTHER -> s
Emits(k) == k \in {"a", "e"}
Bumps(k) == k \in {"a", "s"}
Action(k) == CASE k \in {"x", "e"} -> "act" [] k = "d" -> "nothing" [] k = "b" -> "app.bell" [] k = "z" -> "app.quit" [] OTHER -> ""
ActionName(k, i) == IF Action(k) = "act" THEN "act" \o ToString(i) ELSE Action(k)
Notes(k) == CASE k = "m" -> <<1>> [] k = "M" -> <<1, 2>> [] k = "R" -> <<3>> [] k = "G" -> <<4>> [] k = "t" -> <<5>> [] OTHER -> <<>>
OnKey(c, s, k) ==
    CASE k = "r" -> [s EXCEPT !.cnt = @ + 1, !.re = TRUE]
      [] k = "f" -> [s EXCEPT !.af = (@ + 1) % 4]
      [] k = "h" -> IF Len(c.cells) > 2 THEN [s EXCEPT !.vis[2] = ~@] ELSE s
      [] k = "j" -> IF Len(c.cells) > 3 THEN [s EXCEPT !.dis[3] = ~@] ELSE s
      [] k = "g" -> IF 3 \in Lives(c, s) THEN [s EXCEPT !.foc = 3] ELSE s
      [] k = "u" -> Count(s, 10)
      [] k = "q" -> [s EXCEPT !.quit = TRUE]
      [] OTHER -> s
\* the first and the last cell each ask for an action
Both(c) == <<"a:act1", "a:act" \o ToString(Len(c.cells))>>
\* a key: focus navigation, then the focused widget, its message, the application's key handler, the actions
Key(c, s0, k) ==
    LET s == IF k = "tab" THEN [s0 EXCEPT !.foc = NextOf(c, s0)] ELSE IF k = "backtab" THEN [s0 EXCEPT !.foc = PrevOf(c, s0)] ELSE s0
        f == s.foc
        s1 == IF Bumps(k) THEN [s EXCEPT !.n[f] = @ + 1] ELSE s
        s2 == IF Emits(k) THEN Count(s1, 1) ELSE s1
        s3 == OnKey(c, s2, k)
        s4 == IF k = "w" THEN Count(s3, 2) ELSE IF Action(k) # "" THEN Act(c, s3, Action(k)) ELSE s3
    IN [s |-> Turn(c, s4),
        log |-> <<"w:" \o ToString(f) \o ":" \o k>> \o (IF Emits(k) THEN <<"m:hit:" \o Name(c, f) \o ":Cell">> ELSE <<>>)
                \o <<"k:" \o k>> \o (IF k = "w" THEN Both(c) ELSE IF Action(k) # "" THEN <<"a:" \o ActionName(k, f)>> ELSE <<>>)
                \o (IF s4.re THEN <<"z:" \o ToString(s.w) \o ":" \o ToString(s.h)>> ELSE <<>>)]
\* messages posted to the loop come one after the other, each with a turn of its own
RECURSIVE Posted(_, _, _)
Posted(c, r, ns) == IF ns = <<>> THEN r
                    ELSE LET s1 == Note(c, r.s, Head(ns)) IN
                         Posted(c, [s |-> Turn(c, s1), log |-> r.log \o <<"m:note" \o ToString(Head(ns)) \o "::AppContext">>
                                    \o (IF s1.re THEN <<"z:" \o ToString(s1.w) \o ":" \o ToString(s1.h)>> ELSE <<>>)], Tail(ns))
RECURSIVE Keys(_, _, _)
Keys(c, r, ks) == IF ks = <<>> \/ r.s.quit THEN r
                  ELSE LET q == Key(c, r.s, Head(ks)) IN
                       Keys(c, Posted(c, [s |-> q.s, log |-> r.log \o q.log], Notes(Head(ks))), Tail(ks))
(* ---- the screen: one row per visible cell, the filler takes the rest ---- *)
RECURSIVE Rows(_, _, _)
Rows(c, s, i) == IF i > Len(c.cells) THEN <<>> ELSE (IF s.vis[i] THEN <<i>> ELSE <<>>) \o Rows(c, s, i + 1)
CellAt(c, s, y) == LET r == Rows(c, s, 1) IN r[IF y + 1 > Len(r) THEN Len(r) ELSE y + 1]
RowOf(c, s, i) == (CHOOSE k \in 1..Len(Rows(c, s, 1)) : Rows(c, s, 1)[k] = i) - 1
RECURSIVE LastAt(_, _, _)
LastAt(b, size, k) == IF k = 0 THEN "" ELSE IF size >= b[k][1] THEN b[k][2] ELSE LastAt(b, size, k - 1)
Class(b, size) == LastAt(b, size, Len(b))
Hue(cls) == CASE cls = "-narrow" -> 4 [] cls = "-mid" -> 5 [] cls = "-wide" -> 6 [] cls = "-short" -> 7 [] cls = "-tall" -> 8 [] cls = "-huge" -> 9 [] OTHER -> 0
Colour(c, s, i) == LET resp == IF i = 1 THEN Hue(Class(c.hb, s.w)) ELSE IF i = Len(c.cells) THEN Hue(Class(c.vb, s.h)) ELSE 0
                   IN IF resp # 0 THEN resp ELSE IF s.hov = i THEN 3 ELSE IF s.foc = i /\ ~s.open THEN 2 ELSE IF i = 1 THEN 12 ELSE 1
B(x) == IF x THEN 1 ELSE 0
Screen(c, s) == LET r == Rows(c, s, 1) IN [k \in 1..Len(r) |-> <<k - 1, r[k], s.n[r[k]], B(s.foc = r[k] /\ ~s.open), B(s.hov = r[k]), Colour(c, s, r[k])>>]
(* ---- the pointer ---- *)
Pointer(c, s, k, x, y, tips) ==
    LET i == CellAt(c, s, y)
        say == "y:" \o ToString(i) \o ":" \o k \o ":" \o ToString(x) \o ":" \o ToString(y - RowOf(c, s, i))
        moved == x # s.mx \/ y # s.my
        s1 == CASE k = "down" -> Count([s EXCEPT !.n[i] = @ + 1], IF i = Len(c.cells) THEN 3 ELSE 1)
                [] k = "wheel" -> [s EXCEPT !.n[i] = @ + 1]
                [] k = "up" -> Count(s, 1)
                [] k = "move" -> [s EXCEPT !.hov = i, !.mx = x, !.my = y]
                [] OTHER -> s
        s2 == IF k # "move" THEN [s1 EXCEPT !.tip = 0]
              ELSE IF c.cells[i].tip /\ tips THEN [s1 EXCEPT !.tip = i, !.px = x, !.py = y] ELSE [s1 EXCEPT !.tip = 0]
    IN [s |-> Turn(c, s2),
        log |-> <<say>> \o (CASE k = "down" -> <<"m:click:" \o Name(c, i) \o ":Cell">> \o (IF i = Len(c.cells) THEN Both(c) ELSE <<>>) [] k = "up" -> <<"a:act" \o ToString(i)>> [] OTHER -> <<>>)]
Resize(c, s, w, h) == [s |-> Turn(c, [s EXCEPT !.w = w, !.h = h]), log |-> <<"z:" \o ToString(w) \o ":" \o ToString(h)>>]
(* ---- the command palette takes every key and the pointer while it is open, and gives the focus back ---- *)
\* the palette's binding: alternatives, each some modifiers and a key; a stray Shift does not matter, nor does letter case
Lower(k) == CASE k = "Y" -> "y" [] k = "K" -> "k" [] OTHER -> k
BindMatches(bind, mods, key) == \E i \in 1..Len(bind) :
    LET need == {bind[i].mods[j] : j \in 1..Len(bind[i].mods)} IN
    need \subseteq mods /\ (mods \ need) \subseteq {"shift"} /\ Lower(bind[i].key) = Lower(key)
Open(c, s) == [s |-> [s EXCEPT !.open = TRUE, !.back = s.foc], log |-> <<"a:app.command_palette", "p:open">>]
Chord(c, s, mods, key) == IF BindMatches(c.bind, mods, key) THEN Open(c, s) ELSE Keys(c, [s |-> s, log |-> <<>>], <<key>>)
Close(c, s, how) == LET s1 == [s EXCEPT !.open = FALSE, !.foc = s.back, !.tip = IF how = "outside" THEN 0 ELSE @] IN
                    IF how = "enter" THEN [s |-> Turn(c, Count(s1, 1)), log |-> <<"a:cmd1", "p:chosen">>]
                    ELSE [s |-> Turn(c, s1), log |-> <<"p:closed">>]
=============================================================================
