----------------------------- MODULE MC_Ready -----------------------------
(* A placeholder that is pressed, resized and padded; a ruler and a header of the same size beside it. *)
EXTENDS Ready, FiniteSets
CONSTANTS Sides, MaxLen
VARIABLES v, text, pad, w, h, f
vars == <<v, text, pad, w, h, f>>
Letters == {97, 23383, Space, Newline}
Pads == {<<0, 0, 0, 0>>, <<1, 0, 0, 2>>, <<0, 1, 1, 1>>}
Init == v = "default" /\ text = <<97>> /\ pad = <<0, 0, 0, 0>> /\ w \in Sides /\ h \in Sides /\ f = 0
Press == v' = NextVariant(v) /\ UNCHANGED <<text, pad, w, h, f>>
Type == f = 0 /\ Len(text) < MaxLen /\ (\E g \in Letters : text' = Append(text, g)) /\ UNCHANGED <<v, pad, w, h, f>>
Resize == w' \in Sides /\ h' \in Sides /\ UNCHANGED <<v, text, pad, f>>
Repad == pad' \in Pads /\ UNCHANGED <<v, text, w, h, f>>
Turn == Len(text) = 1 /\ f' = (f + 1) % 10 /\ UNCHANGED <<v, text, pad, w, h>>
Next == Press \/ Type \/ Resize \/ Repad \/ Turn
Spec == Init /\ [][Next]_vars

pic == Placeholder(v, text, pad, w, h)
cw == w - pad[2] - pad[4]
ch == h - pad[1] - pad[3]
\* nothing but background outside the content area
Padded == LET p == TLCEval(pic) IN \A y \in 1..h, x \in 1..w :
            (y <= pad[1] \/ y > pad[1] + ch \/ x <= pad[4] \/ x > pad[4] + cw) => p[y][x] = Space
\* no half characters
Whole == LET p == TLCEval(pic) IN \A y \in 1..h, x \in 1..w :
            /\ (p[y][x] = -1 => x > 1 /\ Width(p[y][x - 1]) = 2)
            /\ ((p[y][x] > 0 /\ Width(p[y][x]) = 2) => x < w /\ p[y][x + 1] = -1)
Letter(g) == g \notin {Space, Newline, -1}
\* wrapping: nothing lost or moved, lines fit where single characters do, and no word could have gone a line higher
Lines == Wrap(text, Hi(1, cw))
Kept == SelectSeq(FlattenSeq(Lines), Letter) = SelectSeq(text, Letter)
Fit == cw >= 2 => \A i \in 1..Len(Lines) : Wide(Lines[i]) <= cw
Greedy == \A p \in {Split(text, Newline)[i] : i \in 1..Len(Split(text, Newline))} :
            LET ls == WrapPara(p, Hi(1, cw)) IN
            \A i \in 1..(Len(ls) - 1) : LET nw == Words(ls[i + 1]) IN
               \/ Wide(ls[i]) + 1 + Wide(nw[1]) > cw
               \/ (\E k \in 1..Len(Words(p)) : Wide(Words(p)[k]) > cw)
\* where everything fits, everything is seen, in the middle to within a cell
Seen == (v = "default" /\ cw >= 2 /\ ch >= Len(Lines)) =>
          LET p == TLCEval(pic)
              rows == {y \in 1..h : \E x \in 1..w : Letter(p[y][x])} IN
          /\ SelectSeq(FlattenSeq(p), Letter) = SelectSeq(text, Letter)
          /\ (rows # {} /\ \A i \in 1..Len(Lines) : Lines[i] # <<>>) =>
               LET top == CHOOSE y \in rows : \A z \in rows : y <= z IN
               (top - 1 - pad[1]) - (ch - Cardinality(rows) - (top - 1 - pad[1])) \in {-1, 0}
\* three presses lead back
Cycle == NextVariant(NextVariant(NextVariant(v))) = v
Measure == \A n \in Sides : LET r == Ruler(TRUE, n, 1) IN Cardinality({x \in 1..n : r[1][x] = Tick(5)}) = n \div 5
Spins == Cardinality({Spinner(k, TRUE, 1, 1) : k \in f..(f + 9)}) = 10 /\ Spinner(f + 10, TRUE, 1, 1) = Spinner(f, TRUE, 1, 1)
\* a header keeps its icon and clock room whatever the title
Titled == \A n \in {20, 22, 31} :
            LET p == Header(SelectSeq(text, Letter), <<97>>, n, 1) IN
            p[1][2] = Icon /\ \A x \in (n - ClockW + 1)..n : p[1][x] = Space
=============================================================================
