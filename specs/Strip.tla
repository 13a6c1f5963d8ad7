------------------------------- MODULE Strip -------------------------------
(* A strip is a row of terminal cells.  A cell is a tuple                    *)
(*   <<glyph, half, fg, bg, attrs, meta>>                                    *)
(* half = 0: a narrow glyph, 1 / 2: left / right half of a wide glyph.       *)
(* fg, bg, meta = 0 mean "unset"; attrs is a set encoded as a bit mask.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SP == 0                       \* the blank glyph
Half(c)  == c[2]
BlankLike(c) == <<SP, 0, c[3], c[4], c[5], c[6]>>

\* bitwise or on masks below 64
RECURSIVE Or(_, _)
Or(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
            ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * Or(a \div 2, b \div 2)

Pad(n, p) == [i \in 1..n |-> <<SP, 0, p[1], p[2], p[3], 0>>]

\* Replace glyph halves that lost their other half by blanks of the same style.
Mend(cells) ==
  [i \in 1..Len(cells) |->
     IF \/ (Half(cells[i]) = 2 /\ i = 1)
        \/ (Half(cells[i]) = 1 /\ i = Len(cells))
     THEN BlankLike(cells[i]) ELSE cells[i]]

MinI(a, b) == IF a < b THEN a ELSE b
CropOf(s, a, b) == IF a >= b \/ a >= Len(s) THEN <<>> ELSE Mend(SubSeq(s, a + 1, MinI(b, Len(s))))

\* the cut positions that take effect: increasing, inside the strip
RECURSIVE DivideOf(_, _, _)
DivideOf(s, cuts, last) ==
  IF cuts = <<>> THEN (IF last < Len(s) THEN <<CropOf(s, last, Len(s))>> ELSE <<>>)
  ELSE IF cuts[1] > last /\ cuts[1] <= Len(s)
       THEN <<CropOf(s, last, cuts[1])>> \o DivideOf(s, Tail(cuts), cuts[1])
       ELSE DivideOf(s, Tail(cuts), last)
Divide(s, cuts) == IF cuts = <<>> THEN <<s>> ELSE DivideOf(s, cuts, 0)

OverlayOf(s, st) ==
  [i \in 1..Len(s) |-> <<s[i][1], s[i][2],
                         IF st[1] # 0 THEN st[1] ELSE s[i][3],
                         IF st[2] # 0 THEN st[2] ELSE s[i][4],
                         Or(s[i][5], st[3]), s[i][6]>>]

AdjustOf(s, n, p) == IF Len(s) >= n THEN CropOf(s, 0, n) ELSE s \o Pad(n - Len(s), p)

AlignOf(s, al, n, p) ==
  IF Len(s) >= n THEN CropOf(s, 0, n)
  ELSE LET gap == n - Len(s)
           left == IF al = "left" THEN 0 ELSE IF al = "right" THEN gap ELSE gap \div 2
       IN Pad(left, p) \o s \o Pad(gap - left, p)

\* Justify: the missing cells are dealt out one at a time to the blanks, starting from the last one.
RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n = 0 THEN <<>> ELSE <<c>> \o Repeat(c, n - 1)
RECURSIVE Spread(_, _, _, _)
Spread(s, k, gaps, extra) ==   \* k: index of the next blank, from 1
  IF s = <<>> THEN <<>>
  ELSE IF s[1][1] # SP THEN <<s[1]>> \o Spread(Tail(s), k, gaps, extra)
  ELSE LET fromEnd == gaps - k
           share == (extra \div gaps) + (IF fromEnd < extra % gaps THEN 1 ELSE 0)
       IN Repeat(s[1], 1 + share) \o Spread(Tail(s), k + 1, gaps, extra)
JustifyOf(s, n, p) ==
  IF Len(s) >= n THEN CropOf(s, 0, n)
  ELSE LET gaps == Cardinality({i \in 1..Len(s) : s[i][1] = SP}) IN
       IF gaps = 0 THEN AlignOf(s, "left", n, p) ELSE Spread(s, 1, gaps, n - Len(s))

\* fully transparent text: same cells, nothing legible, background kept
HideOf(s) == [i \in 1..Len(s) |-> <<SP, 0, 0, s[i][4], s[i][5], s[i][6]>>]

\* faded text: num quarters of its own colour, the rest that of its background (fb where it has none of its own);
\* text without a colour of its own counts as white (255)
Between(c, d, num) == (4 * c + (d - c) * num) \div 4
FadeOf(s, num, fb) == [i \in 1..Len(s) |-> LET b == IF s[i][4] # 0 THEN s[i][4] ELSE fb
                                             f == IF s[i][3] # 0 THEN s[i][3] ELSE IF b # 0 THEN 255 ELSE 0
                                         IN [s[i] EXCEPT ![3] = IF num >= 4 THEN s[i][3] ELSE IF f = 0 \/ b = 0 THEN f ELSE Between(b, f, num)]]
\* tinted: every colour that is set goes num quarters of the way to the tint
TintOf(s, num, to) == [i \in 1..Len(s) |-> [s[i] EXCEPT ![3] = IF @ = 0 THEN 0 ELSE Between(@, to, num), ![4] = IF @ = 0 THEN 0 ELSE Between(@, to, num)]]
\* split at cell c without breaking a glyph: one that straddles c goes to the left
SplitAt(s, c) == LET k == IF c > 0 /\ c < Len(s) /\ Half(s[c]) = 1 THEN c + 1 ELSE MinI(c, Len(s)) IN <<SubSeq(s, 1, k), SubSeq(s, k + 1, Len(s))>>
\* the same but for the rounding of colours
Near(x, y) == /\ Len(x) = Len(y)
              /\ \A i \in 1..Len(x) : /\ \A j \in {1, 2, 5, 6} : x[i][j] = y[i][j]
                                      /\ \A j \in {3, 4} : x[i][j] - y[i][j] \in -1..1 /\ (x[i][j] = 0) = (y[i][j] = 0)
VARIABLE strip
Become(x) == strip' = x
Set(x)          == Become(x)
Crop(a, b)      == Become(CropOf(strip, a, b))
Overlay(st)     == Become(OverlayOf(strip, st))
Simplify        == Become(strip)
Join(x, y)      == Become(x \o strip \o y)
Adjust(n, p)    == Become(AdjustOf(strip, n, p))
Align(al, n, p) == Become(AlignOf(strip, al, n, p))
Justify(n, p)   == Become(JustifyOf(strip, n, p))
Hide            == Become(HideOf(strip))
\* dividing and joining again loses nothing except wide glyphs that were cut in half
DivideJoin(cuts) == Become(FlattenSeq(Divide(strip, cuts)))

\* Properties of the design
WellFormed(s) == \A i \in 1..Len(s) :
                   /\ Half(s[i]) = 1 => i < Len(s) /\ Half(s[i + 1]) = 2 /\ s[i][1] = s[i + 1][1]
                   /\ Half(s[i]) = 2 => i > 1 /\ Half(s[i - 1]) = 1
NoHalves == WellFormed(strip)
=============================================================================
