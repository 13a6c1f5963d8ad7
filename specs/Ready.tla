------------------------------ MODULE Ready ------------------------------
(* The ready-made leaf widgets: placeholders, rulers, loading indicators and  *)
(* headers. A picture is a function from the region's cells to what is drawn: *)
(* a code point, 0 where the widget leaves the cell as it was, -1 for the     *)
(* second half of a wide character.                                           *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Hi(a, b) == IF a > b THEN a ELSE b
Lo(a, b) == IF a < b THEN a ELSE b
Space == 32
Newline == 10
Width(g) == IF (g >= 11904 /\ g < 64256) \/ g >= 127744 THEN 2 ELSE 1
Wide(gs) == FoldLeft(LAMBDA a, g : a + Width(g), 0, gs)

(* ---- greedy wrapping of words ---- *)
Split(gs, sep) ==
  FoldLeft(LAMBDA a, g : IF g = sep THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, g)], << <<>> >>, gs)
Words(gs) == SelectSeq(Split(gs, Space), LAMBDA u : u # <<>>)
\* a word wider than a line falls into pieces that are as long as lines can be
Break(u, m) ==
  FoldLeft(LAMBDA a, g : IF a[Len(a)] = <<>> \/ Wide(a[Len(a)]) + Width(g) <= m
                         THEN [a EXCEPT ![Len(a)] = Append(@, g)] ELSE Append(a, <<g>>), << <<>> >>, u)
\* [done, cur]: a word goes on the current line if it fits behind a space, otherwise on the next ones
Put(a, u, m) ==
  IF a.cur # <<>> /\ Wide(a.cur) + 1 + Wide(u) <= m THEN [a EXCEPT !.cur = @ \o <<Space>> \o u]
  ELSE LET done == IF a.cur = <<>> THEN a.done ELSE Append(a.done, a.cur)
           ps == Break(u, m)
       IN  [done |-> done \o SubSeq(ps, 1, Len(ps) - 1), cur |-> ps[Len(ps)]]
WrapPara(gs, m) ==
  IF gs = <<>> THEN << <<>> >>
  ELSE LET a == FoldLeft(LAMBDA b, u : Put(b, u, m), [done |-> <<>>, cur |-> <<>>], Words(gs))
       IN  IF a.cur = <<>> THEN a.done ELSE Append(a.done, a.cur)
Wrap(gs, m) == FlattenSeq([i \in 1..Len(Split(gs, Newline)) |-> WrapPara(Split(gs, Newline)[i], m)])

(* ---- pictures ---- *)
Blank(w, h, g) == [y \in 1..h |-> [x \in 1..w |-> g]]
CellsOf(gs) == FlattenSeq([i \in 1..Len(gs) |-> IF Width(gs[i]) = 2 THEN <<gs[i], -1>> ELSE <<gs[i]>>])
\* a line's cells from (x, y) on, inside the given columns and rows; a wide character that does not fit whole is left out
Write(pic, gs, x, y, x2, y2) ==
  LET cs == CellsOf(gs) IN
  IF y < 1 \/ y > y2 THEN pic
  ELSE [pic EXCEPT ![y] = [k \in 1..Len(@) |->
          IF k < x \/ k > x2 \/ k >= x + Len(cs) THEN @[k]
          ELSE IF k = x2 /\ k - x + 2 <= Len(cs) /\ cs[k - x + 2] = -1 THEN @[k]
          ELSE cs[k - x + 1]]]
Block(pic, lines, x, y, x2, y2) ==
  FoldLeft(LAMBDA p, i : Write(p, lines[i], x, y + i - 1, x2, y2), pic, [i \in 1..Len(lines) |-> i])

(* ---- rulers: a tick per cell along the edge, every fifth a big one ---- *)
Tick(i) == IF i % 5 = 0 THEN 8226 ELSE 183
Ruler(across, w, h) ==
  IF w <= 0 \/ h <= 0 THEN <<>>
  ELSE [y \in 1..h |-> [x \in 1..w |-> IF across THEN (IF y = 1 THEN Tick(x) ELSE 0) ELSE (IF x = 1 THEN Tick(y) ELSE 0)]]

(* ---- loading indicators: ten frames in turn, one cell ---- *)
Frames == <<10251, 10265, 10297, 10296, 10300, 10292, 10278, 10279, 10247, 10255>>
Spinner(f, visible, w, h) ==
  IF w <= 0 \/ h <= 0 THEN <<>>
  ELSE [y \in 1..h |-> [x \in 1..w |-> IF visible /\ x = 1 /\ y = 1 THEN Frames[(f % 10) + 1] ELSE 0]]

(* ---- placeholders ---- *)
Variants == <<"default", "size", "text">>
NextVariant(v) == CASE v = "default" -> "size" [] v = "size" -> "text" [] v = "text" -> "default"
Palette == << <<136, 17, 119>>, <<170, 51, 85>>, <<204, 102, 102>>, <<238, 153, 68>>, <<238, 221, 0>>, <<153, 221, 85>>,
              <<68, 221, 136>>, <<34, 204, 187>>, <<0, 187, 204>>, <<0, 153, 204>>, <<51, 102, 187>>, <<102, 51, 153>> >>
\* half the colour of its turn over what lies behind, each channel rounded either way
HalfOver(c, p, under) == \A i \in 1..3 : 2 * c[i] - (p[i] + under[i]) \in {-1, 0, 1}
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
SizeText(w, h) == Digits(w) \o <<32, 120, 32>> \o Digits(h)
Fallback == <<80, 108, 97, 99, 101, 104, 111, 108, 100, 101, 114>>
LabelText(label, id) == IF label # <<>> THEN label ELSE IF id # <<>> THEN <<35>> \o id ELSE Fallback
Lorem == <<
  76,111,114,101,109,32,105,112,115,117,109,32,100,111,108,111,114,32,115,105,116,32,97,109,101,116,44,32,99,111,110,
  115,101,99,116,101,116,117,114,32,97,100,105,112,105,115,99,105,110,103,32,101,108,105,116,46,32,69,116,105,97,109,32,
  102,101,117,103,105,97,116,32,97,99,32,101,108,105,116,32,115,105,116,32,97,109,101,116,32,97,99,99,117,109,115,97,
  110,46,32,83,117,115,112,101,110,100,105,115,115,101,32,98,105,98,101,110,100,117,109,32,110,101,99,32,108,105,98,101,
  114,111,32,113,117,105,115,32,103,114,97,118,105,100,97,46,32,80,104,97,115,101,108,108,117,115,32,105,100,32,101,108,
  101,105,102,101,110,100,32,108,105,103,117,108,97,46,32,78,117,108,108,97,109,32,105,109,112,101,114,100,105,101,116,
  32,115,101,109,32,116,101,108,108,117,115,44,32,115,101,100,32,118,101,104,105,99,117,108,97,32,110,105,115,108,32,
  102,97,117,99,105,98,117,115,32,115,105,116,32,97,109,101,116,46,32,80,114,97,101,115,101,110,116,32,105,97,99,117,
  108,105,115,32,116,101,109,112,111,114,32,117,108,116,114,105,99,105,101,115,46,32,83,101,100,32,108,97,99,105,110,
  105,97,44,32,116,101,108,108,117,115,32,105,100,32,114,117,116,114,117,109,32,108,97,99,105,110,105,97,44,32,115,97,
  112,105,101,110,32,115,97,112,105,101,110,32,99,111,110,103,117,101,32,109,97,117,114,105,115,44,32,115,105,116,32,97,
  109,101,116,32,112,101,108,108,101,110,116,101,115,113,117,101,32,113,117,97,109,32,113,117,97,109,32,118,101,108,32,
  110,105,115,108,46,32,67,117,114,97,98,105,116,117,114,32,118,117,108,112,117,116,97,116,101,32,101,114,97,116,32,112,
  101,108,108,101,110,116,101,115,113,117,101,32,109,97,117,114,105,115,32,112,111,115,117,101,114,101,44,32,110,111,
  110,32,100,105,99,116,117,109,32,114,105,115,117,115,32,109,97,116,116,105,115,46>>
\* the paragraphs come five times, an empty line between them
LoremLines(m, n) == LET p == TLCEval(WrapPara(Lorem, m)) IN
  SubSeq(FlattenSeq([i \in 1..5 |-> IF i = 1 THEN p ELSE << <<>> >> \o p]), 1, Lo(n, 5 * Len(p) + 4))
Longest(lines) == FoldLeft(LAMBDA a, ln : Hi(a, Wide(ln)), 0, lines)
\* pad: top, right, bottom, left
Placeholder(v, text, pad, w, h) ==
  LET cw == w - pad[2] - pad[4]
      ch == h - pad[1] - pad[3]
      pic == Blank(w, h, Space)
      x0 == pad[4] + 1
      y0 == pad[1] + 1
      x2 == pad[4] + cw
      y2 == pad[1] + ch
  IN  IF w <= 0 \/ h <= 0 THEN <<>>
      ELSE IF cw <= 0 \/ ch <= 0 THEN pic
      ELSE CASE v = "size" -> LET s == SizeText(w, h) IN Write(pic, s, x0 + Hi(0, cw - Len(s)) \div 2, y0 + (ch - 1) \div 2, x2, y2)
             [] v = "default" -> LET ls == TLCEval(Wrap(text, cw)) IN
                  Block(pic, ls, x0 + Hi(0, cw - Longest(ls)) \div 2, y0 + Hi(0, ch - Len(ls)) \div 2, x2, y2)
             [] v = "text" -> LET ls == TLCEval(LoremLines(Hi(1, cw - 2), Hi(1, ch - 2))) IN
                  Block(pic, ls, x0 + 1 + Hi(0, Hi(1, cw - 2) - Longest(ls)) \div 2, y0 + 1 + Hi(0, Hi(1, ch - 2) - Len(ls)) \div 2, x2, y2)

(* ---- headers: an icon, the title (and subtitle) in the middle of the rest, room for a clock ---- *)
Icon == 11096
IconW == 8
ClockW == 10
Dash == <<32, 8212, 32>>
TitleText(title, sub) == title \o (IF sub = <<>> THEN <<>> ELSE Dash \o sub)
Header(title, sub, w, h) ==
  LET room == w - IconW - ClockW
      full == TitleText(title, sub)
      text == IF Len(full) <= room THEN full ELSE SubSeq(full, 1, room - 1) \o <<8230>>
      mid == (h - 1) \div 2 + 1
  IN  Write(Write(Blank(w, h, Space), <<Icon>>, 2, mid, IconW, h), text, IconW + 1 + (room - Len(text)) \div 2, mid, IconW + room, h)
\* the subtitle, and the dash before it, are dim
DimFrom(title, sub, w) ==
  LET room == w - IconW - ClockW
      full == TitleText(title, sub)
      n == Lo(Len(full), room)
  IN  [from |-> IconW + 1 + (room - n) \div 2 + Len(title) + 1, to |-> IconW + (room - n) \div 2 + n - (IF Len(full) > room THEN 1 ELSE 0), end |-> IconW + (room - n) \div 2 + n]
=============================================================================
