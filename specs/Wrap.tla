-------------------------------- MODULE Wrap --------------------------------
(* Text layout: splitting text into lines of at most `w` cells.              *)
(* Text is a sequence of <<glyph, style>>; glyph 0 is a blank, -1 a line     *)
(* break, glyphs from 100 on are two cells wide, 5 is the ellipsis.          *)
EXTENDS Integers, Sequences, SequencesExt

SP == 0
NL == -1
ELL == 5
GW(c) == IF c[1] >= 100 THEN 2 ELSE 1
RECURSIVE Width(_)
Width(x) == IF x = <<>> THEN 0 ELSE GW(x[1]) + Width(Tail(x))

RECURSIVE SplitNL(_, _)
SplitNL(x, acc) == IF x = <<>> THEN <<acc>>
                   ELSE IF x[1][1] = NL THEN <<acc>> \o SplitNL(Tail(x), <<>>)
                   ELSE SplitNL(Tail(x), Append(acc, x[1]))
SourceLines(x) == SplitNL(x, <<>>)

\* maximal runs of non-blank glyphs, as <<first, last>> positions
WordStarts(x) == SetToSortSeq({i \in 1..Len(x) : x[i][1] # SP /\ (i = 1 \/ x[i - 1][1] = SP)}, <)
WordEnds(x)   == SetToSortSeq({i \in 1..Len(x) : x[i][1] # SP /\ (i = Len(x) \/ x[i + 1][1] = SP)}, <)

\* break without regard to words: every piece is as long as it can be
RECURSIVE Break(_, _, _)
Break(x, w, acc) ==
  IF x = <<>> THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>)
  ELSE IF acc # <<>> /\ Width(acc) + GW(x[1]) > w THEN <<acc>> \o Break(Tail(x), w, <<x[1]>>)
  ELSE Break(Tail(x), w, Append(acc, x[1]))

RECURSIVE Greedy(_, _, _, _, _, _)
Greedy(x, st, en, k, from, w) ==      \* from = 0: no line is open; otherwise it starts at `from`
  IF k > Len(st) THEN (IF from = 0 THEN <<>> ELSE <<SubSeq(x, from, en[k - 1])>>)
  ELSE IF from # 0 /\ Width(SubSeq(x, from, en[k])) <= w THEN Greedy(x, st, en, k + 1, from, w)
  ELSE LET done == IF from = 0 THEN <<>> ELSE <<SubSeq(x, from, en[k - 1])>>
           word == SubSeq(x, st[k], en[k])
       IN IF Width(word) <= w THEN done \o Greedy(x, st, en, k + 1, st[k], w)
          ELSE done \o Break(word, w, <<>>) \o Greedy(x, st, en, k + 1, 0, w)

WrapLine(x, w) ==
  IF Width(x) <= w THEN <<x>>
  ELSE LET r == Greedy(x, WordStarts(x), WordEnds(x), 1, 0, w) IN IF r = <<>> THEN <<<<>>>> ELSE r

FoldLine(x, w) == IF x = <<>> THEN <<<<>>>> ELSE Break(x, w, <<>>)

\* the first n cells; a wide glyph cut in half leaves a blank
RECURSIVE Clip(_, _)
Clip(x, n) == IF x = <<>> \/ n = 0 THEN <<>>
              ELSE IF GW(x[1]) <= n THEN <<x[1]>> \o Clip(Tail(x), n - GW(x[1]))
              ELSE <<<<SP, x[1][2]>>>>

Ellipsize(x, w) ==
  IF Width(x) <= w THEN x
  ELSE IF w = 1 THEN <<<<ELL, x[Len(x)][2]>>>>
  ELSE LET c == Clip(x, w - 1) IN Append(c, <<ELL, c[Len(c)][2]>>)

LayoutLine(x, w, mode, over) ==
  IF mode = "wrap"
  THEN LET r == WrapLine(x, w) IN
       IF over = "ellipsis" THEN [i \in 1..Len(r) |-> Ellipsize(r[i], w)] ELSE r
  ELSE IF over = "fold" THEN FoldLine(x, w)
  ELSE IF over = "clip" THEN <<Clip(x, w)>>
  ELSE <<Ellipsize(x, w)>>

\* result: sequence of [t |-> line, e |-> 1 iff it ends a source line]
Tag(r) == [i \in 1..Len(r) |-> [t |-> r[i], e |-> IF i = Len(r) THEN 1 ELSE 0]]
Layout(x, w, mode, over) ==
  IF w = 0 THEN <<[t |-> <<>>, e |-> 1]>>
  ELSE LET src == SourceLines(x) IN FlattenSeq([i \in 1..Len(src) |-> Tag(LayoutLine(src[i], w, mode, over))])

Ink(x) == SelectSeq(x, LAMBDA c : c[1] # SP /\ c[1] # NL)
=============================================================================
