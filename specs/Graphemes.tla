----------------------------- MODULE Graphemes -----------------------------
(* Extended grapheme clusters (UAX #29) over the alphabet the drivers use.   *)
(* Text is a sequence of code points.                                        *)
EXTENDS Integers, Sequences, SequencesExt

ExtChars  == {769, 776, 65039}             \* combining acute, diaeresis, VS16
ZwjChars  == {8205}
RiChars   == {127462, 127463}              \* regional indicators A, B
PictChars == {128105, 128187}              \* woman, laptop

Class(c) == IF c \in ExtChars THEN "ext"
            ELSE IF c \in ZwjChars THEN "zwj"
            ELSE IF c \in RiChars THEN "ri"
            ELSE IF c \in PictChars THEN "pict"
            ELSE "other"

\* number of consecutive "ri" code points ending at position i
RECURSIVE RiRun(_, _)
RiRun(s, i) == IF i = 0 \/ Class(s[i]) # "ri" THEN 0 ELSE 1 + RiRun(s, i - 1)

\* position i ends "pict ext*"
RECURSIVE PictExt(_, _)
PictExt(s, i) == IF i = 0 THEN FALSE
                 ELSE IF Class(s[i]) = "pict" THEN TRUE
                 ELSE IF Class(s[i]) = "ext" THEN PictExt(s, i - 1)
                 ELSE FALSE

\* is there a cluster boundary in front of position i (1-based)?
Boundary(s, i) ==
  IF i = 1 THEN TRUE
  ELSE LET c == Class(s[i])  p == Class(s[i - 1]) IN
    IF c \in {"ext", "zwj"} THEN FALSE
    ELSE IF c = "pict" /\ p = "zwj" /\ PictExt(s, i - 2) THEN FALSE
    ELSE IF c = "ri" /\ p = "ri" /\ RiRun(s, i - 1) % 2 = 1 THEN FALSE
    ELSE TRUE

Starts(s) == SetToSortSeq({i \in 1..Len(s) : Boundary(s, i)}, <)

GraphemeSeq(s) ==
  LET st == Starts(s) IN
  [k \in 1..Len(st) |-> SubSeq(s, st[k], IF k = Len(st) THEN Len(s) ELSE st[k + 1] - 1)]

GraphemeCount(s) == Len(Starts(s))

\* number of code points in the first k clusters
PrefixLen(s, k) == LET st == Starts(s) IN IF k >= Len(st) THEN Len(s) ELSE st[k + 1] - 1
=============================================================================
