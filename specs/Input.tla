------------------------------- MODULE Input -------------------------------
(* The single-line text input: a sequence of code points edited through a    *)
(* cursor that counts grapheme clusters.                                     *)
EXTENDS Graphemes

VARIABLES value, cursor, focused, disabled, placeholder

vars == <<value, cursor, focused, disabled, placeholder>>

Active == ~disabled
Min2(a, b) == IF a < b THEN a ELSE b

\* number of clusters that start before code point offset n (0-based count)
ClustersBefore(s, n) == Len(SelectSeq(Starts(s), LAMBDA i : i <= n))

InsertedValue(ch) ==
  LET p == PrefixLen(value, cursor) IN SubSeq(value, 1, p) \o <<ch>> \o SubSeq(value, p + 1, Len(value))

Frame == UNCHANGED <<focused, disabled, placeholder>>

Type(ch) ==
  /\ IF Active
     THEN /\ value' = InsertedValue(ch)
          /\ cursor' = ClustersBefore(InsertedValue(ch), PrefixLen(value, cursor) + 1)
     ELSE UNCHANGED <<value, cursor>>
  /\ Frame

RemoveCluster(k) ==   \* drop the k-th cluster (1-based)
  LET a == PrefixLen(value, k - 1)  b == PrefixLen(value, k) IN
  SubSeq(value, 1, a) \o SubSeq(value, b + 1, Len(value))

Backspace ==
  /\ IF Active /\ cursor > 0
     THEN value' = RemoveCluster(cursor) /\ cursor' = cursor - 1
     ELSE UNCHANGED <<value, cursor>>
  /\ Frame

Delete ==
  /\ IF Active /\ cursor < GraphemeCount(value)
     THEN value' = RemoveCluster(cursor + 1) /\ cursor' = cursor
     ELSE UNCHANGED <<value, cursor>>
  /\ Frame

MoveTo(k) == /\ cursor' = IF Active THEN k ELSE cursor
             /\ UNCHANGED value /\ Frame
Left  == MoveTo(IF cursor > 0 THEN cursor - 1 ELSE 0)
Right == MoveTo(Min2(cursor + 1, GraphemeCount(value)))
Home  == MoveTo(0)
End   == MoveTo(GraphemeCount(value))
OtherKey == UNCHANGED vars

SetValue(v)  == value' = v /\ cursor' = Min2(cursor, GraphemeCount(v)) /\ Frame
SetCursor(k) == cursor' = Min2(k, GraphemeCount(value)) /\ UNCHANGED value /\ Frame
SetFocus(b)    == focused' = b /\ UNCHANGED <<value, cursor, disabled, placeholder>>
SetDisabled(b) == disabled' = b /\ UNCHANGED <<value, cursor, focused, placeholder>>
\* placeholder is a sequence of at most one text
SetPlaceholder(p) == placeholder' = p /\ UNCHANGED <<value, cursor, focused, disabled>>

\* What the user sees: <<cluster, highlighted>> per cell group; trailing blanks dropped.
Blank == 32
RECURSIVE TrimRow(_)
TrimRow(r) == IF r = <<>> THEN r
              ELSE IF r[Len(r)] = [g |-> <<Blank>>, h |-> 0] THEN TrimRow(SubSeq(r, 1, Len(r) - 1)) ELSE r
Cells(s, hl) == LET g == GraphemeSeq(s) IN [k \in 1..Len(g) |-> [g |-> g[k], h |-> IF k = hl THEN 1 ELSE 0]]
CursorCell == <<[g |-> <<Blank>>, h |-> 1]>>
Row ==
  IF value = <<>> THEN
    IF placeholder # <<>> /\ placeholder[1] # <<>>
    THEN TrimRow(Cells(placeholder[1], IF focused THEN 1 ELSE 0))
    ELSE IF focused THEN CursorCell ELSE <<>>
  ELSE IF ~focused THEN TrimRow(Cells(value, 0))
  ELSE IF cursor = GraphemeCount(value) THEN Cells(value, 0) \o CursorCell
  ELSE TrimRow(Cells(value, cursor + 1))

\* Properties of the design
CursorInRange == cursor \in 0..GraphemeCount(value)
CursorOnBoundary == cursor < GraphemeCount(value) => Boundary(value, PrefixLen(value, cursor) + 1)
\* an inactive widget never changes its text or cursor through keys; moves never change text; one key
\* changes the text by one code point inserted or one whole cluster removed
OneEdit == [][value' = value
             \/ Len(value') = Len(value) + 1
             \/ \E k \in 1..GraphemeCount(value) : value' = RemoveCluster(k)]_vars
=============================================================================
