----------------------------- MODULE MC_Canvas -----------------------------
(* Small surface, all sequences of draws, clips and flushes; the flush of the *)
(* specification redraws exactly the cells that differ from the last frame.   *)
EXTENDS Canvas, FiniteSets
CONSTANTS MW, MH, MaxOps, Glyphs
VARIABLES term, prev, n
mvars == <<cvars, term, prev, n>>
Paints == {<<1, 0, 64, 0>>, <<0, 1, 128, 0>>, <<0, 2, 0, 1>>}
Init == W = MW /\ H = MH /\ cells = BlankGrid /\ clips = <<>> /\ n = 0 /\ prev = <<>>
        /\ term = [scr |-> [r \in 0..(MH-1) |-> [q \in 0..(MW-1) |-> <<7, 1, 0, 99, 98, 1>>]], cur |-> <<0, 0>>, pen |-> <<97, 96, 2>>, bad |-> FALSE]
Draw == \E px \in -1..MW : \E py \in 0..(MH-1) : \E g \in Glyphs : \E p \in Paints : Put(px, py, <<g>>, p)
Rects == {<<a, 0, b, 1>> : a \in 0..1, b \in 1..2}
\* redraw of the cells that differ from the last flushed frame (all of them when there is none)
RECURSIVE Tokens(_, _, _)
Tokens(r, q, acc) ==
  IF r >= H THEN acc
  ELSE IF q >= W THEN Tokens(r + 1, 0, acc)
  ELSE LET c == cells[r][q] IN
       IF c[3] = 1 \/ (prev # <<>> /\ prev[1][r][q] = c) THEN Tokens(r, q + 1, acc)
       ELSE Tokens(r, q + 1, acc \o <<<<0, q, r>>, <<1, 0>>, <<2, c[4]>>, <<3, c[5]>>>> \o (IF c[6] = 1 THEN <<<<4, 1>>>> ELSE <<>>) \o <<<<5, c[1]>>>>)
Flush == /\ term' = TermRun(term, Tokens(0, 0, <<>>), 1) /\ prev' = <<cells>>
         /\ cells' = BlankGrid /\ clips' = <<>> /\ UNCHANGED <<W, H>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ (Draw \/ (\E r \in Rects : Push(r)) \/ Pop) /\ UNCHANGED <<term, prev>>
           \/ Flush
Spec == Init /\ [][Next]_mvars
\* after each flush the terminal shows the frame that was flushed
TerminalFollows == prev # <<>> => ShowsGrid(term, prev[1])
=============================================================================
