------------------------------- MODULE Canvas -------------------------------
(* The drawing surface and the terminal behind it.                           *)
(* A cell is <<glyph, width, cont, fg, bg, attrs>>; glyph ids >= 100 are two *)
(* cells wide, glyph 0 is the blank; colour 0 means "terminal default";      *)
(* attrs is a bit set.                                                       *)
(* Paint is <<fg, bgkind, bg, attrs>>: bgkind 0 opaque, 1 half transparent,  *)
(* 2 fully transparent (bg 0 = none).                                        *)
EXTENDS Integers, Sequences

Wide(g) == g >= 100
GW(g) == IF Wide(g) THEN 2 ELSE 1
Blank == <<0, 1, 0, 0, 0, 0>>

\* a rectangle <<x, y, w, h>>
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
In(r, px, py) == px >= r[1] /\ px < r[1] + r[3] /\ py >= r[2] /\ py < r[2] + r[4]
Inter(a, b) == LET x1 == Hi(a[1], b[1])  y1 == Hi(a[2], b[2])
                   x2 == Lo(a[1] + a[3], b[1] + b[3])  y2 == Lo(a[2] + a[4], b[2] + b[4])
               IN IF x2 > x1 /\ y2 > y1 THEN <<x1, y1, x2 - x1, y2 - y1>> ELSE <<0, 0, 0, 0>>

VARIABLES W, H, cells, clips
cvars == <<W, H, cells, clips>>
Cols == 0..(W - 1)
Rows == 0..(H - 1)
Full == <<0, 0, W, H>>
Clip == IF clips = <<>> THEN Full ELSE clips[Len(clips)]

\* ---- painting one row (a function from columns to cells) ----
\* bgkind 0 opaque, 1 half, 2 transparent
Under(p, old) == IF p[2] = 2 \/ p[3] = 0 THEN old ELSE IF p[2] = 0 THEN p[3] ELSE (p[3] + old) \div 2
\* a translucent blank only tints: text stays
Tints(g, p) == g = 0 /\ p[1] = 0 /\ p[4] = 0 /\ p[2] = 1 /\ p[3] # 0
Erased(c) == <<0, 1, 0, c[4], c[5], c[6]>>
\* a wide glyph straddling the boundary left of column b is blanked
Split(row, b) == IF b > 0 /\ b < W /\ row[b][3] = 1
                 THEN [row EXCEPT ![b - 1] = Erased(@), ![b] = Erased(@)] ELSE row
PutRow(row, px, g, p) ==
  LET w == GW(g) IN
  IF Tints(g, p) THEN [row EXCEPT ![px] = [@ EXCEPT ![5] = Under(p, @)]]
  ELSE LET r1 == Split(row, px)
           r2 == Split(r1, px + w)
       IN [q \in DOMAIN row |->
             IF q = px THEN <<g, w, 0, p[1], Under(p, row[q][5]), p[4]>>
             ELSE IF q > px /\ q < px + w THEN <<0, 0, 1, p[1], Under(p, row[q][5]), p[4]>>
             ELSE r2[q]]
\* a glyph is drawn whole inside the clip, or not at all
Fits(px, py, g) == LET w == GW(g) IN \A q \in px..(px + w - 1) : In(Clip, q, py) /\ In(Full, q, py)
RECURSIVE PutText(_, _, _, _, _)
PutText(row, px, py, gs, p) ==
  IF gs = <<>> THEN row
  ELSE PutText(IF Fits(px, py, Head(gs)) THEN PutRow(row, px, Head(gs), p) ELSE row,
               px + GW(Head(gs)), py, Tail(gs), p)
RECURSIVE Len2(_)
Len2(gs) == IF gs = <<>> THEN 0 ELSE GW(Head(gs)) + Len2(Tail(gs))
RECURSIVE PutRuns(_, _, _, _)
\* runs: <<<<glyphs, paint>>, ...>>
PutRuns(row, px, py, rs) == IF rs = <<>> THEN row
  ELSE PutRuns(PutText(row, px, py, Head(rs)[1], Head(rs)[2]), px + Len2(Head(rs)[1]), py, Tail(rs))

Put(px, py, gs, p) ==
  /\ cells' = IF py \in Rows THEN [cells EXCEPT ![py] = PutText(@, px, py, gs, p)] ELSE cells
  /\ UNCHANGED <<W, H, clips>>
Strips(px, py, ss) ==
  /\ cells' = [r \in Rows |-> IF r >= py /\ r < py + Len(ss) THEN PutRuns(cells[r], px, r, ss[r - py + 1]) ELSE cells[r]]
  /\ UNCHANGED <<W, H, clips>>
Push(r) == clips' = Append(clips, Inter(r, Clip)) /\ UNCHANGED <<W, H, cells>>
Pop == clips' = (IF clips = <<>> THEN clips ELSE SubSeq(clips, 1, Len(clips) - 1)) /\ UNCHANGED <<W, H, cells>>
BlankGrid == [r \in Rows |-> [q \in Cols |-> Blank]]
Clear == cells' = BlankGrid /\ clips' = <<>> /\ UNCHANGED <<W, H>>

\* ---- guarantees ----
\* wide glyphs are always whole
WellFormed == \A r \in Rows : \A q \in Cols :
   /\ (cells[r][q][3] = 1 => q > 0 /\ cells[r][q - 1][2] = 2 /\ cells[r][q - 1][3] = 0)
   /\ (cells[r][q][2] = 2 => q + 1 < W /\ cells[r][q + 1][3] = 1)
\* the clip only ever narrows as it is pushed, and stays on the surface
ClipsNest == \A i \in 1..Len(clips) : LET o == IF i = 1 THEN Full ELSE clips[i - 1]  k == clips[i] IN
   k[3] = 0 \/ (k[1] >= o[1] /\ k[2] >= o[2] /\ k[1] + k[3] <= o[1] + o[3] /\ k[2] + k[4] <= o[2] + o[4])
\* drawing changes nothing outside the clip, except that the other half of a wide glyph cut at its edge goes blank
ClipRespected == [][clips' = clips /\ cells' # BlankGrid =>
   \A r \in Rows : \A q \in Cols :
      cells'[r][q] = cells[r][q] \/ In(Clip, q, r)
      \/ (cells'[r][q] = Erased(cells[r][q]) /\ (cells[r][q][3] = 1 \/ cells[r][q][2] = 2))]_cvars

\* ---- the terminal ----
\* pen = <<fg, bg, attrs>>, cur = <<column, row>>; a cursor parked past the last column wraps on the next glyph
TermErase(row, q) == IF row[q][3] = 1 THEN [row EXCEPT ![q - 1] = Erased(@), ![q] = Erased(@)]
                     ELSE IF row[q][2] = 2 THEN [row EXCEPT ![q] = Erased(@), ![q + 1] = Erased(@)] ELSE row
\* T = [scr, cur, pen, bad]
TermGlyph(T, g) ==
  LET wrap == T.cur[1] + GW(g) > W
      cx == IF wrap THEN 0 ELSE T.cur[1]
      cy == IF wrap THEN T.cur[2] + 1 ELSE T.cur[2]
      w == GW(g)
  IN IF cy >= H \/ (wrap /\ T.cur[1] < W) THEN [T EXCEPT !.bad = TRUE]
     ELSE LET r1 == TermErase(T.scr[cy], cx)
              r2 == IF w = 2 THEN TermErase(r1, cx + 1) ELSE r1
              r3 == [q \in Cols |-> IF q = cx THEN <<g, w, 0, T.pen[1], T.pen[2], T.pen[3]>>
                                    ELSE IF q > cx /\ q < cx + w THEN <<0, 0, 1, T.pen[1], T.pen[2], T.pen[3]>>
                                    ELSE r2[q]]
          IN [T EXCEPT !.scr = [@ EXCEPT ![cy] = r3], !.cur = <<cx + w, cy>>]
\* tokens: <<0,x,y>> move, <<1,0>> reset pen, <<2,fg>>, <<3,bg>>, <<4,attr bit>>, <<5,glyph>>
TermTok(T, k) == CASE k[1] = 0 -> [T EXCEPT !.cur = <<k[2], k[3]>>]
                   [] k[1] = 1 -> [T EXCEPT !.pen = <<0, 0, 0>>]
                   [] k[1] = 2 -> [T EXCEPT !.pen[1] = k[2]]
                   [] k[1] = 3 -> [T EXCEPT !.pen[2] = k[2]]
                   [] k[1] = 4 -> [T EXCEPT !.pen[3] = IF (@ \div k[2]) % 2 = 1 THEN @ ELSE @ + k[2]]
                   [] k[1] = 5 -> TermGlyph(T, k[2])
                   [] OTHER -> [T EXCEPT !.bad = TRUE]
RECURSIVE TermRun(_, _, _)
TermRun(T, ks, i) == IF i > Len(ks) THEN T ELSE TermRun(TermTok(T, ks[i]), ks, i + 1)
\* the screen shows exactly the grid (the second half of a wide glyph has no style of its own)
ShowsGrid(T, gr) == ~T.bad /\ \A r \in Rows : \A q \in Cols :
   IF gr[r][q][3] = 1 THEN T.scr[r][q][3] = 1 ELSE T.scr[r][q] = gr[r][q]
Shows(T) == ShowsGrid(T, cells)
=============================================================================
