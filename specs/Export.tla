------------------------------- MODULE Export -------------------------------
(* Exports of a canvas: SVG, text with ANSI escapes, plain text.  Each is a drawing of its own kind   *)
(* with its own painter; painting an export must give back the canvas.                               *)
(* A cell: [s |-> code points (<<>> in the second half of a wide character), k |-> 1 for that half,   *)
(* fg, bg |-> colour + 1 or 0, at |-> 1 bold + 2 italic + 4 underline + 8 strike + 16 dim + 32 reverse]*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Has(at, b) == (at \div b) % 2 = 1
Svgable(at) == at % 16                     \* dim and reverse have no SVG form
Cover(r, x) == x \in (r.x + 1)..(r.x + r.n)
RECURSIVE Cat(_, _, _)
Cat(row, a, b) == IF a > b THEN <<>> ELSE row[a].s \o Cat(row, a + 1, b)
(* a text element is anchored at a character, holds whole characters, and names their row and style *)
TextFits(cells, t, W, H) ==
    /\ t.y \in 0..(H - 1) /\ t.x >= 0 /\ t.n >= 1 /\ t.x + t.n <= W
    /\ t.line = t.y
    /\ LET row == cells[t.y + 1]
       IN  /\ row[t.x + 1].k = 0
           /\ t.x + t.n < W => row[t.x + t.n + 1].k = 0
           /\ Cat(row, t.x + 1, t.x + t.n) = t.s
           /\ \A x \in (t.x + 1)..(t.x + t.n) : row[x].k = 1 \/ (row[x].fg = t.fg /\ Svgable(row[x].at) = t.at)
(* nothing to see in a cell: a space without lines through it *)
Unseen(c) == c.k = 1 \/ (c.s = <<32>> /\ ~Has(c.at, 4) /\ ~Has(c.at, 8))
SvgShows(cells, d, W, H) ==
    /\ \A i \in 1..Len(d.texts) : TextFits(cells, d.texts[i], W, H)
    /\ \A y \in 1..H : \A x \in 1..W :
         LET on == {i \in 1..Len(d.texts) : d.texts[i].y = y - 1 /\ Cover(d.texts[i], x)}
             under == {i \in 1..Len(d.rects) : d.rects[i].y = y - 1 /\ x \in (d.rects[i].x + 1)..(d.rects[i].x + d.rects[i].w)}
             paper == IF under = {} THEN 0 ELSE d.rects[CHOOSE i \in under : \A j \in under : j <= i].c
         IN  /\ Cardinality(on) <= 1
             /\ on = {} => Unseen(cells[y][x])
             /\ paper = cells[y][x].bg
    /\ \A i \in 1..Len(d.rects) : d.rects[i].h = 1 /\ d.rects[i].x >= 0
(* the frame: the view holds exactly the canvas, and every row's clip its row *)
SvgFrame(d, W, H) ==
    /\ d.bad = 0
    /\ d.view = <<W, H>>
    /\ \A y \in 0..(H - 1) : \E i \in 1..Len(d.clips) :
         LET c == d.clips[i] IN c.id = y /\ c.x = 0 /\ c.y = y /\ c.w = W /\ c.h = 1
    /\ Cardinality({d.clips[i].id : i \in 1..Len(d.clips)}) = Len(d.clips)
    /\ \A i \in 1..Len(d.clips) : d.clips[i].id = -1 => d.clips[i] = [id |-> -1, x |-> 0, y |-> 0, w |-> W, h |-> H]

(* the ANSI form: a terminal line interpreting escapes; the second half of a wide character is a space *)
Ansi0 == [fg |-> 0, bg |-> 0, at |-> 0, out |-> <<>>, ok |-> TRUE]
AnsiStep(s, k) == CASE k[1] = 0 -> [s EXCEPT !.fg = 0, !.bg = 0, !.at = 0]
                    [] k[1] = 1 -> [s EXCEPT !.at = IF Has(@, k[2]) THEN @ ELSE @ + k[2]]
                    [] k[1] = 2 -> [s EXCEPT !.fg = k[2]]
                    [] k[1] = 3 -> [s EXCEPT !.bg = k[2]]
                    [] k[1] = 4 -> [s EXCEPT !.out = Append(@, <<k[2], s.fg, s.bg, s.at>>)]
                    [] OTHER -> [s EXCEPT !.ok = FALSE]
AnsiLine(ks) == FoldLeft(AnsiStep, Ansi0, ks)
Glyphs(c) == IF c.k = 1 THEN <<32>> ELSE c.s
Styled(c) == [i \in 1..Len(Glyphs(c)) |-> <<Glyphs(c)[i], c.fg, c.bg, c.at>>]
StyledRow(row) == FoldLeft(LAMBDA acc, c : acc \o Styled(c), <<>>, row)
AnsiShows(cells, lines, H) ==
    /\ Len(lines) = H
    /\ \A y \in 1..H : LET e == AnsiLine(lines[y])
                       IN  e.ok /\ e.out = StyledRow(cells[y]) /\ e.fg = 0 /\ e.bg = 0 /\ e.at = 0
(* plain text *)
PlainRow(row) == FoldLeft(LAMBDA acc, c : acc \o Glyphs(c), <<>>, row)
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
PlainShows(cells, rows, snap, H) ==
    /\ Len(rows) = H /\ Len(snap) = H
    /\ \A y \in 1..H : rows[y] = PlainRow(cells[y]) /\ snap[y] = Trim(PlainRow(cells[y]))
=============================================================================
