-------------------------------- MODULE Box --------------------------------
(* A text box: what a Static draws in the region it is given, and which of   *)
(* its cells act as links.                                                   *)
(*                                                                           *)
(* A cell is <<glyph, half, fg, bg, attrs, link>> as in Strip; colours are   *)
(* labels, 0 = unset; attrs is a bit set (bold 1, dim 2, italic 4,           *)
(* underline 8, strike 16, reverse 32).  ANY in a colour or in attrs: not    *)
(* specified.                                                                *)
EXTENDS Integers, Sequences, SequencesExt, TLC
ANY == -9
ELL == 5

\* the glyphs of every kind of edge, row by row, and where each is painted:
\* 0 on the box's own background, 1 on the background around it,
\* 2 / 3 reversed, on the background around it / on its own
Glyphs == [
    blank |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    round |-> <<-10581, -10472, -10582, -10474, 0, -10474, -10584, -10472, -10583>>,
    solid |-> <<-10484, -10472, -10488, -10474, 0, -10474, -10492, -10472, -10496>>,
    double |-> <<-10556, -10552, -10559, -10553, 0, -10553, -10562, -10552, -10565>>,
    heavy |-> <<-10487, -10473, -10491, -10475, 0, -10475, -10495, -10473, -10499>>,
    ascii |-> <<-1043, -1045, -1043, -1124, 0, -1124, -1043, -1045, -1043>>,
    dashed |-> <<-10487, -10549, -10491, -10551, 0, -10551, -10495, -10549, -10499>>,
    thick |-> <<-10608, -10600, -10608, -10608, 0, -10608, -10608, -10604, -10608>>,
    tall |-> <<-10610, -10620, -10614, -10610, 0, -10614, -10610, -10601, -10614>>,
    panel |-> <<-10610, -10608, -10614, -10610, 0, -10614, -10610, -10601, -10614>>,
    wide |-> <<-10601, -10601, -10601, -10614, 0, -10610, -10620, -10620, -10620>>,
    inner |-> <<-10623, -10604, -10622, -10616, 0, -10612, -10629, -10600, -10624>>,
    outer |-> <<-10627, -10600, -10628, -10612, 0, -10616, -10625, -10604, -10631>>,
    block |-> <<-10600, -10600, -10600, -10608, 0, -10608, -10604, -10604, -10604>>,
    hkey |-> <<-10620, -10620, -10620, 0, 0, 0, -10601, -10601, -10601>>,
    vkey |-> <<-10615, 0, -10621, -10615, 0, -10621, -10615, 0, -10621>>]
Zones == [
    blank |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    round |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    solid |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    double |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    heavy |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    ascii |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    dashed |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    thick |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    tall |-> <<2, 0, 1, 2, 0, 1, 2, 0, 1>>,
    panel |-> <<2, 0, 1, 2, 0, 1, 2, 0, 1>>,
    wide |-> <<1, 1, 1, 0, 1, 3, 1, 1, 1>>,
    inner |-> <<1, 1, 1, 1, 1, 1, 1, 1, 1>>,
    outer |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    block |-> <<1, 1, 1, 0, 0, 0, 1, 1, 1>>,
    hkey |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
    vkey |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>]

VARIABLES cfg, hover, pending
bvars == <<cfg, hover, pending>>
S == INSTANCE Strip WITH strip <- cfg
W == INSTANCE Wrap

Or(a, b) == S!Or(a, b)
Hi(a, b) == IF a > b THEN a ELSE b
Sub(a, b) == Hi(a - b, 0)
First(a, b) == IF a # 0 THEN a ELSE b
Rep(x, n) == [i \in 1..n |-> x]

\* ---- geometry: which edges exist.  edges are <<top, right, bottom, left>> ----
Shown(k) == k \notin {"none", "hidden"}
Edge(ks, i) == Shown(ks[i]) /\ ks[i] # (IF i \in {1, 3} THEN "vkey" ELSE "hkey")
N(b) == IF b THEN 1 ELSE 0
BT(c) == N(Edge(c.bk, 1))
BR(c) == N(Edge(c.bk, 2))
BB(c) == N(Edge(c.bk, 3))
BL(c) == N(Edge(c.bk, 4))
HasBorder(c) == BT(c) + BR(c) + BB(c) + BL(c) > 0
Sides(c) == BL(c) + BR(c) > 0
\* a title without a top edge takes the first row between the side edges, a subtitle the last one
TopLabel(c) == HasBorder(c) /\ BT(c) = 0 /\ Sides(c) /\ c.title # <<>>
BotLabel(c) == HasBorder(c) /\ BB(c) = 0 /\ Sides(c) /\ c.sub # <<>>
InnerW(c) == Sub(Sub(c.w, BL(c) + BR(c)), c.pad[2] + c.pad[4])
InnerH(c) == Sub(Sub(Sub(c.h, BT(c) + BB(c)), c.pad[1] + c.pad[3]), N(TopLabel(c)) + N(BotLabel(c)))
FirstRow(c) == BT(c) + c.pad[1] + N(TopLabel(c))

\* ---- colours ----
Bg(c) == First(c.bg, c.inh)
PadCell(c) == <<0, Bg(c), 0>>                  \* fg, bg, attrs of plain padding
TextPad(c) == <<c.color, Bg(c), 0>>            \* of padding inside the text area
Glyph(c, kind, at, col) ==
  LET g == Glyphs[kind][at]  z == Zones[kind][at] IN
  <<g, 0, col, IF z \in {0, 3} THEN Bg(c) ELSE c.inh, IF z \in {2, 3} THEN 32 ELSE 0, 0>>

\* ---- labels ----
Cells(gs, st) == FlattenSeq([i \in 1..Len(gs) |->
    IF gs[i] >= 100 THEN <<<<gs[i], 1, st[1], st[2], st[3], 0>>, <<gs[i], 2, st[1], st[2], st[3], 0>>>>
    ELSE <<<<gs[i], 0, st[1], st[2], st[3], 0>>>>])
LabelStyle(c, col, edge, bg, at) == <<First(col, First(c.bc[edge], c.color)), First(bg, c.bg), at>>
Title(c) == Cells(c.title, LabelStyle(c, c.tcol, 1, c.tbg, c.tat))
Subtitle(c) == Cells(c.sub, LabelStyle(c, c.scol, 3, c.sbg, c.sat))
\* a label in a row of `fill`: at least one fill on either side; with `gap` also a blank in the label's style
InRow(lab, fill, n, al, gap) ==
  LET room == Sub(n, 2)
      sp == IF gap THEN <<<<0, 0, lab[1][3], lab[1][4], lab[1][5], 0>>>> ELSE <<>>
      len == Len(lab) + 2 * Len(sp)
  IN IF len > room
     THEN LET cut == S!CropOf(lab, 0, Sub(room, 1 + 2 * Len(sp)))
              e == IF cut = <<>> THEN <<ELL, 0, ANY, ANY, ANY, 0>> ELSE LET z == cut[Len(cut)] IN <<ELL, 0, z[3], z[4], z[5], 0>>
              used == 2 + Len(cut) + 2 * Len(sp)
          IN <<fill>> \o sp \o cut \o <<e>> \o sp \o Rep(fill, Sub(n, used))
     ELSE LET gapw == n - len
              left == IF al = "left" THEN 1 ELSE IF al = "right" THEN gapw - 1 ELSE gapw \div 2
          IN Rep(fill, left) \o sp \o lab \o sp \o Rep(fill, gapw - left)

\* ---- text ----
\* a cell of text; `hv` is the link the pointer is on
TextCell(c, hv, g, half, lk) ==
  IF lk = 0 THEN <<g, half, c.color, Bg(c), c.at, 0>>
  ELSE LET on == lk = hv
           bg == First(IF on THEN First(c.lbgh, c.lbg) ELSE c.lbg, Bg(c))
           fg == IF on THEN First(c.lcolh, c.lcol) ELSE c.lcol
           la == IF on THEN Or(c.lat, c.lath) ELSE Or(c.lat, 8)
           base == IF (c.at \div 8) % 2 = 1 THEN c.at - 8 ELSE c.at
       IN <<g, half, IF fg # 0 THEN fg ELSE IF bg # 0 THEN ANY ELSE c.color, bg, Or(base, la), IF g = ELL THEN 0 - lk ELSE lk>>
TextLine(c, hv, x) == FlattenSeq([i \in 1..Len(x) |->
    IF x[i][1] >= 100 THEN <<TextCell(c, hv, x[i][1], 1, x[i][2]), TextCell(c, hv, x[i][1], 2, x[i][2])>>
    ELSE <<TextCell(c, hv, x[i][1], 0, x[i][2])>>])
Lines(c, hv) ==
  IF InnerW(c) = 0 THEN <<>>
  ELSE LET r == TLCEval(W!Layout(c.text, Hi(Sub(InnerW(c), 2 * c.lp), 1), c.wrap, c.over))
           pad == S!Pad(c.lp, <<c.color, Bg(c), c.at>>)
       IN [i \in 1..Len(r) |-> [t |-> pad \o TextLine(c, hv, r[i].t) \o pad, e |-> r[i].e]]
MaxLen(ls) == FoldLeft(LAMBDA a, x : Hi(a, Len(x.t)), 0, ls)
\* the text area: the block of lines is placed by content-align, the lines in it by text-align
TextRows(c, hv) ==
  LET ls == TLCEval(Lines(c, hv))
      n == InnerW(c)   h == InnerH(c)
      block == IF MaxLen(ls) < n THEN MaxLen(ls) ELSE n
      above == IF c.va = "top" THEN 0 ELSE IF c.va = "bottom" THEN Sub(h, Len(ls)) ELSE Sub(h, Len(ls)) \div 2
      left == IF c.ha = "left" THEN 0 ELSE IF c.ha = "right" THEN n - block ELSE (n - block) \div 2
      lw == IF c.ha = "left" /\ c.va = "top" THEN n ELSE block
      p == TextPad(c)
      One(ln) == S!AdjustOf(S!Pad(left, p) \o
                   (IF c.ta = "justify" /\ ln.e = 0 THEN S!JustifyOf(ln.t, lw, p)
                    ELSE S!AlignOf(ln.t, CASE c.ta \in {"start", "left", "justify"} -> "left" [] c.ta \in {"end", "right"} -> "right" [] OTHER -> "center", lw, p)), n, p)
  IN [i \in 1..h |-> IF i > above /\ i - above <= Len(ls) THEN One(ls[i - above]) ELSE S!Pad(n, p)]

\* ---- a row of the box ----
Fill(c, kind, at, col, n) == Rep(Glyph(c, kind, at, col), n)
EdgeCol(c, i) == First(c.bc[i], c.color)
EdgeRow(c, row, lab, al) ==        \* row 0 top, 6 bottom
  LET i == IF row = 0 THEN 1 ELSE 3
      k == c.bk[i]   col == EdgeCol(c, i)
      lft == Glyph(c, k, row + 1, col)  fil == Glyph(c, k, row + 2, col)  rgt == Glyph(c, k, row + 3, col)
  IN IF BL(c) = 1 /\ BR(c) = 1
     THEN IF c.w = 1 THEN <<lft>>
          ELSE IF c.w = 2 THEN <<lft, rgt>>
          ELSE <<lft>> \o (IF lab = <<>> THEN Rep(fil, c.w - 2) ELSE InRow(lab, fil, c.w - 2, al, TRUE)) \o <<rgt>>
     ELSE IF lab = <<>> THEN Rep(fil, c.w) ELSE InRow(lab, fil, c.w, al, FALSE)
LeftEdge(c) == IF BL(c) = 1 THEN <<Glyph(c, c.bk[4], 4, EdgeCol(c, 4))>> ELSE <<>>
RightEdge(c) == IF BR(c) = 1 THEN <<Glyph(c, c.bk[2], 6, EdgeCol(c, 2))>> ELSE <<>>
MidFill(c) == IF Shown(c.bk[1]) THEN Glyph(c, c.bk[1], 5, EdgeCol(c, 1)) ELSE <<0, 0, EdgeCol(c, 1), Bg(c), 0, 0>>
Row(c, rows, y) ==
  IF y = 0 /\ BT(c) = 1 THEN EdgeRow(c, 0, Title(c), c.tal)
  ELSE IF y = c.h - 1 /\ BB(c) = 1 THEN EdgeRow(c, 6, Subtitle(c), c.sal)
  ELSE IF TopLabel(c) /\ y = 0
       THEN LeftEdge(c) \o InRow(Title(c), MidFill(c), Sub(c.w, BL(c) + BR(c)), c.tal, TRUE) \o RightEdge(c)
  ELSE IF BotLabel(c) /\ y = c.h - 1
       THEN LeftEdge(c) \o InRow(Subtitle(c), MidFill(c), Sub(c.w, BL(c) + BR(c)), c.sal, TRUE) \o RightEdge(c)
  ELSE LET k == y - FirstRow(c) + 1
           body == IF k \in 1..Len(rows) THEN rows[k] ELSE S!Pad(InnerW(c), PadCell(c))
       IN LeftEdge(c) \o S!Pad(c.pad[4], PadCell(c)) \o body \o S!Pad(c.pad[2], PadCell(c)) \o RightEdge(c)
Cut(r, n) == IF Len(r) > n THEN S!CropOf(r, 0, n) ELSE r
\* an outline is painted over whatever is there
OutGlyph(c, i, at) == LET g == Glyph(c, c.ok[i], at, First(c.oc[i], c.color)) IN <<g[1], g[2], g[3], g[4], g[5], ANY>>
Outline(c, y, r) ==
  LET l == Edge(c.ok, 4)   rr == Edge(c.ok, 2)
      inner == Sub(c.w, N(l) + N(rr))
      Whole(i, at) == (IF l THEN <<OutGlyph(c, i, at)>> ELSE <<>>) \o Rep(OutGlyph(c, i, at + 1), inner) \o (IF rr THEN <<OutGlyph(c, i, at + 2)>> ELSE <<>>)
  IN IF y = 0 /\ Edge(c.ok, 1) THEN Whole(1, 1)
     ELSE IF y = c.h - 1 /\ Edge(c.ok, 3) THEN Whole(3, 7)
     ELSE IF l \/ rr THEN (IF l THEN <<OutGlyph(c, 4, 4)>> ELSE <<>>)
                          \o S!AdjustOf(S!CropOf(r, N(l), N(l) + inner), inner, PadCell(c))
                          \o (IF rr THEN <<OutGlyph(c, 2, 6)>> ELSE <<>>)
     ELSE r
\* a hatch fills the blanks between the top and the bottom edge
Hatch(c, y, r) == IF c.hatch = 0 \/ y < BT(c) \/ y >= c.h - BB(c) THEN r
                  ELSE [i \in 1..Len(r) |-> IF r[i][1] = 0 /\ r[i][2] = 0 THEN <<c.hatch, 0, c.hcol, r[i][4], r[i][5], r[i][6]>>
                                            ELSE <<r[i][1], r[i][2], ANY, r[i][4], r[i][5], r[i][6]>>]
Picture(c, hv) ==
  IF c.hidden = 1 THEN <<>>
  ELSE LET rows == TLCEval(TextRows(c, hv)) IN
       TLCEval([y \in 1..c.h |-> Hatch(c, y - 1, Cut(Outline(c, y - 1, Row(c, rows, y - 1)), c.w))])

\* ---- the size the box asks for (where every edge named is an edge drawn, and no label takes a row of the text) ----
FILL == 65535
Plain(c) == /\ \A i \in 1..4 : Shown(c.bk[i]) => Edge(c.bk, i)
            /\ ~TopLabel(c) /\ ~BotLabel(c)
ChromeW(c) == BL(c) + BR(c) + c.pad[2] + c.pad[4]
ChromeH(c) == BT(c) + BB(c) + c.pad[1] + c.pad[3]
Asked(v, content, chrome) == IF v > 0 THEN v + content * chrome ELSE FILL
NaturalW(c) == LET ls == W!SourceLines(c.text) IN FoldLeft(LAMBDA a, x : Hi(a, W!Width(x)), 0, ls) + 2 * c.lp + ChromeW(c)
NaturalH(c) == Len(W!SourceLines(c.text)) + ChromeH(c)
WantW(c) == IF c.sw = 0 THEN NaturalW(c) ELSE Asked(c.sw, c.cb, ChromeW(c))
WantH(c) == IF c.sh = 0 THEN NaturalH(c) ELSE Asked(c.sh, c.cb, ChromeH(c))
HeightFor(c, w) == Hi(Len(W!Layout(c.text, Hi(Sub(Sub(w, ChromeW(c)), 2 * c.lp), 1), c.wrap, c.over)), 1) + ChromeH(c)

\* ---- behaviour ----
\* what a cell may act as: an ellipsis may or may not stand for the link it cuts short, and what an outline covers is open
Acts(m) == IF m = ANY THEN 0..3 ELSE IF m < 0 THEN {0, 0 - m} ELSE {m}
LinkAt(pic, x, y) == IF y + 1 \in 1..Len(pic) /\ x + 1 \in 1..Len(pic[y + 1]) THEN Acts(pic[y + 1][x + 1][6]) ELSE {0}
Setup(c) == cfg' = c /\ hover' = 0 /\ pending' = 0
Move(x, y) == /\ hover' \in LinkAt(Picture(cfg, hover), x, y)
              /\ UNCHANGED <<cfg, pending>>
Press(x, y) == /\ \E k \in LinkAt(Picture(cfg, hover), x, y) : pending' = IF k = 0 THEN pending ELSE k
               /\ UNCHANGED <<cfg, hover>>
Leave == hover' = 0 /\ UNCHANGED <<cfg, pending>>
Take == pending' = 0 /\ UNCHANGED <<cfg, hover>>

\* ---- design properties ----
\* the box fills its region exactly
Exact == cfg.hidden = 1 \/ LET p == Picture(cfg, hover) IN
           Len(p) = cfg.h /\ \A y \in 1..Len(p) : Len(p[y]) = cfg.w /\ S!WellFormed(p[y])
\* pointing at a link changes its look only, never the layout
HoverKeepsShape == cfg.hidden = 1 \/ LET p == Picture(cfg, hover)   q == Picture(cfg, 0) IN
           \A y \in 1..Len(p) : \A x \in 1..Len(p[y]) : p[y][x][1] = q[y][x][1] /\ p[y][x][6] = q[y][x][6]
\* text never appears on an edge
EdgesClear == cfg.hidden = 1 \/ LET p == Picture(cfg, hover) IN
           \A y \in 1..Len(p) : \A x \in 1..Len(p[y]) :
              p[y][x][6] > 0 => /\ y > BT(cfg) /\ y <= cfg.h - BB(cfg) /\ x > BL(cfg) /\ x <= cfg.w - BR(cfg)
=============================================================================
