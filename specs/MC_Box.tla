------------------------------- MODULE MC_Box -------------------------------
(* Boxes of every small size with every combination of edges, labels and     *)
(* alignments, and a pointer that wanders over them.                         *)
EXTENDS Box
CONSTANTS Ws, Hs, Kinds, Texts, Aligns, Pads, Labels, Os, Vas, Tas
K4(a, b, c, d) == <<a, b, c, d>>
TextOf == [none |-> <<>>, link |-> <<<<1, 1>>, <<100, 1>>, <<0, 0>>, <<2, 2>>>>, two |-> <<<<1, 0>>, <<2, 1>>, <<-1, 0>>, <<101, 2>>, <<3, 2>>, <<0, 2>>, <<3, 2>>>>]
LabelOf == [none |-> <<>>, short |-> <<1>>, wide |-> <<1, 100, 101, 2>>]
PadOf == [none |-> <<0, 0, 0, 0>>, left |-> <<0, 0, 0, 1>>, all |-> <<1, 1, 1, 1>>]
Conf(w, h, t, r, b, l, o, tx, ha, va, ta, pd, ti, su, wr, ov) ==
  [w |-> w, h |-> h, bk |-> K4(t, r, b, l), bc |-> <<20, 0, 21, 0>>, ok |-> IF o THEN <<"round", "none", "round", "round">> ELSE K4("none", "none", "none", "none"),
   oc |-> <<22, 22, 22, 22>>, pad |-> PadOf[pd], color |-> 30, bg |-> 40, inh |-> 50, at |-> 9,
   title |-> LabelOf[ti], sub |-> LabelOf[su], tal |-> ha, sal |-> "right", ha |-> ha, va |-> va, ta |-> ta,
   tcol |-> 0, scol |-> 60, tbg |-> 64, sbg |-> 0, tat |-> 0, sat |-> 1, wrap |-> wr, over |-> ov, lp |-> 0,
   lcol |-> 70, lbg |-> 0, lcolh |-> 0, lbgh |-> 76, lat |-> 0, lath |-> 1, hatch |-> 0, hcol |-> 80, hidden |-> 0, sw |-> 0, sh |-> 0, cb |-> 0,
   text |-> TextOf[tx]]
Init == /\ \E w \in Ws, h \in Hs, t, r, b, l \in Kinds, o \in Os, tx \in Texts, ha \in Aligns, va \in Vas,
              ta \in Tas, pd \in Pads, ti, su \in Labels, m \in {<<"wrap", "fold">>, <<"nowrap", "ellipsis">>} :
             cfg = Conf(w, h, t, r, b, l, o, tx, ha, va, ta, pd, ti, su, m[1], m[2])
        /\ hover = 0 /\ pending = 0
Next == \/ \E x \in 0..cfg.w, y \in 0..cfg.h : (Move(x, y) \/ Press(x, y))
        \/ Leave \/ Take
Spec == Init /\ [][Next]_bvars
\* what is hovered or about to run is a link of the text
Known == {hover, pending} \subseteq {0} \cup {cfg.text[i][2] : i \in 1..Len(cfg.text)} \/ cfg.ok[4] # "none"
\* given the size it asks for, a box shows all of its text
RECURSIVE Glyphs1(_)
Glyphs1(rows) == IF rows = <<>> THEN <<>> ELSE SelectSeq(rows[1], LAMBDA c : c[1] \notin {0, ELL} /\ c[1] > 0 /\ c[2] # 2) \o Glyphs1(Tail(rows))
ShowsAll == (Plain(cfg) /\ cfg.ok[4] = "none" /\ cfg.title = <<>> /\ cfg.sub = <<>> /\ cfg.w >= NaturalW(cfg) /\ cfg.h >= NaturalH(cfg)) =>
   [i \in 1..Len(Glyphs1(Picture(cfg, hover))) |-> Glyphs1(Picture(cfg, hover))[i][1]] = LET ink == SelectSeq(cfg.text, LAMBDA c : c[1] > 0) IN [i \in 1..Len(ink) |-> ink[i][1]]
ShowsAllIn == (Plain(cfg) /\ cfg.ok[4] = "none" /\ cfg.title = <<>> /\ cfg.sub = <<>> /\ cfg.wrap = "wrap" /\ cfg.w > ChromeW(cfg) + 1 /\ cfg.h >= HeightFor(cfg, cfg.w)) =>
   Len(Glyphs1(Picture(cfg, hover))) = Len(SelectSeq(cfg.text, LAMBDA c : c[1] > 0))
\* a title that fits is there in full, on the first row
\* (where there is an edge to carry it, or side edges to put it between)
Carried == BT(cfg) = 1 \/ Sides(cfg)
TitleShown ==
  (cfg.title # <<>> /\ HasBorder(cfg) /\ Carried /\ cfg.ok[4] = "none" /\ Len(Title(cfg)) + 4 <= Sub(cfg.w, 2)) =>
     LET row == Picture(cfg, hover)[1] IN
     \E i \in 1..(Len(row) - Len(Title(cfg)) + 1) : SubSeq(row, i, i + Len(Title(cfg)) - 1) = Title(cfg)
=============================================================================
