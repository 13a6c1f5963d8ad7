---------------------------- MODULE MC_Keyline ----------------------------
(* Children with spans are added to a grid (or a row or column), hidden and shown again. *)
EXTENDS Keyline
CONSTANTS MaxKids, Sides
VARIABLES lay, P, kids, hidden, w, h, s
vars == <<lay, P, kids, hidden, w, h, s>>
N == [u |-> "none", v |-> 0]
K(i, wd, hg, m, cs, rs) ==
  [i |-> i, w |-> wd, h |-> hg, minw |-> N, maxw |-> N, minh |-> N, maxh |-> N,
   mt |-> m, mr |-> m, mb |-> m, ml |-> m, cb |-> 0, chw |-> 0, chh |-> 0, dw |-> 3, dh |-> 2, ih |-> 2, area |-> 0,
   cs |-> cs, rs |-> rs, dock |-> "none", abs |-> 0, layer |-> "", ox |-> N, oy |-> N]
Par(l, c, g) == [layout |-> l, ha |-> "left", va |-> "top", cols |-> c, rows |-> 0, colspecs |-> <<>>, rowspecs |-> <<>>,
                 gutv |-> g, guth |-> g, autow |-> 0, autoh |-> 0, layers |-> <<>>]
FR == [u |-> "fr", v |-> 2]
C3 == [u |-> "c", v |-> 3]
VP == [w |-> 40, h |-> 20]
Init == /\ lay \in {"grid", "vertical", "horizontal"} /\ kids = <<>> /\ hidden = {} /\ s = 1
        /\ P \in {Par(lay, c, g) : c \in (IF lay = "grid" THEN 1..3 ELSE {1}), g \in (IF lay = "grid" THEN 0..2 ELSE {0})}
        /\ w \in Sides /\ h \in Sides
AddKid == /\ Len(kids) < MaxKids
          /\ \E c \in 1..2, r \in 1..2, m \in 0..1 :
               /\ (lay # "grid" => c = 1 /\ r = 1)
               /\ kids' = Append(kids, IF lay = "grid" THEN K(Len(kids) + 1, N, N, m, c, r)
                                       ELSE K(Len(kids) + 1, IF r = m THEN FR ELSE C3, FR, m, 1, 1))
          /\ UNCHANGED <<lay, P, hidden, w, h, s>>
Toggle == \E i \in 1..Len(kids) : /\ hidden' = IF i \in hidden THEN hidden \ {i} ELSE hidden \cup {i}
                                  /\ UNCHANGED <<lay, P, kids, w, h, s>>
Next == AddKid \/ Toggle
Spec == Init /\ [][Next]_vars

shown == SelectSeq(kids, LAMBDA c : c.i \notin hidden)
Ok == lay # "grid" \/ Fits(P, shown, w, h)
ps == Placed(lay, P, shown, w, h, VP)
E == IF lay = "grid" THEN GridLines(P, shown, w, h) ELSE FlowLines(lay, ps, w, h)
XY == (0..(w - 1)) \X (0..(h - 1))
(* lines never end loose, and stay inside the region *)
Closed == Ok => LET e == TLCEval(E) IN \A p \in XY : Cardinality({k \in 1..4 : Arms(e, p[1], p[2], 1)[k] # 0}) # 1
Inside == Ok => LET e == TLCEval(E) IN \A d \in e : /\ d[2] >= 0 /\ d[3] >= 0
                                /\ (d[1] = "h" => d[2] + 1 < w /\ d[3] < h) /\ (d[1] = "v" => d[2] < w /\ d[3] + 1 < h)
(* every joint has its character, in every weight *)
HasGlyph == Ok => LET e == TLCEval(E) IN \A p \in XY, k \in 1..3 :
              LET a == Arms(e, p[1], p[2], k) IN a = NoArms \/ (Glyph(a) # 0 /\ Must(a))
(* with room between the cells no line covers a grid's child, and lines keep the children apart *)
Clear == (lay = "grid" /\ P.guth > 0 /\ Ok) =>
           LET e == TLCEval(E)
               q == TLCEval(ps) IN
           \A p \in XY : Over(q, p[1], p[2]) # 0 => Arms(e, p[1], p[2], 1) = NoArms
Apart == (lay = "grid" /\ Ok) =>
           LET pic == TLCEval(Picture(E, ps, 1, w, h)) IN
           \A y \in 1..h, x \in 1..(w - 1) :
             (pic[y][x] < 0 /\ pic[y][x + 1] < 0) => pic[y][x] = pic[y][x + 1]
(* a picture without lines is a picture of the children alone *)
NoLines == \A y \in 1..h, x \in 1..w : Picture({}, ps, 1, w, h)[y][x] = Over(ps, x - 1, y - 1)
=============================================================================
