------------------------------- MODULE MC_Hit -------------------------------
(* A scrolling container with a nested one and two leaves under all wheel turns and rearrangements. *)
EXTENDS Hit
CONSTANTS Heights, Kinds
VARIABLES tree, off
N == [u |-> "none", v |-> 0]
K(i, h, dh, dock) ==
  [i |-> i, w |-> N, h |-> h, minw |-> N, maxw |-> N, minh |-> N, maxh |-> N,
   mt |-> 0, mr |-> 0, mb |-> 0, ml |-> 0, cb |-> 0, chw |-> 0, chh |-> 0, dw |-> 3, dh |-> dh, ih |-> dh, area |-> 0,
   cs |-> 1, rs |-> 1, dock |-> dock, abs |-> 0, layer |-> "", ox |-> N, oy |-> N]
Par == [layout |-> "vertical", ha |-> "left", va |-> "top", cols |-> 1, rows |-> 0, colspecs |-> <<>>, rowspecs |-> <<>>,
        gutv |-> 0, guth |-> 0, autow |-> 0, autoh |-> 0, layers |-> <<>>]
Node(id, kind, bor, ov, kids, body) ==
  [id |-> id, kind |-> kind, par |-> Par, bor |-> bor, pt |-> 0, pr |-> 0, pb |-> 0, pl |-> 0, ovx |-> "hidden", ovy |-> ov,
   sbv |-> 1, sbh |-> 1, mincol |-> 0, kids |-> kids, body |-> body]
Leaf(n) == [p |-> n]
C(v) == [u |-> "c", v |-> v]
Inside2(kind, ov, h) == Node(1, kind, 1, ov, <<K(0, C(h), h, "none"), K(1, C(2), 2, "none")>>, <<Leaf(3), Leaf(4)>>)
Trees == {Node(0, k0, b, ov0, <<K(0, C(h0), h0, d), K(1, C(4), 4, "none"), K(2, C(1), 1, "none")>>,
               <<Leaf(1), [p |-> 0, node |-> Inside2(k1, ov1, h1)], Leaf(2)>>) :
          k0 \in Kinds, k1 \in Kinds, b \in {0, 1}, ov0 \in {"auto", "hidden"}, ov1 \in {"auto", "scroll"}, h0 \in Heights, h1 \in Heights,
          d \in {"none", "top"}}
VP == [w |-> 6, h |-> 7]
R == [x |-> 0, y |-> 1, w |-> 6, h |-> 6]
Full == [x |-> 0, y |-> 0, w |-> VP.w, h |-> VP.h]
Zero == [k \in 0..1 |-> 0]
Init == tree \in Trees /\ off = Settle(tree, R, Zero, VP)
Wheel == \E px \in 0..(VP.w - 1), py \in 0..(VP.h - 1), d \in {-1, 1} : off' = Settle(tree, R, Turn(tree, R, off, VP, px, py, d), VP) /\ UNCHANGED tree
Restyle == tree' \in {n \in Trees : n.kind = tree.kind /\ n.bor = tree.bor /\ n.ovy = tree.ovy /\ n.body[2].node.kind = tree.body[2].node.kind} /\ off' = Settle(tree', R, off, VP)
Next == Wheel \/ Restyle
Spec == Init /\ [][Next]_<<tree, off>>

list == Paint(tree, R, Full, off, VP)
Settled == Settle(tree, R, off, VP) = off /\ \A k \in 0..1 : off[k] >= 0
Shown(px, py) == Cell(list, px, py)
(* no leaf shows outside the part of its containers that holds content *)
InContent == \A px \in 0..(VP.w - 1), py \in 0..(VP.h - 1) :
               LET g == Geometry(tree, R, VP) IN
               /\ Shown(px, py) # 0 => Has(g.content, px, py)
               /\ (Shown(px, py) \div 1000000) \in {3, 4} =>
                    \E k \in 1..Len(g.ps) : g.ps[k].i = 1 /\ Has(Geometry(tree.body[2].node, Reg(Scrolled(g.ps[k], off[0])), VP).content, px, py)
(* neighbouring cells of one leaf carry neighbouring local coordinates *)
Consistent == \A px \in 0..(VP.w - 2), py \in 0..(VP.h - 1) :
               LET a == Shown(px, py)  b == Shown(px + 1, py) IN
               (a # 0 /\ b # 0 /\ a \div 1000000 = b \div 1000000) => b = a + 1000
OneAtATime == [][tree' = tree => Cardinality({k \in 0..1 : off'[k] > off[k]}) <= 1]_<<tree, off>>
=============================================================================
