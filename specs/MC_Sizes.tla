------------------------------ MODULE MC_Sizes ------------------------------
(* Every tree  root[leaf, box[leaf], leaf?]  with small sizes, margins and edges. *)
EXTENDS Sizes
CONSTANTS Hs, Ws, Ms, Third
Leaf(h, w) == [k |-> "leaf", dir |-> "v", on |-> 1, w |-> w, h |-> h, mt |-> 0, mr |-> 0, mb |-> 0, ml |-> 0,
               bt |-> 0, br |-> 0, bb |-> 0, bl |-> 0, pt |-> 0, pr |-> 0, pb |-> 0, pl |-> 0, kids |-> <<>>]
Con(d, ks) == [Leaf(AUTO, AUTO) EXCEPT !.k = "con", !.dir = d, !.kids = ks]
Trees == {<<Con(a, IF Third THEN <<2, 3, 5>> ELSE <<2, 3>>), Leaf(1, 1), Con(b, <<4>>), Leaf(1, 1)>> \o (IF Third THEN <<Leaf(1, 1)>> ELSE <<>>) : a \in {"v", "h"}, b \in {"v", "h"}}
MCInit == nodes \in Trees
Upd(i, n) == Change(i, n)
MCNext == \E i \in 2..Len(nodes) :
  LET n == nodes[i] IN
  \/ Upd(i, [n EXCEPT !.on = 1 - n.on])
  \/ n.k = "leaf" /\ \E v \in Hs : Upd(i, [n EXCEPT !.h = v])
  \/ n.k = "leaf" /\ \E v \in Ws : Upd(i, [n EXCEPT !.w = v])
  \/ \E v \in Ms : Upd(i, [n EXCEPT !.mt = v]) \/ (i < 4 /\ Upd(i, [n EXCEPT !.mb = v])) \/ (i = 3 /\ Upd(i, [n EXCEPT !.ml = v]))
  \/ n.k = "con" /\ (Upd(i, [n EXCEPT !.bt = 1 - n.bt]) \/ Upd(i, [n EXCEPT !.pr = 1 - n.pr]))
  \/ n.k = "con" /\ \E v \in {AUTO, REL, 1} : Upd(i, [n EXCEPT !.h = v])
Spec == MCInit /\ [][MCNext]_nodes

Lays == Lay(nodes, 1, 0, 0)
PlaceOf(lay, i) == CHOOSE p \in lay : p.i = i
Inner(p) == LET n == nodes[p.i] IN [x |-> p.x + Lead(n, "h"), y |-> p.y + Lead(n, "v"), w |-> p.w - Chrome(n, "h"), h |-> p.h - Chrome(n, "v")]
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* given what it asks for, a container holds all its shown children with their margins and nothing is left over *)
Exact == ByContent(nodes) =>
  LET lay == Lays IN
  \A p \in lay : nodes[p.i].k = "con" =>
    LET q == Inner(p)
        ks == {nodes[p.i].kids[k] : k \in 1..Len(nodes[p.i].kids)}
        cs == {c \in lay : c.i \in ks}
    IN /\ \A c \in cs : c.x - nodes[c.i].ml >= q.x /\ c.y - nodes[c.i].mt >= q.y
       /\ q.w = MaxOf({c.x + c.w + nodes[c.i].mr - q.x : c \in cs})
       /\ q.h = MaxOf({c.y + c.h + nodes[c.i].mb - q.y : c \in cs})
       /\ \A c \in cs, d \in cs : c.i < d.i => IF nodes[p.i].dir = "v" THEN c.y + c.h <= d.y ELSE c.x + c.w <= d.x
(* hiding a child never makes a container larger *)
Less(a, b) == a <= b
HideShrinks == \A i \in 2..Len(nodes) : nodes[i].on = 1 =>
  LET ns == [nodes EXCEPT ![i].on = 0] IN \A ax \in {"v", "h"} : Ask(ns, 1, ax) <= Ask(nodes, 1, ax)
(* the root asks for everything exactly when something shown in it (and not inside a box of fixed size) does *)
RECURSIVE Hungry(_, _)
Hungry(i, ax) == LET n == nodes[i] IN
  IF n.k = "leaf" THEN Own(n, ax) = FILL
  ELSE Own(n, ax) = REL \/ (Own(n, ax) < REL /\ \E k \in 1..Len(n.kids) : nodes[n.kids[k]].on = 1 /\ Hungry(n.kids[k], ax))
FillIff == \A ax \in {"v", "h"} : (Ask(nodes, 1, ax) = FILL) <=> Hungry(1, ax)
=============================================================================
