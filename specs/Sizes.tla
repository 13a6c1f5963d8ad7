------------------------------- MODULE Sizes -------------------------------
(* The size a tree of containers asks for, and where its leaves end up when it gets exactly that.
   nodes[1] is the root; a node is a leaf, a container stacking its children ("v") or setting them side by side ("h"),
   or a "mid": a wrapper centring its single child.
   Sizes: NONE (not set), AUTO, REL (relative to the surroundings), or a number of cells; a leaf states what it asks for. *)
EXTENDS Integers, Sequences, FiniteSets
FILL == 65535
NONE == -3
AUTO == -2
REL == -1
Mx(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumUp(_, _), MaxUp(_, _)
SumUp(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumUp(s, n - 1)
MaxUp(s, n) == IF n = 0 THEN 0 ELSE Mx(s[n], MaxUp(s, n - 1))

VARIABLE nodes
svars == <<nodes>>

Shown(ns, i) == SelectSeq(ns[i].kids, LAMBDA j : ns[j].on = 1)
Before(n, ax) == IF ax = "v" THEN n.mt ELSE n.ml
After(n, ax) == IF ax = "v" THEN n.mb ELSE n.mr
Chrome(n, ax) == IF ax = "v" THEN n.bt + n.bb + n.pt + n.pb ELSE n.bl + n.br + n.pl + n.pr
Lead(n, ax) == IF ax = "v" THEN n.bt + n.pt ELSE n.bl + n.pl
Own(n, ax) == IF ax = "v" THEN n.h ELSE n.w
Other(ax) == IF ax = "v" THEN "h" ELSE "v"

(* the gap before the k-th of the children ks: facing margins collapse to the larger of the two *)
GapAt(ns, ks, k, ax) == IF k = 1 THEN Before(ns[ks[1]], ax) ELSE Mx(Before(ns[ks[k]], ax), After(ns[ks[k - 1]], ax))

RECURSIVE Ask(_, _, _)
(* what node i asks for along axis ax ("v": height, "h": width) *)
Natural(ns, i, ax) ==
  LET n == ns[i]   ks == Shown(ns, i)
      sz == [k \in 1..Len(ks) |-> Ask(ns, ks[k], ax)]
  IN IF \E k \in 1..Len(ks) : sz[k] = FILL THEN FILL
     ELSE Chrome(n, ax) +
          (IF ks = <<>> THEN 0
           ELSE IF n.dir = ax
                THEN SumUp([k \in 1..Len(ks) |-> GapAt(ns, ks, k, ax) + sz[k]], Len(ks)) + After(ns[ks[Len(ks)]], ax)
                ELSE MaxUp([k \in 1..Len(ks) |-> Before(ns[ks[k]], ax) + sz[k] + After(ns[ks[k]], ax)], Len(ks)))
Ask(ns, i, ax) ==
  LET n == ns[i] IN
  CASE n.k = "leaf" -> Own(n, ax)
    [] n.k = "mid" -> IF ns[n.kids[1]].on = 1 THEN Ask(ns, n.kids[1], ax) ELSE 0
    [] OTHER -> IF Own(n, ax) = REL THEN FILL
                ELSE IF Own(n, ax) >= 0 THEN Own(n, ax) ELSE Natural(ns, i, ax)

(* where things lie when every container has the size it asks for: offset of child k of i inside i *)
Offset(ns, i, k, ax) ==
  LET n == ns[i]   ks == Shown(ns, i)
  IN Lead(n, ax) + (IF n.dir = ax THEN SumUp([m \in 1..k |-> GapAt(ns, ks, m, ax) + (IF m < k THEN Ask(ns, ks[m], ax) ELSE 0)], k)
                    ELSE Before(ns[ks[k]], ax))
RECURSIVE Lay(_, _, _, _)
Lay(ns, i, x, y) ==
  LET ks == Shown(ns, i) IN
  {[i |-> i, x |-> x, y |-> y, w |-> Ask(ns, i, "h"), h |-> Ask(ns, i, "v")]}
    \cup UNION {Lay(ns, ks[k], x + Offset(ns, i, k, "h"), y + Offset(ns, i, k, "v")) : k \in 1..Len(ks)}

(* trees in which everything is sized by its content *)
ByContent(ns) == \A i \in 1..Len(ns) : /\ ns[i].k # "mid"
                                       /\ (ns[i].k = "con" => ns[i].w = AUTO /\ ns[i].h = AUTO)
                                       /\ (ns[i].k = "leaf" => ns[i].w # FILL /\ ns[i].h # FILL)

Start(ns) == nodes' = ns
Change(i, n) == i \in 1..Len(nodes) /\ n.kids = nodes[i].kids /\ n.k = nodes[i].k /\ nodes' = [nodes EXCEPT ![i] = n]
=============================================================================
