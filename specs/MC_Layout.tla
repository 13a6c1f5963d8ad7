----------------------------- MODULE MC_Layout -----------------------------
(* Children are added one at a time; the arrangement is recomputed after each. *)
EXTENDS Layout
CONSTANTS MaxKids, Sizes
VARIABLES P, kids, av, out
N == [u |-> "none", v |-> 0]
L(u, v) == [u |-> u, v |-> v]
K(i, w, h, m, cs, rs, dock, layer) ==
  [i |-> i, w |-> w, h |-> h, minw |-> N, maxw |-> N, minh |-> N, maxh |-> N,
   mt |-> m, mr |-> m, mb |-> m, ml |-> m, cb |-> 0, chw |-> 0, chh |-> 0, dw |-> 3, dh |-> 2, ih |-> 2, area |-> 0,
   cs |-> cs, rs |-> rs, dock |-> dock, abs |-> 0, layer |-> layer, ox |-> N, oy |-> N]
Pars == {[layout |-> lay, ha |-> a[1], va |-> a[2], cols |-> 2, rows |-> r, colspecs |-> <<>>, rowspecs |-> <<>>,
          gutv |-> 0, guth |-> g, autow |-> 0, autoh |-> 0, layers |-> <<>>] :
          lay \in {"vertical", "horizontal", "grid"}, a \in {<<"left", "top">>, <<"center", "bottom">>}, r \in {0, 2}, g \in {0, 1}}
Lens == {L("fr", 2), L("fr", 4), L("c", 2), L("p", 30)}
KidSet(i) == {K(i, w, w, m, s[1], s[2], d, "") : w \in Lens, m \in {0, 1}, s \in {<<1, 1>>, <<2, 1>>, <<1, 2>>},
                                              d \in {"none", "top"}}
Useful(p, k) == /\ (p.layout # "grid" => k.cs = 1 /\ k.rs = 1)
                /\ (k.dock # "none" => k.cs = 1 /\ k.rs = 1 /\ k.w = L("c", 2) /\ k.mt = 0)
                /\ (p.layout = "grid" => k.w \in {L("fr", 2), L("c", 2)})
VP == [w |-> 20, h |-> 20]
Init == /\ P \in {p \in Pars : p.layout = "grid" \/ (p.rows = 0 /\ p.guth = 0)}
        /\ kids = <<>> /\ av \in {[x |-> 1, y |-> 1, w |-> s, h |-> s] : s \in Sizes} /\ out = <<>>
Next == /\ Len(kids) < MaxKids
        /\ \E k \in KidSet(Len(kids) + 1) : Useful(P, k) /\ kids' = Append(kids, k)
        /\ out' = Arrange(P, kids', av, VP)
        /\ UNCHANGED <<P, av>>
Spec == Init /\ [][Next]_<<P, kids, av, out>>

flow == SelectSeq(out, LAMBDA p : ByI(kids, p.i).dock = "none")
reg == Content(SelectSeq(kids, LAMBDA c : c.dock # "none"), av)
Apart(p, q) == \/ p.x + p.w <= q.x \/ q.x + q.w <= p.x \/ p.y + p.h <= q.y \/ q.y + q.h <= p.y
               \/ p.w = 0 \/ p.h = 0 \/ q.w = 0 \/ q.h = 0
NoOverlap == \A a, b \in 1..Len(flow) : a < b => Apart(flow[a], flow[b])
NonNegative == \A k \in 1..Len(out) : out[k].w >= 0 /\ out[k].h >= 0
AllPlaced == (P.layout # "grid" \/ P.rows = 0) => Len(out) = Len(kids)
(* an fr child on the axis: the children and their margins fill the region exactly *)
SharerV == \E k \in 1..Len(kids) : kids[k].dock = "none" /\ VShares(kids[k])
FitsV == LET fs == SelectSeq(kids, LAMBDA c : c.dock = "none")
         IN  100 * reg.h > 100 * Margins(fs, MT, MB) + Sum([k \in 1..Len(fs) |-> IF VShares(fs[k]) THEN 0 ELSE VFixed100(fs[k], reg, VP)])
FillsV == (P.layout = "vertical" /\ SharerV /\ FitsV) =>
            LET p == flow[Len(flow)] IN p.y + p.h + ByI(kids, p.i).mb = reg.y + reg.h
SharerH == \E k \in 1..Len(kids) : kids[k].dock = "none" /\ HShares(kids[k])
FitsH == LET fs == SelectSeq(kids, LAMBDA c : c.dock = "none")
         IN  reg.w >= Margins(fs, ML, MR) + Sum([k \in 1..Len(fs) |-> IF HShares(fs[k]) THEN 0 ELSE HRaw100(fs[k], reg, VP) \div 100 + 1])
FillsH == (P.layout = "horizontal" /\ SharerH /\ FitsH) =>
            LET p == flow[Len(flow)] IN p.x + p.w + ByI(kids, p.i).mr = reg.x + reg.w
(* one fr never differs from another by more than a cell *)
Fair == (P.layout \in {"vertical", "horizontal"}) =>
          \A a, b \in 1..Len(flow) :
            LET ka == ByI(kids, flow[a].i)
                kb == ByI(kids, flow[b].i)
                la == IF P.layout = "vertical" THEN flow[a].h ELSE flow[a].w
                lb == IF P.layout = "vertical" THEN flow[b].h ELSE flow[b].w
            IN  (ka.h = kb.h /\ ka.h.u = "fr") => la - lb \in {-1, 0, 1}
(* alignment never pushes content before the start of the region *)
AlignedIn == \A k \in 1..Len(flow) : flow[k].x >= reg.x /\ flow[k].y >= reg.y
=============================================================================
