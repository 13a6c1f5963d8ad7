------------------------------- MODULE MC_Css -------------------------------
(* A small tree restyled incrementally under a small sheet.  Nodes carry a   *)
(* dirty mark; Restyle recomputes marked nodes and everything below them,    *)
(* skipping what is not visible.                                             *)
EXTENDS Css
CONSTANTS MaxRules, MaxOps
VARIABLES sheet,    \* chosen raw rules
          el,       \* element per node
          vis, inl, dirty, styles, fresh, ops
vars == <<sheet, el, vis, inl, dirty, styles, fresh, ops>>
Nodes == 1..4
Par == <<0, 1, 2, 1>>
Kids(n) == {k \in Nodes : Par[k] = n}
RECURSIVE Chain(_)
Chain(n) == IF n = 0 THEN <<>> ELSE <<el[n]>> \o Chain(Par[n])
TV == ("$p" :> "9,9,9,1")
S(k, n) == [k |-> k, n |-> n]
P(s, c) == [s |-> s, c |-> c]
D(p, a) == [k |-> "d", p |-> p, a |-> a]
R(sel, items) == [k |-> "r", sel |-> sel, items |-> items]
A == S("type", "A")  B == S("type", "B")  X == S("class", "x")  H == S("state", "hover")  I == S("id", "i")  U == S("parent", "&")
Pool == {
    R(<<<<P(<<A>>, "desc"), P(<<X>>, "none")>>>>, <<D("margin", <<"1", "2">>), D("color", <<"$p">>)>>),
    R(<<<<P(<<B>>, "none")>>, <<P(<<I>>, "none")>>>>, <<D("margin-left", <<"7">>), D("visibility", <<"hidden">>)>>),
    R(<<<<P(<<X>>, "child"), P(<<B>>, "none")>>>>, <<D("color", <<"auto,1">>), D("background", <<"1,1,1,1">>)>>),
    R(<<<<P(<<A, H>>, "none")>>>>, <<D("color", <<"3,3,3,1">>), D("margin", <<"4">>), D("margin-left", <<"5">>)>>),
    R(<<<<P(<<X>>, "none")>>>>, <<D("text-style", <<"bold">>), R(<<<<P(<<U, H>>, "none")>>, <<P(<<B>>, "none")>>>>, <<D("text-style", <<"none", "dim">>), D("margin-left", <<"6">>)>>)>>),
    R(<<<<P(<<A>>, "none")>>, <<P(<<X>>, "none")>>>>, <<R(<<<<P(<<U>>, "child"), P(<<B>>, "none")>>>>, <<D("background", <<"2,2,2,1">>), R(<<<<P(<<U, X>>, "none")>>>>, <<D("color", <<"8,8,8,1">>)>>)>>), D("margin", <<"8">>)>>),
    R(<<<<P(<<A>>, "desc"), P(<<A>>, "child"), P(<<B>>, "none")>>>>, <<D("margin-left", <<"9">>)>>) }
Flat == FlatAll(sheet)
CT == [c \in {"1,1,1,1", "2,2,2,1", "3,3,3,1"} |-> IF c = "1,1,1,1" THEN <<1, 1, 1, 4>> ELSE IF c = "2,2,2,1" THEN <<2, 2, 2, 4>> ELSE <<3, 3, 3, 4>>]
RECURSIVE Scratch(_), Ctx(_)
Ctx(n) == IF n = 0 THEN RootCtx("7,7,7,1") ELSE CtxOf(Scratch(n), Ctx(Par[n]), CT)
Scratch(n) == Final(Flat, Chain(n), TRUE, TV, inl[n], Ctx(Par[n]))
RECURSIVE Shown(_)
Shown(n) == n = 0 \/ (vis[n] /\ Shown(Par[n]))
NoInline == [color |-> "", background |-> "", tint |-> ""]
Init == /\ sheet \in UNION {[1..k -> Pool] : k \in 1..MaxRules}
        /\ el = <<[ty |-> <<"A">>, id |-> "", cls |-> <<>>, st |-> <<>>], [ty |-> <<"A">>, id |-> "", cls |-> <<"x">>, st |-> <<>>],
                  [ty |-> <<"B">>, id |-> "", cls |-> <<>>, st |-> <<>>], [ty |-> <<"B", "A">>, id |-> "i", cls |-> <<>>, st |-> <<>>]>>
        /\ vis = [n \in Nodes |-> TRUE] /\ inl = [n \in Nodes |-> NoInline] /\ dirty = [n \in Nodes |-> TRUE]
        /\ styles = [n \in Nodes |-> None] /\ fresh = FALSE /\ ops = 0
Mark(n) == dirty' = [dirty EXCEPT ![n] = TRUE] /\ fresh' = FALSE /\ ops < MaxOps /\ ops' = ops + 1
ToggleClass(n) == el' = [el EXCEPT ![n].cls = IF @ = <<>> THEN <<"x">> ELSE <<>>] /\ Mark(n) /\ UNCHANGED <<sheet, vis, inl, styles>>
ToggleHover(n) == el' = [el EXCEPT ![n].st = IF @ = <<>> THEN <<"hover">> ELSE <<>>] /\ Mark(n) /\ UNCHANGED <<sheet, vis, inl, styles>>
ToggleVis(n) == vis' = [vis EXCEPT ![n] = ~@] /\ Mark(n) /\ UNCHANGED <<sheet, el, inl, styles>>
SetInline(n) == inl' = [inl EXCEPT ![n].color = IF @ = "" THEN "5,5,5,1" ELSE ""] /\ Mark(n) /\ UNCHANGED <<sheet, el, vis, styles>>
RECURSIVE Redo(_)
Redo(n) == n # 0 /\ (dirty[n] \/ Redo(Par[n]))
Restyle == /\ ~fresh
           /\ LET redo == {n \in Nodes : Shown(n) /\ Redo(n)}
              IN /\ styles' = [n \in Nodes |-> IF n \in redo THEN Scratch(n) ELSE styles[n]]
                 /\ dirty' = [n \in Nodes |-> dirty[n] /\ n \notin redo]
           /\ fresh' = TRUE /\ UNCHANGED <<sheet, el, vis, inl, ops>>
Next == \/ \E n \in Nodes : ToggleClass(n) \/ ToggleHover(n) \/ ToggleVis(n) \/ SetInline(n)
        \/ Restyle
Spec == Init /\ [][Next]_vars

(* After a restyle every shown node has exactly the style computed from scratch. *)
Incremental == fresh => \A n \in Nodes : Shown(n) => styles[n] = Scratch(n)

(* The winner of a field is the last declaration setting it in the (weight, rule, declaration) order. *)
Setters(n, f) == {q \in {<<i, j>> : i \in 1..Len(Flat), j \in 1..4} : q[2] <= Len(Flat[q[1]].d) /\ Hits(Flat[q[1]], Chain(n), TRUE) # {} /\ f \in DOMAIN Effect(Flat[q[1]].d[q[2]], TV)}
W(n, i) == RuleWeight(Flat[i], Hits(Flat[i], Chain(n), TRUE))
Before(n, a, b) == W(n, a[1]) < W(n, b[1]) \/ (W(n, a[1]) = W(n, b[1]) /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])))
Winner == \A n \in Nodes : LET st == Cascade(Flat, Chain(n), TRUE, TV) IN
    \A f \in {"color", "auto-color", "margin-left", "margin-top", "background", "text-style.bold"} :
        LET Q == Setters(n, f) IN
        IF Q = {} THEN f \notin DOMAIN st
        ELSE LET w == CHOOSE a \in Q : \A b \in Q : Before(n, b, a) IN st[f] = Effect(Flat[w[1]].d[w[2]], TV)[f]

(* Nesting, read directly: & stands for an element the parent matches; without & an ancestor must match the parent. *)
RECURSIVE Direct(_, _, _)      \* does element at position i of the chain match rule r inside parents ps (outermost first)?
Outer(ps, chain, i) == \E k \in 1..Len(ps[1].sel) : MatchAt(ps[1].sel[k], Len(ps[1].sel[k]), chain, i, TRUE)
At(sel, k, ps, chain, i) == Direct(<<sel, k>>, ps, <<chain, i>>)
Direct(sk, ps, ci) ==
    LET sel == sk[1] k == sk[2] chain == ci[1] i == ci[2]
        ParentAt(j) == IF Len(ps) = 1 THEN Outer(ps, chain, j)
                       ELSE \E m \in 1..Len(ps[Len(ps)].sel) : LET q == ps[Len(ps)].sel[m] IN Direct(<<q, Len(q)>>, SubSeq(ps, 1, Len(ps) - 1), <<chain, j>>)
    IN /\ i <= Len(chain)
       /\ \A x \in 1..Len(sel[k].s) : IsParent(sel[k].s[x]) \/ Simple(sel[k].s[x], chain[i], TRUE)
       /\ IF k = 1 THEN IF HasParent(sel) THEN ParentAt(i) ELSE \E j \in (i+1)..Len(chain) : ParentAt(j)
          ELSE IF sel[k-1].c = "child" THEN Direct(<<sel, k - 1>>, ps, <<chain, i + 1>>)
          ELSE \E j \in (i+1)..Len(chain) : Direct(<<sel, k - 1>>, ps, <<chain, j>>)
RECURSIVE Applies(_, _, _)     \* the declarations reached for chain, as a bag over rules in document order
Applies(r, ps, chain) ==
    LET hit == IF ps = <<>> THEN Outer(<<r>>, chain, 1) ELSE \E m \in 1..Len(r.sel) : Direct(<<r.sel[m], Len(r.sel[m])>>, ps, <<chain, 1>>)
        inner == Nested(r.items)
        RECURSIVE All(_)
        All(q) == IF q = <<>> THEN <<>> ELSE Applies(q[1], ps \o <<r>>, chain) \o All(Tail(q))
    IN <<hit>> \o All(inner)
RECURSIVE AppliesAll(_, _)
AppliesAll(rs, chain) == IF rs = <<>> THEN <<>> ELSE Applies(rs[1], <<>>, chain) \o AppliesAll(Tail(rs), chain)
Nesting == \A n \in Nodes : LET d == AppliesAll(sheet, Chain(n)) IN
              Len(d) = Len(Flat) /\ \A i \in 1..Len(Flat) : d[i] = (Hits(Flat[i], Chain(n), TRUE) # {})
=============================================================================
