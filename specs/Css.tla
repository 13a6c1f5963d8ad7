-------------------------------- MODULE Css --------------------------------
(* Style sheets: which rules match an element, which declaration wins, what *)
(* shorthands mean, what nesting means, what children inherit.              *)
(*  simple selector [k, n]   k: type class id any state theme parent        *)
(*  part            [s, c]   s: simple selectors, c: child | desc | none    *)
(*  complex selector         sequence of parts, last one names the element  *)
(*  rule            [k, sel, items]   item: a rule, or [k |-> "d", p, a]    *)
(*  element         [ty, id, cls, st] type names, id, classes, states       *)
(*  chain                    element, parent, grandparent ...               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Has(q, x) == \E i \in 1..Len(q) : q[i] = x
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---- matching ---- *)
Simple(s, e, dark) ==
    CASE s.k = "type" -> Has(e.ty, s.n)
      [] s.k = "class" -> Has(e.cls, s.n)
      [] s.k = "id" -> e.id = s.n
      [] s.k = "any" -> TRUE
      [] s.k = "state" -> Has(e.st, s.n)
      [] s.k = "theme" -> (s.n = "dark") = dark
Compound(p, e, dark) == \A i \in 1..Len(p.s) : Simple(p.s[i], e, dark)
RECURSIVE MatchAt(_, _, _, _, _)
MatchAt(sel, k, chain, i, dark) ==      \* parts 1..k, part k at chain[i]
    /\ i <= Len(chain)
    /\ Compound(sel[k], chain[i], dark)
    /\ \/ k = 1
       \/ k > 1 /\ sel[k-1].c = "child" /\ MatchAt(sel, k - 1, chain, i + 1, dark)
       \/ k > 1 /\ sel[k-1].c = "desc" /\ \E j \in (i+1)..Len(chain) : MatchAt(sel, k - 1, chain, j, dark)
Matches(sel, chain, dark) == MatchAt(sel, Len(sel), chain, 1, dark)

(* ---- specificity: ids, then classes and states, then types ---- *)
RECURSIVE Count(_, _)
Count(sel, K) == IF sel = <<>> THEN 0
                 ELSE Cardinality({i \in 1..Len(sel[1].s) : sel[1].s[i].k \in K}) + Count(Tail(sel), K)
Weight(sel) == Count(sel, {"id"}) * 10000 + Count(sel, {"class", "state", "theme"}) * 100 + Count(sel, {"type"})

(* ---- nesting ---- *)
IsParent(s) == s.k = "parent"
NoParent(p) == SelectSeq(p.s, LAMBDA s : ~IsParent(s))
HasParent(sel) == \E i \in 1..Len(sel[1].s) : IsParent(sel[1].s[i])
Combine(p, c) ==
    LET n == Len(p) IN
    IF HasParent(c) THEN SubSeq(p, 1, n - 1) \o <<[s |-> p[n].s \o NoParent(c[1]), c |-> c[1].c]>> \o Tail(c)
    ELSE SubSeq(p, 1, n - 1) \o <<[s |-> p[n].s, c |-> "desc"]>> \o c
CombineAll(ps, cs) == [k \in 1..(Len(ps) * Len(cs)) |-> Combine(ps[((k - 1) \div Len(cs)) + 1], cs[((k - 1) % Len(cs)) + 1])]
Decls(items) == SelectSeq(items, LAMBDA x : x.k = "d")
Nested(items) == SelectSeq(items, LAMBDA x : x.k = "r")
RECURSIVE FlatRule(_), FlatAll(_)
FlatAll(rs) == IF rs = <<>> THEN <<>> ELSE FlatRule(rs[1]) \o FlatAll(Tail(rs))
FlatRule(r) ==
    LET inner == Nested(r.items) IN
    <<[sel |-> r.sel, d |-> Decls(r.items)]>>
    \o FlatAll([i \in 1..Len(inner) |-> [k |-> "r", sel |-> CombineAll(r.sel, inner[i].sel), items |-> inner[i].items]])

(* ---- what one declaration sets ---- *)
Flags == {"bold", "dim", "italic", "underline", "underline2", "blink", "blink2", "reverse", "strike", "overline"}
Sides(p, a) ==
    LET v(top, right, bottom, left) == (p \o "-top" :> top) @@ (p \o "-right" :> right) @@ (p \o "-bottom" :> bottom) @@ (p \o "-left" :> left)
    IN CASE Len(a) = 1 -> v(a[1], a[1], a[1], a[1])
         [] Len(a) = 2 -> v(a[1], a[2], a[1], a[2])
         [] Len(a) = 4 -> v(a[1], a[2], a[3], a[4])
Second(a) == IF Len(a) = 1 THEN a[1] ELSE a[2]
RECURSIVE Join(_)
Join(a) == IF Len(a) = 1 THEN a[1] ELSE a[1] \o " " \o Join(Tail(a))
AfterNone(a) == LET S == {i \in 1..Len(a) : a[i] = "none"} IN IF S = {} THEN a ELSE SubSeq(a, SetMax(S) + 1, Len(a))
None == [x \in {} |-> ""]
IsAuto(c) == Len(c) >= 4 /\ SubSeq(c, 1, 4) = "auto"
\* tv: the colours behind theme variables
Colour(c, tv) == IF c \in DOMAIN tv THEN tv[c] ELSE c
Edge(a, tv) == IF Len(a) = 1 THEN a[1] \o " -" ELSE a[1] \o " " \o Colour(a[2], tv)
ColourProps == {"background", "tint", "background-tint", "border-title-color", "border-subtitle-color", "border-title-background",
                "border-subtitle-background", "scrollbar-color", "scrollbar-color-hover", "scrollbar-color-active", "scrollbar-background",
                "scrollbar-background-hover", "scrollbar-background-active", "scrollbar-corner-color", "link-color", "link-color-hover",
                "link-background", "link-background-hover"}
PlainProps == {"width", "height", "min-width", "max-width", "min-height", "max-height", "margin-top", "margin-right", "margin-bottom",
               "margin-left", "padding-top", "padding-right", "padding-bottom", "padding-left", "scrollbar-size-horizontal",
               "scrollbar-size-vertical", "scrollbar-gutter", "scrollbar-visibility", "box-sizing", "display", "visibility", "opacity",
               "position", "overflow-x", "overflow-y", "layout", "dock", "layer", "column-span", "row-span", "text-align", "text-overflow",
               "text-wrap", "line-pad", "text-opacity", "content-align-horizontal", "content-align-vertical", "align-horizontal",
               "align-vertical", "border-title-align", "border-subtitle-align", "offset-x", "offset-y"}
Effect(d, tv) ==
    LET p == d.p  a == d.a IN
    CASE p \in PlainProps -> (p :> a[1])
      [] p \in ColourProps -> (p :> Colour(a[1], tv))
      [] p = "color" -> ("color" :> Colour(a[1], tv)) @@ ("auto-color" :> (IF IsAuto(Colour(a[1], tv)) THEN "1" ELSE "0"))
      [] p \in {"margin", "padding"} -> Sides(p, a)
      [] p \in {"border", "outline"} -> LET e == Edge(a, tv) IN Sides(p, <<e>>)
      [] p \in {"border-top", "border-right", "border-bottom", "border-left", "outline-top", "outline-right", "outline-bottom", "outline-left"}
            -> (p :> Edge(a, tv))
      [] p = "overflow" -> ("overflow-x" :> a[1]) @@ ("overflow-y" :> Second(a))
      [] p = "scrollbar-size" -> ("scrollbar-size-horizontal" :> a[1]) @@ ("scrollbar-size-vertical" :> Second(a))
      [] p = "content-align" -> ("content-align-horizontal" :> a[1]) @@ ("content-align-vertical" :> a[2])
      [] p = "align" -> ("align-horizontal" :> a[1]) @@ ("align-vertical" :> a[2])
      [] p = "offset" -> ("offset-x" :> a[1]) @@ ("offset-y" :> a[2])
      [] p = "grid-size" -> ("grid-cols" :> a[1]) @@ ("grid-count" :> (IF Len(a) = 1 THEN "-" ELSE a[2]))
      [] p = "grid-gutter" -> ("gutter-v" :> a[1]) @@ ("gutter-h" :> Second(a))
      [] p \in {"grid-columns", "grid-rows", "layers"} -> (p :> Join(a))
      [] p = "hatch" -> (p :> a[1] \o " " \o Colour(a[2], tv) \o " " \o a[3])
      [] p = "keyline" -> (p :> Edge(a, tv))
      \* attributes accumulate; link attributes are replaced
      [] p \in {"text-style", "border-title-style", "border-subtitle-style"} -> [f \in {p \o "." \o x : x \in {y \in Flags : Has(AfterNone(a), y)}} |-> "1"]
      [] p \in {"link-style", "link-style-hover"} ->
            LET on == {p \o "." \o y : y \in {y \in Flags : Has(AfterNone(a), y)}}
            IN [f \in {p \o "." \o x : x \in Flags} |-> IF f \in on THEN "1" ELSE "0"]
      [] OTHER -> None

(* ---- initial values ---- *)
Zero == {"auto-color", "line-pad", "gutter-v", "gutter-h"}
        \cup {x \o y : x \in {"margin", "padding"}, y \in {"-top", "-right", "-bottom", "-left"}}
        \cup {x \o "." \o f : x \in {"text-style", "border-title-style", "border-subtitle-style", "link-style", "link-style-hover"}, f \in Flags}
Special == [x \in {"text-opacity", "opacity", "column-span", "row-span", "scrollbar-size-horizontal"} |-> "1"]
        @@ [x \in {x \o y : x \in {"border", "outline"}, y \in {"-top", "-right", "-bottom", "-left"}} |-> "none -"]
        @@ [x \in {"border-title-align", "content-align-horizontal", "align-horizontal"} |-> "left"]
        @@ [x \in {"content-align-vertical", "align-vertical"} |-> "top"]
        @@ [x \in {"overflow-x", "overflow-y"} |-> "hidden"]
        @@ ("border-subtitle-align" :> "right") @@ ("box-sizing" :> "borderbox") @@ ("text-align" :> "start") @@ ("text-overflow" :> "fold")
        @@ ("text-wrap" :> "wrap") @@ ("display" :> "block") @@ ("visibility" :> "visible") @@ ("layout" :> "vertical") @@ ("position" :> "relative")
        @@ ("scrollbar-size-vertical" :> "2") @@ ("scrollbar-gutter" :> "auto") @@ ("scrollbar-visibility" :> "visible") @@ ("keyline" :> "none 0,0,0,1")
Initial(f) == IF f \in Zero THEN "0" ELSE IF f \in DOMAIN Special THEN Special[f] ELSE "-"

(* ---- the cascade: flat = flattened rules ---- *)
Hits(r, chain, dark) == {i \in 1..Len(r.sel) : Matches(r.sel[i], chain, dark)}
RuleWeight(r, hits) == SetMax({Weight(r.sel[i]) : i \in hits})
RECURSIVE ApplyDecls(_, _, _)
ApplyDecls(st, ds, tv) == IF ds = <<>> THEN st ELSE ApplyDecls(Effect(ds[1], tv) @@ st, Tail(ds), tv)
RECURSIVE ApplyRules(_, _, _, _)
ApplyRules(st, flat, order, tv) == IF order = <<>> THEN st ELSE ApplyRules(ApplyDecls(st, flat[order[1][2]].d, tv), flat, Tail(order), tv)
Order(flat, chain, dark) ==
    LET M == {<<RuleWeight(flat[i], Hits(flat[i], chain, dark)), i>> : i \in {i \in 1..Len(flat) : Hits(flat[i], chain, dark) # {}}}
    IN SetToSortSeq(M, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Cascade(flat, chain, dark, tv) == ApplyRules(None, flat, Order(flat, chain, dark), tv)
Value(st, f) == IF f \in DOMAIN st THEN st[f] ELSE Initial(f)
\* what an observer sees: every field whose value is not the initial one
Visible(st) == {<<f, st[f]>> : f \in {f \in DOMAIN st : st[f] # Initial(f)}}

(* ---- trees: inheritance and inline styles ---- *)
\* ctx: what the parent hands down
\* colours under a widget are <<r, g, b, quarters of opacity>>, or <<>> for none
RootCtx(fg) == [color |-> fg, auto |-> "0", bg |-> <<>>, vis |-> "visible"]
Quarters == <<"0", "0.25", "0.5", "0.75", "1">>
Written(c) == IF c = <<>> THEN "-" ELSE ToString(c[1]) \o "," \o ToString(c[2]) \o "," \o ToString(c[3]) \o "," \o Quarters[c[4] + 1]
\* overlay laid over base; the base keeps its opacity
TintBy(base, ov) == [k \in 1..4 |-> IF k = 4 THEN base[4] ELSE (4 * base[k] + (ov[k] - base[k]) * ov[4]) \div 4]
Beneath(own, tint, above) ==
    IF own = <<>> THEN above
    ELSE LET laid == IF own[4] < 4 /\ above # <<>> THEN TintBy(above, own) ELSE own
         IN IF tint = <<>> THEN laid ELSE TintBy(laid, tint)
Inherit(st, ctx) ==
    (IF "color" \in DOMAIN st THEN None ELSE ("color" :> ctx.color) @@ ("auto-color" :> ctx.auto))
    @@ (IF "visibility" \in DOMAIN st THEN None ELSE ("visibility" :> ctx.vis))
    @@ ("inherited-background" :> Written(ctx.bg)) @@ st
Inline(st, inl) == [f \in {f \in DOMAIN inl : inl[f] # ""} |-> inl[f]] @@ st
Final(flat, chain, dark, tv, inl, ctx) ==
    LET st == Inherit(Cascade(flat, chain, dark, tv), ctx)
        co == IF "color" \in DOMAIN inl /\ inl.color # "" THEN ("auto-color" :> "0") ELSE None
    IN co @@ Inline(st, inl)
\* ct: the numbers behind the colours that occur
CtxOf(st, ctx, ct) == [color |-> Value(st, "color"), auto |-> Value(st, "auto-color"), vis |-> Value(st, "visibility"),
                       bg |-> Beneath(IF Value(st, "background") = "-" THEN <<>> ELSE ct[st["background"]],
                                      IF Value(st, "background-tint") = "-" THEN <<>> ELSE ct[st["background-tint"]], ctx.bg)]
=============================================================================
