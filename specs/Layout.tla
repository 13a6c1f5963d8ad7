------------------------------- MODULE Layout -------------------------------
(* Arrangement of the children of a container: vertical, horizontal and grid layout, docking,
   alignment, relative offsets, absolute children and layers.  All arithmetic is exact: sizes
   that the code keeps as fractions of a cell are kept here as integers over a common scale. *)
EXTENDS Integers, Sequences, FiniteSets

FILL == 65535
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Trunc(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
RoundPct(v, n) == (2 * v * n + 100) \div 200          \* v percent of n, nearest, halves up
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
Filter(s, P(_)) == SelectSeq(s, P)

(* v in cells ("c"), percent ("p") of the parent, viewport units ("vw", "vh"), parent units ("w", "h"), "fr" (v in halves),
   "auto" or absent ("none") *)
Intrinsic(c, w) == IF c.area = 0 THEN c.ih ELSE (c.area + Max(w, 1) - 1) \div Max(w, 1)
BoxW(c) == IF c.cb = 1 THEN c.chw ELSE 0
BoxH(c) == IF c.cb = 1 THEN c.chh ELSE 0

(* hundredths of a cell denoted by a length, base = the parent's size on that axis *)
Pct100(s, base, vp) == CASE s.u = "c" -> 100 * s.v
                         [] s.u = "p" -> s.v * base
                         [] s.u = "vw" -> s.v * vp.w
                         [] s.u = "vh" -> s.v * vp.h
                         [] s.u = "w" -> s.v * vp.pw
                         [] s.u = "h" -> s.v * vp.ph
(* "w" and "h" are percentages of the parent's width and height, on either axis *)
Within(vp, p) == [w |-> vp.w, h |-> vp.h, pw |-> p.w, ph |-> p.h]
ClampInt(x, mn, mx, base, vp) ==
    LET y == IF mx.u = "none" THEN x ELSE Min(x, Pct100(mx, base, vp) \div 100)
    IN  IF mn.u = "none" THEN y ELSE Max(y, Pct100(mn, base, vp) \div 100)
Clamp100(x, mn, mx, base, vp, k) ==
    LET y == IF mx.u = "none" THEN x ELSE Min(x, k * Pct100(mx, base, vp))
    IN  IF mn.u = "none" THEN y ELSE Max(y, k * Pct100(mn, base, vp))

Place(c, x, y, w, h) == [i |-> c.i, x |-> x, y |-> y, w |-> w, h |-> h]

-----------------------------------------------------------------------------
(* Adjacent margins collapse: the gap is the larger of the two. *)
Gap(cs, k, before(_), after(_)) ==
    IF k = 1 THEN before(cs[1]) ELSE Max(0, before(cs[k]) - after(cs[k - 1]))
Margins(cs, before(_), after(_)) ==
    Sum([k \in 1..Len(cs) |-> Gap(cs, k, before, after) + after(cs[k])])
MT(c) == c.mt
MB(c) == c.mb
ML(c) == c.ml
MR(c) == c.mr

-----------------------------------------------------------------------------
(* Vertical *)
VWidth(c, av, vp) ==
    LET m == c.ml + c.mr
        w == CASE c.w.u = "none" -> Max(0, av.w - m)
               [] c.w.u = "fr" -> Max(0, av.w - m)
               [] c.w.u = "c" -> c.w.v
               [] c.w.u = "auto" -> c.dw
               [] c.w.u = "p" -> Max(0, RoundPct(c.w.v, av.w) - m)
               [] c.w.u = "vw" -> Max(0, RoundPct(c.w.v, vp.w) - m)
               [] c.w.u = "vh" -> Max(0, RoundPct(c.w.v, vp.h) - m)
               [] c.w.u = "w" -> Max(0, RoundPct(c.w.v, av.w) - m)
               [] c.w.u = "h" -> Max(0, RoundPct(c.w.v, av.h) - m)
    IN  ClampInt(w, c.minw, c.maxw, av.w, vp)
VShares(c) == c.h.u = "fr" \/ (c.h.u = "none" /\ c.dh = FILL)
VFr(c) == IF c.h.u = "fr" THEN c.h.v ELSE 2
VFixed100(c, av, vp) ==        \* height in hundredths of a child that takes no share
    LET raw == CASE c.h.u = "none" -> 100 * c.dh
                 [] c.h.u = "auto" -> 100 * Intrinsic(c, VWidth(c, av, vp))
                 [] c.h.u = "c" -> 100 * (c.h.v + BoxH(c))
                 [] c.h.u \in {"p", "h"} -> Max(0, c.h.v * av.h - 100 * (c.mt + c.mb))
                 [] c.h.u = "vw" -> c.h.v * vp.w
                 [] c.h.u = "vh" -> c.h.v * vp.h
    IN  Clamp100(raw, c.minh, c.maxh, av.h, vp, 1)
Vertical(cs, av, vp) ==
    LET n == Len(cs)
        tf == Max(1, Sum([k \in 1..n |-> IF VShares(cs[k]) THEN VFr(cs[k]) ELSE 0]))
        scale == 100 * tf
        rest == Max(0, 100 * av.h - 100 * Margins(cs, MT, MB)
                     - Sum([k \in 1..n |-> IF VShares(cs[k]) THEN 0 ELSE VFixed100(cs[k], av, vp)]))
        \* one fr is an equal part of what is left, or one cell if nothing is left
        hgt == [k \in 1..n |->
                  IF VShares(cs[k])
                  THEN Clamp100(IF rest > 0 THEN VFr(cs[k]) * rest ELSE (VFr(cs[k]) * scale) \div 2,
                                cs[k].minh, cs[k].maxh, av.h, vp, tf)
                  ELSE tf * VFixed100(cs[k], av, vp)]
        top == [k \in 1..n |-> scale * (av.y + SumTo([j \in 1..n |-> Gap(cs, j, MT, MB)], k)
                                             + SumTo([j \in 1..n |-> cs[j].mb], k - 1))
                               + SumTo(hgt, k - 1)]
    IN  [k \in 1..n |-> Place(cs[k], av.x + cs[k].ml, top[k] \div scale, VWidth(cs[k], av, vp),
                              Max(0, (top[k] + hgt[k]) \div scale - top[k] \div scale))]

-----------------------------------------------------------------------------
(* Horizontal *)
HShares(c) == c.w.u = "fr" \/ (c.w.u \in {"none", "auto"} /\ c.dw = FILL)
HFr(c) == IF c.w.u = "fr" THEN c.w.v ELSE 2
HRaw100(c, av, vp) ==
    IF HShares(c) THEN 0
    ELSE IF c.w.u \in {"none", "auto"} THEN 100 * c.dw
    ELSE Pct100(c.w, av.w, vp) + 100 * BoxW(c)
HHeight(c, w, av, vp) ==
    LET m == c.mt + c.mb
        h == CASE c.h.u = "none" -> Max(0, av.h - m)
               [] c.h.u = "fr" -> Max(0, av.h - m)
               [] c.h.u = "auto" -> Intrinsic(c, w)
               [] c.h.u = "c" -> c.h.v + BoxH(c)
               [] OTHER -> Max(0, Pct100(c.h, av.h, vp) \div 100 + BoxH(c) - m)
    IN  ClampInt(h, c.minh, c.maxh, av.h, vp)
Horizontal(cs, av, vp) ==
    LET n == Len(cs)
        raw == [k \in 1..n |-> HRaw100(cs[k], av, vp)]
        \* fractions of a cell are carried to the next child, so that they add up
        fixed == [k \in 1..n |-> ClampInt(SumTo(raw, k) \div 100 - SumTo(raw, k - 1) \div 100,
                                          cs[k].minw, cs[k].maxw, av.w, vp)]
        fr == [k \in 1..n |-> IF HShares(cs[k]) THEN HFr(cs[k]) ELSE 0]
        tf == Max(1, Sum(fr))
        rest == Max(0, av.w - Margins(cs, ML, MR)
                       - Sum([k \in 1..n |-> IF HShares(cs[k]) THEN 0 ELSE fixed[k]]))
        share == [k \in 1..n |-> (rest * fr[k]) \div tf]
        left == rest - Sum(share)                   \* spare cells go to the first sharers
        rank(k) == Cardinality({j \in 1..k : HShares(cs[j])})
        wid == [k \in 1..n |->
                  IF HShares(cs[k])
                  THEN ClampInt(share[k] + (IF rank(k) <= left THEN 1 ELSE 0),
                                cs[k].minw, cs[k].maxw, av.w, vp)
                  ELSE fixed[k]]
        x == [k \in 1..n |-> av.x + SumTo([j \in 1..n |-> Gap(cs, j, ML, MR)], k)
                                  + SumTo([j \in 1..n |-> cs[j].mr + wid[j]], k - 1)]
    IN  [k \in 1..n |-> Place(cs[k], x[k], av.y + cs[k].mt, wid[k], HHeight(cs[k], wid[k], av, vp))]

-----------------------------------------------------------------------------
(* Grid *)
RECURSIVE FirstFit(_, _, _, _, _, _)
FirstFit(used, p, rows, cols, rs, cspan) ==       \* p = row * cols + col, 0-based
    IF p >= rows * cols THEN -1
    ELSE LET r == p \div cols
             c == p % cols
             re == Min(rs, rows - r)
             ce == Min(cspan, cols - c)
             cells == {<<a, b>> : a \in r..(r + re - 1), b \in c..(c + ce - 1)}
         IN  IF cells \cap used = {} THEN p ELSE FirstFit(used, p + 1, rows, cols, rs, cspan)
(* every child in turn takes the next free place, scanning forward; spans are cut at the edge *)
RECURSIVE Cells(_, _, _, _, _)
Cells(cs, used, p, rows, cols) ==
    IF cs = <<>> THEN <<>>
    ELSE LET c == cs[1]
             q == FirstFit(used, p, rows, cols, c.rs, c.cs)
         IN  IF q = -1 THEN <<>>
             ELSE LET r == q \div cols
                      k == q % cols
                      re == Min(c.rs, rows - r)
                      ce == Min(c.cs, cols - k)
                      own == {<<a, b>> : a \in r..(r + re - 1), b \in k..(k + ce - 1)}
                  IN  <<[r |-> r, c |-> k, rs |-> re, cs |-> ce]>>
                      \o Cells(Tail(cs), used \cup own, q + 1, rows, cols)
GridCols(P) == IF P.cols = 0 THEN 1 ELSE P.cols
GridRows(P, cs) ==
    IF P.rows > 0 THEN P.rows
    ELSE LET many == Sum([k \in 1..Len(cs) |-> cs[k].rs])
             a == Cells(cs, {}, 0, many, GridCols(P))
         IN  CHOOSE m \in 0..many : /\ \A k \in 1..Len(a) : a[k].r + a[k].rs <= m
                                    /\ (m = 0 \/ \E k \in 1..Len(a) : a[k].r + a[k].rs = m)
Tracks(specs, n, avail, gut) ==
    LET room == Max(0, avail - (n - 1) * gut)
        sp == [k \in 1..n |-> IF specs = <<>> THEN [u |-> "fr", v |-> 2]
                              ELSE specs[((k - 1) % Len(specs)) + 1]]
        fixed == [k \in 1..n |-> IF sp[k].u \in {"fr", "auto"} THEN 0
                                 ELSE IF sp[k].u = "p" THEN (sp[k].v * room) \div 100 ELSE sp[k].v]
        rest == room - Sum(fixed)
        fr == [k \in 1..n |-> IF sp[k].u = "fr" THEN sp[k].v ELSE 0]
        wt == IF Sum(fr) > 0 THEN fr ELSE [k \in 1..n |-> IF sp[k].u = "auto" THEN 1 ELSE 0]
        tot == Max(1, Sum(wt))
    IN  [k \in 1..n |-> Max(1, IF wt[k] = 0 THEN fixed[k]
                                ELSE (rest * SumTo(wt, k)) \div tot - (rest * SumTo(wt, k - 1)) \div tot)]
ContentTracks(content, avail, gut) ==
    LET n == Len(content)
        room == avail - (n - 1) * gut
        total == Sum(content)
    IN  [k \in 1..n |-> Max(1, IF total <= room THEN content[k] ELSE IF total = 0 THEN 1 ELSE Trunc(content[k] * room, total))]
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
Span(tr, gut, at, n) == SumTo(tr, at + n) - SumTo(tr, at) + (n - 1) * gut
(* which cells each child has, and how wide the columns and high the rows are *)
GridTracks(cs, av, P) ==
    LET cols == GridCols(P)
        rows == GridRows(P, cs)
        cell == Cells(cs, {}, 0, rows, cols)
        n == Len(cell)
        ctr == IF P.autow = 1 /\ P.colspecs = <<>>
               THEN ContentTracks([c \in 1..cols |-> SetMax({cs[k].dw : k \in {j \in 1..n : cell[j].c = c - 1 /\ cell[j].cs = 1}})], av.w, P.guth)
               ELSE Tracks(P.colspecs, cols, av.w, P.guth)
        rtr == IF P.autoh = 1 /\ P.rowspecs = <<>>
               THEN ContentTracks([r \in 1..rows |-> SetMax({cs[k].dh : k \in {j \in 1..n : cell[j].r = r - 1 /\ cell[j].rs = 1}})], av.h, P.gutv)
               ELSE Tracks(P.rowspecs, rows, av.h, P.gutv)
    IN  [cell |-> cell, ctr |-> ctr, rtr |-> rtr]
Grid(cs, av, vp, P) ==
    IF cs = <<>> THEN <<>> ELSE
    LET tr == GridTracks(cs, av, P)
        cell == tr.cell
        ctr == tr.ctr
        rtr == tr.rtr
        n == Len(cell)
        one(k) ==
          LET c == cs[k]
              cw == Span(ctr, P.guth, cell[k].c, cell[k].cs)
              ch == Span(rtr, P.gutv, cell[k].r, cell[k].rs)
              mw == c.ml + c.mr
              mh == c.mt + c.mb
              w0 == CASE c.w.u \in {"none", "fr"} -> cw
                      [] c.w.u = "c" -> c.w.v + mw
                      [] c.w.u = "auto" -> c.dw + mw
                      [] c.w.u = "p" -> RoundPct(c.w.v, cw)
              w == Max(0, Min(w0, cw) - mw)
              h0 == CASE c.h.u \in {"none", "fr"} -> ch
                      [] c.h.u = "c" -> c.h.v + mh
                      [] c.h.u = "auto" -> Intrinsic(c, w) + mh
                      [] c.h.u = "p" -> RoundPct(c.h.v, ch)
          IN  Place(c, av.x + SumTo(ctr, cell[k].c) + cell[k].c * P.guth + c.ml,
                       av.y + SumTo(rtr, cell[k].r) + cell[k].r * P.gutv + c.mt,
                       w, Max(0, Min(h0, ch) - mh))
    IN  [k \in 1..n |-> one(k)]

-----------------------------------------------------------------------------
(* Docking, alignment, offsets, absolute children, layers *)
ByI(cs, i) == cs[CHOOSE k \in 1..Len(cs) : cs[k].i = i]
Docked(ds, av) ==
    [k \in 1..Len(ds) |->
        LET d == ds[k] IN
        CASE d.dock = "top" -> Place(d, av.x, av.y, av.w, d.dh)
          [] d.dock = "bottom" -> Place(d, av.x, av.y + av.h - d.dh, av.w, d.dh)
          [] d.dock = "left" -> Place(d, av.x, av.y, d.dw, av.h)
          [] d.dock = "right" -> Place(d, av.x + av.w - d.dw, av.y, d.dw, av.h)]
Content(ds, av) ==
    LET side(s) == {k \in 1..Len(ds) : ds[k].dock = s}
        t == SetMax({ds[k].dh : k \in side("top")})
        b == SetMax({ds[k].dh : k \in side("bottom")})
        l == SetMax({ds[k].dw : k \in side("left")})
        r == SetMax({ds[k].dw : k \in side("right")})
    IN  [x |-> av.x + l, y |-> av.y + t, w |-> Max(0, av.w - l - r), h |-> Max(0, av.h - t - b)]
SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x
Shift(p, dx, dy) == [p EXCEPT !.x = @ + dx, !.y = @ + dy]
Align(ps, cs, P, av) ==
    IF ps = <<>> THEN ps ELSE
    LET I == 1..Len(ps)
        c(k) == ByI(cs, ps[k].i)
        bw == SetMax({ps[k].x + ps[k].w + c(k).mr : k \in I}) - SetMin({ps[k].x - c(k).ml : k \in I})
        bh == SetMax({ps[k].y + ps[k].h + c(k).mb : k \in I}) - SetMin({ps[k].y - c(k).mt : k \in I})
        fx == Max(0, av.w - bw)
        fy == Max(0, av.h - bh)
        dx == CASE P.ha = "left" -> 0 [] P.ha = "center" -> fx \div 2 [] P.ha = "right" -> fx
        dy == CASE P.va = "top" -> 0 [] P.va = "middle" -> fy \div 2 [] P.va = "bottom" -> fy
    IN  [k \in I |-> Shift(ps[k], dx, dy)]
OffsetBy(s, own, vp) == IF s.u = "none" THEN 0 ELSE Trunc(Pct100(s, own, vp), 100)
Offset(ps, cs, vp) ==
    [k \in 1..Len(ps) |-> LET c == ByI(cs, ps[k].i)
                          IN  Shift(ps[k], OffsetBy(c.ox, ps[k].w, Within(vp, ps[k])), OffsetBy(c.oy, ps[k].h, Within(vp, ps[k])))]
Absolute(c, av, vp) ==
    LET w0 == CASE c.w.u = "none" -> (IF c.dw = FILL THEN av.w ELSE c.dw)
                [] c.w.u = "auto" -> (IF c.dw = FILL THEN av.w ELSE c.dw) + BoxW(c)
                [] c.w.u = "fr" -> av.w + BoxW(c)
                [] c.w.u = "c" -> c.w.v + BoxW(c)
                [] c.w.u = "p" -> RoundPct(c.w.v, av.w) + BoxW(c)
                [] c.w.u = "vw" -> RoundPct(c.w.v, vp.w) + BoxW(c)
                [] c.w.u = "vh" -> RoundPct(c.w.v, vp.h) + BoxW(c)
                [] c.w.u = "w" -> RoundPct(c.w.v, av.w) + BoxW(c)
                [] c.w.u = "h" -> RoundPct(c.w.v, av.h) + BoxW(c)
        w == ClampInt(w0, c.minw, c.maxw, av.w, vp)
        h0 == CASE c.h.u = "none" -> Intrinsic(c, w)
                [] c.h.u = "auto" -> Intrinsic(c, w) + BoxH(c)
                [] c.h.u = "fr" -> av.h + BoxH(c)
                [] c.h.u = "c" -> c.h.v + BoxH(c)
                [] c.h.u = "p" -> RoundPct(c.h.v, av.h) + BoxH(c)
                [] c.h.u = "vw" -> RoundPct(c.h.v, vp.w) + BoxH(c)
                [] c.h.u = "vh" -> RoundPct(c.h.v, vp.h) + BoxH(c)
                [] c.h.u = "w" -> RoundPct(c.h.v, av.w) + BoxH(c)
                [] c.h.u = "h" -> RoundPct(c.h.v, av.h) + BoxH(c)
    IN  Place(c, av.x, av.y, w, ClampInt(h0, c.minh, c.maxh, av.h, vp))

ArrangeLayer(P, cs, av, vp) ==
    LET ds == SelectSeq(cs, LAMBDA c : c.dock # "none")
        as == SelectSeq(cs, LAMBDA c : c.dock = "none" /\ c.abs = 1)
        fs == SelectSeq(cs, LAMBDA c : c.dock = "none" /\ c.abs = 0)
        reg == Content(ds, av)
        in == Within(vp, reg)
        flow == CASE P.layout = "vertical" -> Vertical(fs, reg, in)
                  [] P.layout = "horizontal" -> Horizontal(fs, reg, in)
                  [] P.layout = "grid" -> Grid(fs, reg, in, P)
    IN  Offset(Docked(ds, av), cs, vp) \o Offset(Align(flow, fs, P, reg), cs, vp)
        \o Offset([k \in 1..Len(as) |-> Absolute(as[k], reg, in)], cs, vp)

LayerOf(c) == IF c.layer = "" THEN "default" ELSE c.layer
RECURSIVE FirstSeen(_, _, _)
FirstSeen(cs, declared, seen) ==
    IF cs = <<>> THEN <<>>
    ELSE LET l == LayerOf(cs[1]) IN
         IF l \in declared \cup seen THEN FirstSeen(Tail(cs), declared, seen)
         ELSE <<l>> \o FirstSeen(Tail(cs), declared, seen \cup {l})
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))
(* undeclared layers below, in order of appearance, then the declared ones in their order; every
   layer has the whole region to itself; later placements are drawn over earlier ones *)
Arrange(P, cs, av, vp) ==
    LET declared == IF P.layers = <<>> THEN <<"default">> ELSE P.layers
        order == FirstSeen(cs, {declared[k] : k \in 1..Len(declared)}, {}) \o declared
    IN  Flatten([k \in 1..Len(order) |->
                   LET mine == SelectSeq(cs, LAMBDA c : LayerOf(c) = order[k])
                   IN  IF mine = <<>> THEN <<>> ELSE ArrangeLayer(P, mine, av, vp)])
=============================================================================
