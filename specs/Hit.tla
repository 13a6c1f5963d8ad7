-------------------------------- MODULE Hit ---------------------------------
(* What a tree of containers draws where, and which leaf a pointer event at a cell belongs to.
   A container is [id, kind, par, bor, pt, pr, pb, pl, ovx, ovy, sbv, sbh, mincol, kids, body]:
   kids are the children taking part in layout (Layout.tla), body[i+1] what child i is:
   a leaf [p |-> number] or [p |-> 0, node |-> container].
   off[id] is a container's vertical scroll offset. *)
EXTENDS Layout

Reg(p) == [x |-> p.x, y |-> p.y, w |-> p.w, h |-> p.h]
Has(r, px, py) == px >= r.x /\ px < r.x + r.w /\ py >= r.y /\ py < r.y + r.h
Cut(a, b) == LET x == Max(a.x, b.x)  y == Max(a.y, b.y)
             IN  [x |-> x, y |-> y, w |-> Max(0, Min(a.x + a.w, b.x + b.w) - x), h |-> Max(0, Min(a.y + a.h, b.y + b.h) - y)]
Inner(n, r) == [x |-> r.x + n.bor + n.pl, y |-> r.y + n.bor + n.pt,
                w |-> Max(0, r.w - 2 * n.bor - n.pl - n.pr), h |-> Max(0, r.h - 2 * n.bor - n.pt - n.pb)]
VirtW(n, ps, base) == SetMax({0} \cup {ps[k].x - base.x + ps[k].w + ByI(n.kids, ps[k].i).mr : k \in 1..Len(ps)})
VirtH(n, ps, base) == SetMax({0} \cup {ps[k].y - base.y + ps[k].h + ByI(n.kids, ps[k].i).mb : k \in 1..Len(ps)})
Wants(ov, need) == ov = "scroll" \/ (ov = "auto" /\ need)
Shrunk(n, r, v, h) == [r EXCEPT !.w = Max(0, @ - (IF v THEN n.sbv ELSE 0)), !.h = Max(0, @ - (IF h THEN n.sbh ELSE 0))]

Bars(n, r, v, h) ==
    (IF v THEN {[x |-> r.x + Max(0, r.w - n.sbv), y |-> r.y, w |-> Min(n.sbv, r.w), h |-> Max(0, r.h - (IF h THEN n.sbh ELSE 0))]} ELSE {})
    \cup (IF h THEN {[x |-> r.x, y |-> r.y + Max(0, r.h - n.sbh), w |-> Max(0, r.w - (IF v THEN n.sbv ELSE 0)), h |-> Min(n.sbh, r.h)]} ELSE {})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SeqOf(S \ {e})

(* placements of the children before scrolling, the part of the container in which they are visible,
   whether a vertical bar is there, and how far the content reaches down *)
Geometry(n, r, vp) ==
    LET in == Inner(n, r) IN
    IF n.kind \in {"grid", "itemgrid"}
    THEN LET P == IF n.mincol > 0 /\ in.w > 0 THEN [n.par EXCEPT !.cols = Max(1, in.w \div n.mincol)] ELSE n.par
         IN  [ps |-> Align(Grid(n.kids, in, vp, P), n.kids, P, in), content |-> in, v |-> FALSE, bars |-> {}, virt |-> 0]
    ELSE IF n.kind \in {"center", "middle"}
    THEN LET c == n.kids[1]
             w == IF n.kind = "center" THEN Min(c.dw, r.w) ELSE r.w
             h == IF n.kind = "middle" THEN Min(c.dh, r.h) ELSE r.h
         IN  [ps |-> IF n.kids = <<>> THEN <<>> ELSE <<Place(c, r.x + (r.w - w) \div 2, r.y + (r.h - h) \div 2, w, h)>>,
              content |-> r, v |-> FALSE, bars |-> {}, virt |-> 0]
    ELSE LET p0 == Arrange(n.par, n.kids, in, vp)
             v == Wants(n.ovy, VirtH(n, p0, in) > in.h)
             h == Wants(n.ovx, VirtW(n, p0, in) > in.w)
             ct == Shrunk(n, in, v, h)
             \* a pane lays its children out in what the bars leave, the others only beside a vertical bar
             ps == IF n.kind = "pane" THEN Arrange(n.par, n.kids, ct, vp)
                   ELSE IF v /\ ct.w < in.w THEN Arrange(n.par, n.kids, ct, vp) ELSE p0
         IN  [ps |-> ps, content |-> ct, v |-> v, bars |-> Bars(n, in, v, h), virt |-> VirtH(n, ps, ct)]

MaxDown(g) == Max(0, g.virt - g.content.h)
Scrolled(p, dy) == [p EXCEPT !.y = @ - dy]
Seen(p, ct) == p.x + p.w > ct.x /\ p.x < ct.x + ct.w /\ p.y + p.h > ct.y /\ p.y < ct.y + ct.h

RECURSIVE Paint(_, _, _, _, _)
(* leaves and container backgrounds (num 0, or -1 if see-through) in drawing order, each with the clip
   it is drawn under *)
Paint(n, r, clip, off, vp) ==
    IF r.w <= 0 \/ r.h <= 0 THEN <<>> ELSE
    LET g == Geometry(n, r, vp)
        cl == IF n.kind \in {"center", "middle"} THEN clip ELSE Cut(clip, g.content)
        dy == off[n.id]
    IN  <<[num |-> IF n.kind \in {"center", "middle"} \/ (n.kind = "box" /\ n.bor = 0) THEN -1 ELSE 0, r |-> r, clip |-> clip]>> \o
        Flatten([k \in 1..Len(g.ps) |->
            LET p == Scrolled(g.ps[k], dy)
                b == n.body[p.i + 1]
            IN  IF ~Seen(p, g.content) THEN <<>>
                ELSE IF b.p > 0 THEN <<[num |-> b.p, r |-> Reg(p), clip |-> cl]>>
                ELSE Paint(b.node, Reg(p), cl, off, vp)])
        \o [k \in 1..Cardinality(g.bars) |-> [num |-> 0, r |-> SeqOf(g.bars)[k], clip |-> clip]]

(* after drawing, the offset of every container that was drawn fits its content *)
RECURSIVE Settle(_, _, _, _)
Settle(n, r, off, vp) ==
    IF r.w <= 0 \/ r.h <= 0 THEN off ELSE
    LET g == Geometry(n, r, vp)
        o1 == [off EXCEPT ![n.id] = Max(0, Min(@, MaxDown(g)))]
        RECURSIVE Kids(_, _)
        Kids(k, o) == IF k > Len(g.ps) THEN o
                      ELSE LET p == Scrolled(g.ps[k], o1[n.id])
                               b == n.body[p.i + 1]
                           IN  Kids(k + 1, IF b.p = 0 /\ Seen(p, g.content) THEN Settle(b.node, Reg(p), o, vp) ELSE o)
    IN  Kids(1, o1)

(* the last one drawn at a cell is the one that shows, and the one a pointer event is for *)
Cell(list, px, py) ==
    LET at == {k \in 1..Len(list) : Has(list[k].r, px, py) /\ Has(list[k].clip, px, py)}
    IN  IF at = {} THEN 0
        ELSE LET o == list[SetMax(at)] IN IF o.num <= 0 THEN 0 ELSE o.num * 1000000 + (px - o.r.x) * 1000 + (py - o.r.y)

(* a wheel turn is taken by the outermost container under the pointer that scrolls vertically *)
Takes(n, g) == CASE n.kind = "box" -> n.ovy # "hidden"
                 [] n.kind = "screen" -> g.v
                 [] n.kind = "pane" -> n.ovy # "hidden"
                 [] OTHER -> FALSE
Notch(n) == IF n.kind = "pane" THEN 1 ELSE 3
RECURSIVE Turn(_, _, _, _, _, _, _)
Turn(n, r, off, vp, px, py, dir) ==
    IF ~Has(r, px, py) THEN off ELSE
    LET g == Geometry(n, r, vp) IN
    IF Takes(n, g) THEN [off EXCEPT ![n.id] = Max(0, Min(@ + dir * Notch(n), MaxDown(g)))]
    ELSE IF n.kind = "pane" THEN off
    ELSE LET at == {k \in 1..Len(g.ps) : Has(Scrolled(g.ps[k], off[n.id]), px, py)} IN
         IF at = {} \/ ~Has(g.content, px, py) THEN off
         ELSE LET p == Scrolled(g.ps[SetMax(at)], off[n.id])
                  b == n.body[p.i + 1]
              IN  IF b.p > 0 THEN off ELSE Turn(b.node, Reg(p), off, vp, px, py, dir)
=============================================================================
