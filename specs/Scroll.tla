------------------------------- MODULE Scroll -------------------------------
(* Scrolling.  An axis is [off, virt, view]: scroll offset, content length,  *)
(* visible length.  A pane has two axes, two optional scroll bars and at     *)
(* most one scroll-bar drag in progress.                                     *)
EXTENDS Bar

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

MaxOff(a) == Max2(0, a.virt - a.view)
Clamped(a, o) == [a EXCEPT !.off = Max2(0, Min2(o, MaxOff(a)))]
By(a, d) == Clamped(a, a.off + d)
PageOf(a) == (9 * a.view) \div 10
InBounds(a) == a.off >= 0 /\ a.off <= MaxOff(a)

\* the thumb in whole cells: <<first, past last>>
Thumbs(n, a) == Grips(n, a.virt, a.view, a.off)

VARIABLES c, x, y, drag
vars == <<c, x, y, drag>>
NoDrag == <<>>

\* c: [W, H: inner size; cw, ch: content size; ovx, ovy: "auto" | "scroll" | "hidden";
\*     sbv, sbh: bar thickness; vis: 1 iff bars are drawn; kind: "pane" | "screen" | "container" -
\*     a screen and a container leave keys to their children, and a container's bars only show]
\* gut: 1 iff the room of the vertical bar is kept free whether or not it shows
Kept(k, f) == f[2] \/ (k.gut = 1 /\ k.ovy = "auto")
Need(ov, need) == ov = "scroll" \/ (ov = "auto" /\ need)
FlagsStep(k, f) == <<Need(k.ovx, k.cw > Max2(0, k.W - (IF Kept(k, f) THEN k.sbv ELSE 0))),
                     Need(k.ovy, k.ch > Max2(0, k.H - (IF f[1] THEN k.sbh ELSE 0)))>>
\* <<horizontal bar, vertical bar>>: the least solution
Flags(k) == LET f0 == <<FALSE, FALSE>>  f1 == FlagsStep(k, f0)  f2 == FlagsStep(k, f1) IN FlagsStep(k, f2)
ViewW(k) == Max2(0, k.W - (IF Kept(k, Flags(k)) THEN k.sbv ELSE 0))
ViewH(k) == Max2(0, k.H - (IF Flags(k)[1] THEN k.sbh ELSE 0))

\* New geometry: the offset survives as far as the new bounds allow.  (When content and window shrink
\* together the code may clamp against the intermediate geometry first.)
Refit(a, virt, view) ==
  LET n == [off |-> a.off, virt |-> virt, view |-> view]
      mid == Clamped([a EXCEPT !.virt = virt], a.off).off
  IN {Clamped(n, a.off), Clamped(n, mid)}

Configure(k) ==
  /\ c' = k /\ UNCHANGED drag
  /\ x' \in Refit(x, k.cw, ViewW(k))
  /\ y' \in Refit(y, k.ch, ViewH(k))

CanX == c.ovx # "hidden"
CanY == c.ovy # "hidden"
MoveX(d) == x' = (IF CanX THEN By(x, d) ELSE x) /\ UNCHANGED <<c, y, drag>>
MoveY(d) == y' = (IF CanY THEN By(y, d) ELSE y) /\ UNCHANGED <<c, x, drag>>
JumpHome == x' = (IF CanX THEN Clamped(x, 0) ELSE x) /\ y' = (IF CanY THEN Clamped(y, 0) ELSE y) /\ UNCHANGED <<c, drag>>
JumpEnd  == x' = (IF CanX THEN Clamped(x, MaxOff(x)) ELSE x) /\ y' = (IF CanY THEN Clamped(y, MaxOff(y)) ELSE y) /\ UNCHANGED <<c, drag>>

Key(k) == CASE c.kind # "pane" -> UNCHANGED vars
            [] k = "up" -> MoveY(-1)
            [] k = "down" -> MoveY(1)
            [] k = "left" -> MoveX(-1)
            [] k = "right" -> MoveX(1)
            [] k = "pageup" -> MoveY(-PageOf(y))
            [] k = "pagedown" -> MoveY(PageOf(y))
            [] k = "home" -> JumpHome
            [] k = "end" -> JumpEnd
            [] OTHER -> UNCHANGED vars

\* mod = 1: shift or control held, which turns the wheel sideways
Notch == IF c.kind = "pane" THEN 1 ELSE 3
Wheel(k, mod) == CASE c.kind = "container" /\ k \in {"wheelleft", "wheelright"} -> UNCHANGED vars
                   [] k = "wheeldown" -> IF mod = 1 /\ c.kind # "container" THEN MoveX(Notch) ELSE MoveY(Notch)
                   [] k = "wheelup" -> IF mod = 1 /\ c.kind # "container" THEN MoveX(-Notch) ELSE MoveY(-Notch)
                   [] k = "wheelleft" -> MoveX(-Notch)
                   [] k = "wheelright" -> MoveX(Notch)

VBar == c.vis = 1 /\ Flags(c)[2] /\ c.sbv > 0
HBar == c.vis = 1 /\ Flags(c)[1] /\ c.sbh > 0
VTrack == Max2(0, c.H - (IF Flags(c)[1] THEN c.sbh ELSE 0))
HTrack == Max2(0, c.W - (IF Flags(c)[2] THEN c.sbv ELSE 0))
\* mx, my relative to the pane's inner top-left corner
OnV(mx, my) == VBar /\ mx >= c.W - c.sbv /\ mx < c.W /\ my >= 0 /\ my < VTrack
OnH(mx, my) == HBar /\ my >= c.H - c.sbh /\ my < c.H /\ mx >= 0 /\ mx < HTrack

\* where a press on a bar of n cells at cell p leads
PressV(p) == \E th \in Thumbs(VTrack, y) :
               IF p >= th[1] /\ p < th[2] THEN drag' = <<"v", p - th[1]>> /\ UNCHANGED <<c, x, y>>
               ELSE IF p < th[1] THEN y' = By(y, -PageOf(y)) /\ UNCHANGED <<c, x, drag>>
               ELSE y' = By(y, PageOf(y)) /\ UNCHANGED <<c, x, drag>>
PressH(p) == \E th \in Thumbs(HTrack, x) :
               IF p >= th[1] /\ p < th[2] THEN drag' = <<"h", p - th[1]>> /\ UNCHANGED <<c, x, y>>
               ELSE IF p < th[1] THEN x' = By(x, -PageOf(x)) /\ UNCHANGED <<c, y, drag>>
               ELSE x' = By(x, PageOf(x)) /\ UNCHANGED <<c, y, drag>>
Press(mx, my) == IF c.kind = "container" THEN UNCHANGED vars ELSE IF OnV(mx, my) THEN PressV(my) ELSE IF OnH(mx, my) THEN PressH(mx) ELSE UNCHANGED vars

\* the thumb follows the pointer: thumb start p of n cells <-> offset p * virt / n
DragTargets(n, a, p) == {Clamped(a, o) : o \in FloorTol(p * a.virt, n)}
Pull(mx, my) ==
  IF drag = NoDrag THEN UNCHANGED vars
  ELSE IF drag[1] = "v"
  THEN /\ (IF y.view < y.virt /\ VTrack > 0 THEN y' \in DragTargets(VTrack, y, my - drag[2]) ELSE y' = y)
       /\ UNCHANGED <<c, x, drag>>
  ELSE /\ (IF x.view < x.virt /\ HTrack > 0 THEN x' \in DragTargets(HTrack, x, mx - drag[2]) ELSE x' = x)
       /\ UNCHANGED <<c, y, drag>>
\* the bar the pointer rests on: a move sets it, unless a thumb is being dragged
HoverAfter(h, mx, my) == IF drag # NoDrag \/ c.kind = "container" THEN h ELSE IF OnV(mx, my) THEN "v" ELSE IF OnH(mx, my) THEN "h" ELSE ""
BarState(h, bar) == IF drag # NoDrag /\ drag[1] = bar THEN "grab" ELSE IF h = bar THEN "hover" ELSE "normal"
Release == drag' = NoDrag /\ UNCHANGED <<c, x, y>>

\* What is visible: <<left, top, width, height, first content column, first content row>> or nothing.
Visible == LET w == Min2(x.view, x.virt - x.off)  h == Min2(y.view, y.virt - y.off) IN
           IF w <= 0 \/ h <= 0 THEN <<>> ELSE <<0, 0, w, h, x.off, y.off>>

OffsetsInBounds == InBounds(x) /\ InBounds(y)
\* an axis that may not scroll never leaves its start
HiddenStays == [][(~CanX /\ c' = c => x'.off = x.off) /\ (~CanY /\ c' = c => y'.off = y.off)]_vars
=============================================================================
