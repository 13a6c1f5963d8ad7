-------------------------- MODULE Trace_ScrollState --------------------------
(* The scroll arithmetic on its own (ScrollState), one pane with bare axes.  *)
EXTENDS Scroll, TraceLib
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ c = <<>> /\ drag = NoDrag
             /\ x = Traces[t].x /\ y = Traces[t].y
Quarter(n) == n \div 4           \* scroll_to takes a fraction and rounds down
Do == CASE Op("up") -> y' = By(y, -Ev.a) /\ x' = x
        [] Op("down") -> y' = By(y, Ev.a) /\ x' = x
        [] Op("left") -> x' = By(x, -Ev.a) /\ y' = y
        [] Op("right") -> x' = By(x, Ev.a) /\ y' = y
        [] Op("to") -> /\ x' = (IF Ev.hx = 1 THEN Clamped(x, Quarter(Ev.a)) ELSE x)
                       /\ y' = (IF Ev.hy = 1 THEN Clamped(y, Quarter(Ev.b)) ELSE y)
        [] Op("viewport") -> x' = Clamped([x EXCEPT !.view = Ev.a], x.off) /\ y' = Clamped([y EXCEPT !.view = Ev.b], y.off)
        [] Op("virtual") -> x' = Clamped([x EXCEPT !.virt = Ev.a], x.off) /\ y' = Clamped([y EXCEPT !.virt = Ev.b], y.off)
Step == /\ Advance /\ Ev.panic = 0 /\ Do /\ UNCHANGED <<c, drag>>
        /\ x' = Ev.x /\ y' = Ev.y
        /\ Ev.mx = MaxOff(x') /\ Ev.my = MaxOff(y')
        /\ Bool(Ev.canx) = (x'.virt > x'.view) /\ Bool(Ev.cany) = (y'.virt > y'.view)
        \* scroll position as a fraction, in thousandths, rounded down
        /\ Ev.py \in (IF MaxOff(y') = 0 THEN {0} ELSE FloorTol(1000 * y'.off, MaxOff(y')))
        /\ Ev.px \in (IF MaxOff(x') = 0 THEN {0} ELSE FloorTol(1000 * x'.off, MaxOff(x')))
Done == AtEnd /\ UNCHANGED <<vars, t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<vars, t, l>>
=============================================================================
