---------------------------- MODULE Trace_Scroll ----------------------------
EXTENDS Scroll, TraceLib
VARIABLE hov
C0 == Traces[t].cfg
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ c = C0 /\ drag = NoDrag /\ hov = ""
             /\ x = [off |-> 0, virt |-> C0.cw, view |-> ViewW(C0)]
             /\ y = [off |-> 0, virt |-> C0.ch, view |-> ViewH(C0)]
Do == CASE Op("show") -> UNCHANGED vars
        [] Op("config") -> Configure(Ev.cfg)
        [] Op("key") -> Key(Ev.k)
        [] Op("wheel") -> Wheel(Ev.k, Ev.mod)
        [] Op("down") -> Press(Ev.mx, Ev.my)
        [] Op("drag") -> Pull(Ev.mx, Ev.my)
        [] Op("move") -> Pull(Ev.mx, Ev.my)
        [] Op("up") -> Release
        [] Op("leave") -> UNCHANGED vars
\* a bar as drawn: its thumb, and the colours of its state
Plain == <<TRUE, TRUE, TRUE>>
BarOk(o, n, a, st) == /\ o.bad = 0 /\ o.look \in Looks(n, a.virt, a.view, a.off, FALSE)
                      /\ (o.tc # -1 => o.tc = Tint(Plain, st)) /\ (o.bc # -1 => o.bc = Tint(Plain, st))
VState == BarState(hov, "v")
HState == BarState(hov, "h")
BarsShown == /\ (VBar' /\ VTrack' > 0 => BarOk(Ev.v, VTrack', y', VState'))
             /\ (HBar' /\ HTrack' > 0 => BarOk(Ev.h, HTrack', x', HState'))
             /\ (VBar' /\ HBar' /\ c.kind # "container" => Ev.corner = 1)
Step == /\ Advance /\ Ev.panic = 0
        /\ Do
        \* a screen fills the terminal: the pointer leaves its bars by moving on it
        /\ hov' \in IF Op("move") THEN {HoverAfter(hov, Ev.mx, Ev.my)} ELSE IF Op("leave") THEN {""} \cup (IF c.kind = "screen" THEN {hov} ELSE {}) ELSE {hov}
        /\ Ev.seen = Visible'
        /\ Bool(Ev.vbar) = VBar' /\ Bool(Ev.hbar) = HBar'
        /\ BarsShown
Done == AtEnd /\ UNCHANGED <<vars, hov, t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<vars, hov, t, l>>
=============================================================================
