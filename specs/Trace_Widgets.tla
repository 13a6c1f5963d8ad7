--------------------------- MODULE Trace_Widgets ----------------------------
EXTENDS Widgets, TraceLib
F == [i \in 1..Len(Traces[t].fix) |-> [Traces[t].fix[i] EXCEPT !.emits = Bool(@)]]
Flags(s) == [k \in 1..Len(s) |-> Bool(s[k])]
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ out = Quiet
             /\ w = [i \in 1..Len(Traces[t].fix) |-> NewW(Traces[t].fix[i].kind, Bool(Traces[t].init[i].value), Flags(Traces[t].init[i].items))]
Id(i) == "w" \o ToString(i)
Seen == /\ Ev.acts = out'.acts /\ Ev.left = 0
        /\ IF out'.msg = <<>> THEN Ev.msg = <<>>
           ELSE Len(Ev.msg) = 1 /\ Ev.msg[1].i = out'.msg[1] /\ Ev.msg[1].v = out'.msg[2]
                /\ Ev.msg[1].id = Id(out'.msg[1]) /\ (F[out'.msg[1]].kind = "button" => Ev.msg[1].ty = "Button")
        /\ Ev.picked = IF out'.picked = <<>> THEN <<>> ELSE <<out'.picked>>
        /\ Ev.tip \in Tips(F)'
        /\ \A i \in 1..Len(F) : LET o == Ev.obs[i] s == w'[i] IN
              /\ o.kind = F[i].kind
              /\ o.hover = Bit(s.hover) /\ o.active = Bit(s.active) /\ o.focus = Bit(s.focus)
              /\ (o.kind = "switch" => o.shown = (IF s.focus THEN ">[" ELSE " [") \o
                     (IF s.busy THEN SubSeq(o.shown, 3, 7) ELSE IF s.value THEN "  ON " ELSE " OFF ") \o (IF s.focus THEN " ]<" ELSE " ] "))
              /\ (o.kind = "list" => /\ o.sel = s.sel /\ o.text = 1 /\ o.rows = 1
                                     /\ o.high = IF s.items # <<>> /\ s.items[s.sel + 1] THEN <<s.sel>> ELSE <<>>)
Step == /\ Advance /\ Ev.panic = 0
        /\ CASE Op("down") -> Down(F, Ev.x, Ev.y, Ev.b)
             [] Op("up") -> Up(F, Ev.x, Ev.y, Ev.b)
             [] Op("moved") -> Moved(F, Ev.x, Ev.y)
             [] Op("hand") -> Hand(F, Ev.i, Ev.what, Ev.b, Bool(Ev["in"]))
             [] Op("drag") -> Other
             [] Op("nop") -> Other
             [] Op("focus") -> Focus(F, Ev.i)
             [] Op("key") -> Key(F, Ev.k)
             [] Op("on") -> SetOn(Ev.i, Bool(Ev.v))
             [] Op("busy") -> SetBusy(Ev.i, Bool(Ev.v))
             [] Op("value") -> SetValue(Ev.i, Bool(Ev.v))
             [] Op("sel") -> SetSel(Ev.i, Ev.n)
             [] Op("items") -> SetItems(Ev.i, Flags(Ev.it))
        /\ Seen
Done == AtEnd /\ UNCHANGED <<w, out, t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<w, out, t, l>>
=============================================================================
