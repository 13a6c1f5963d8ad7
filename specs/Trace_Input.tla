----------------------------- MODULE Trace_Input -----------------------------
EXTENDS Input, TraceLib
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1
             /\ value = <<>> /\ cursor = 0 /\ focused = FALSE /\ disabled = FALSE /\ placeholder = <<>>
Do == CASE Op("char") -> Type(Ev.a)
        [] Op("backspace") -> Backspace
        [] Op("delete") -> Delete
        [] Op("left") -> Left
        [] Op("right") -> Right
        [] Op("home") -> Home
        [] Op("end") -> End
        [] Op("other") -> OtherKey
        [] Op("set_value") -> SetValue(Ev.s)
        [] Op("set_cursor") -> SetCursor(Ev.a)
        [] Op("focus") -> SetFocus(Bool(Ev.a))
        [] Op("disable") -> SetDisabled(Bool(Ev.a))
        [] Op("placeholder") -> SetPlaceholder(Ev.s)
Step == /\ Advance
        /\ Ev.panic = 0
        /\ Do
        /\ value' = Ev.value /\ cursor' = Ev.cursor
        /\ Ev.seen = 1 => Row' = Ev.row
Done == AtEnd /\ UNCHANGED <<vars, t, l>>
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, t, l>>
=============================================================================
