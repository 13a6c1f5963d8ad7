----------------------------- MODULE Trace_Loop -----------------------------
EXTENDS Loop, TraceLib
VARIABLE s
Cf == LET k == Traces[t].cfg IN [k EXCEPT !.cells = [i \in 1..Len(@) |-> [can |-> @[i].can = 1, tip |-> @[i].tip = 1]]]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ s = Start(Cf, Traces[t].w, Traces[t].h, Cf.af)
Tips == Cf.delay = 0
Running == Ev.m = [alt |-> 1, cur |-> 0, mouse |-> 1, raw |-> 1]
Restored == Ev.m = [alt |-> 0, cur |-> 1, mouse |-> 0, raw |-> 0]
\* highlight reports of the palette are another property's matter
Plain(x) == SubSeq(x, 1, 2) # "h:"
Heard(log) == SelectSeq(Ev.log, Plain) = log
\* the tooltip's text: below the pointer, centred under it as far as the screen's left edge allows
TipWidth(i) == 5 + Len(ToString(i)) + 4
TipLeft(q) == LET x == q.px - TipWidth(q.tip) \div 2 IN IF x < 0 THEN 0 ELSE x
\* a tooltip that a smaller terminal no longer holds whole is cut in a way that is not looked at
TipWhole(q) == TipLeft(q) + TipWidth(q.tip) <= q.w /\ q.py + 4 <= q.h
TipSeen(q) == IF q.tip = 0 THEN Ev.scr.tip = <<>> /\ Ev.scr.stray = 0
              ELSE Ev.scr.tip = <<q.tip, TipLeft(q) + 2, q.py + 2>> /\ Ev.scr.stray = 0
Seen(q) == q.open \/ (q.tip # 0 /\ ~TipWhole(q)) \/ (/\ Ev.scr.rows = Screen(Cf, q) /\ TipSeen(q))
Goes(r) == s' = r.s /\ Heard(r.log) /\ Running /\ Seen(r.s) /\ Ev.bell = r.s.bell
Does ==
    CASE Op("refused") -> s' = s /\ Restored /\ Heard((IF Cf.rt = 3 THEN <<>> ELSE <<"z:" \o ToString(s.w) \o ":" \o ToString(s.h)>>) \o <<"end:err">>)
      [] Op("start") -> LET r == Posted(Cf, [s |-> Turn(Cf, s), log |-> <<"z:" \o ToString(s.w) \o ":" \o ToString(s.h), "mount">>], IF Cf.mount = 1 THEN <<1>> ELSE <<>>) IN Goes(r)
      [] Op("keys") -> Goes(Keys(Cf, [s |-> s, log |-> <<>>], Ev.ks))
      [] Op("mouse") -> Goes(Pointer(Cf, s, Ev.k, Ev.x, Ev.y, Tips))
      [] Op("size") -> Goes(Resize(Cf, s, Ev.w, Ev.h))
      [] Op("chord") -> Goes(Chord(Cf, s, {Ev.mods[i] : i \in 1..Len(Ev.mods)}, Ev.key))
      [] Op("palette") -> Goes(Close(Cf, s, Ev.how))
      [] Op("quit") -> LET r == Keys(Cf, [s |-> s, log |-> <<>>], <<Ev.how>>) IN
                       s' = r.s /\ r.s.quit /\ Heard(r.log \o <<"end:ok">>) /\ Restored /\ Ev.bell = r.s.bell
      [] Op("inside") -> s' = s /\ s.open
Step == /\ Advance /\ (~Op("inside") => Ev.late = 0 /\ Ev.odd = 0)
        /\ Does
Done == AtEnd /\ UNCHANGED <<t, l, s>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l, s>>
=============================================================================
