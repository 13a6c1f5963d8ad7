---------------------------- MODULE Trace_Ready ----------------------------
EXTENDS Ready, TraceLib
VARIABLE s  \* [kind, variant, frame, visible, title, sub] of the widget of this trace
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ s = [kind |-> "none"]
New == /\ Op("new")
       /\ s' = [kind |-> Ev.kind, variant |-> Ev.variant, frame |-> 0, visible |-> TRUE, title |-> Ev.title, sub |-> Ev.sub,
                label |-> Ev.label, id |-> Ev.id, turn |-> Ev.turn, across |-> Bool(Ev.across)]
\* the region at (ax, ay) shows the picture, nothing is drawn outside it
Shows(out, pic, ax, ay) ==
  \A y \in 1..Len(out) : \A x \in 1..Len(out[y]) :
     out[y][x] = IF y - ay \in 1..Len(pic) /\ x - ax \in 1..Len(pic[1]) THEN pic[y - ay][x - ax] ELSE 0
All(cs, P(_)) == \A i \in 1..Len(cs) : P(cs[i])
DrawPh == /\ s.kind = "placeholder"
          /\ Shows(Ev.out, TLCEval(Placeholder(s.variant, LabelText(s.label, s.id), Ev.pad, Ev.w, Ev.h)), Ev.ax, Ev.ay)
          /\ All(Ev.bgs, LAMBDA c : IF Ev.bg # <<>> THEN c = Ev.bg ELSE HalfOver(c, Palette[(s.turn % 12) + 1], Ev.under))
          /\ All(Ev.inks, LAMBDA c : c = Ev.color)
          /\ Ev.bold \in {2, IF s.variant = "size" THEN 1 ELSE 0}
DrawRuler == s.kind = "ruler" /\ Shows(Ev.out, TLCEval(Ruler(s.across, Ev.w, Ev.h)), Ev.ax, Ev.ay) /\ All(Ev.inks, LAMBDA c : c = Ev.color)
DrawSpin == s.kind = "spinner" /\ Shows(Ev.out, Spinner(s.frame, s.visible, Ev.w, Ev.h), Ev.ax, Ev.ay) /\ All(Ev.inks, LAMBDA c : c = Ev.color)
DrawHeader ==
  /\ s.kind = "header"
  /\ Shows(Ev.out, TLCEval(Header(s.title, s.sub, Ev.w, Ev.h)), Ev.ax, Ev.ay)
  /\ LET d == DimFrom(s.title, s.sub, Ev.w) IN
     TLCEval(\A i \in 1..Ev.w : IF Ev.chars[i] \in {32, 8230} THEN TRUE ELSE Bool(Ev.dim[i]) = (s.sub # <<>> /\ i >= d.from /\ i <= d.to))
Draw == Op("draw") /\ (DrawPh \/ DrawRuler \/ DrawSpin \/ DrawHeader) /\ UNCHANGED s
Press == /\ Op("mouse")
         /\ LET hit == Ev.what = "down" /\ Ev.dx \in 0..(Ev.w - 1) /\ Ev.dy \in 0..(Ev.h - 1)
            IN  /\ s' = IF hit THEN [s EXCEPT !.variant = NextVariant(@)] ELSE s
                /\ Ev.variant = s'.variant /\ Bool(Ev.dirty) = hit
Choose == Op("choose") /\ s' = [s EXCEPT !.variant = Ev.v] /\ Ev.variant = Ev.v /\ Bool(Ev.dirty)
TickOn == Op("tick") /\ s' = [s EXCEPT !.frame = @ + 1] /\ Bool(Ev.dirty)
Show == /\ Op("show") /\ s' = [s EXCEPT !.visible = Bool(Ev.on)]
        /\ Bool(Ev.dirty) = (s.visible # Bool(Ev.on)) /\ Ev.now = Ev.on
Title == Op("title") /\ s' = [s EXCEPT !.title = Ev.text] /\ Ev.now = Ev.text /\ Bool(Ev.dirty)
Subtitle == Op("subtitle") /\ s' = [s EXCEPT !.sub = Ev.text] /\ Ev.now = Ev.text /\ Bool(Ev.dirty)
(* what a placeholder showing its label asks for; rulers and spinners *)
Lines(gs) == Split(gs, Newline)
Wants == /\ Op("wants") /\ UNCHANGED s
         /\ CASE s.kind = "ruler" -> Ev.size = IF s.across THEN <<65535, 1>> ELSE <<1, 65535>>
              [] s.kind = "spinner" -> Ev.size = <<1, 1>>
              [] s.kind = "placeholder" /\ s.variant = "default" ->
                   LET text == LabelText(s.label, s.id) IN
                   /\ Ev.size[1] = IF Ev.cssw >= 0 THEN Ev.cssw ELSE IF Ev.cssw = -2 THEN 65535 ELSE Longest(Lines(text)) + Ev.pad[2] + Ev.pad[4]
                   /\ Ev.size[2] = IF Ev.cssh >= 0 THEN Ev.cssh ELSE IF Ev.cssh = -2 THEN 65535 ELSE Len(Lines(text)) + Ev.pad[1] + Ev.pad[3]
                   /\ Ev.tall = Len(Wrap(text, Hi(1, Ev.forw - Ev.pad[2] - Ev.pad[4]))) + Ev.pad[1] + Ev.pad[3]
              [] OTHER -> TRUE
Step == Advance /\ Ev.panic = 0 /\ (New \/ Draw \/ Press \/ Choose \/ TickOn \/ Show \/ Title \/ Subtitle \/ Wants)
Done == AtEnd /\ UNCHANGED <<t, l, s>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l, s>>
=============================================================================
