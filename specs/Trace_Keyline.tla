--------------------------- MODULE Trace_Keyline ---------------------------
EXTENDS Keyline, TraceLib
TraceInit == t \in 1..Len(Traces) /\ l = 1
Blank(row) == \A x \in 1..Len(row) : row[x] = 0
(* the region at (ax, ay) of the canvas shows the picture, everything else is untouched *)
Shows(out, pic, ax, ay, w, h) ==
    \A y \in 1..Len(out) :
        IF y - ay \notin 1..h THEN Blank(out[y])
        ELSE \A x \in 1..Len(out[y]) : out[y][x] = IF x - ax \in 1..w THEN pic[y - ay][x - ax] ELSE 0
Outside(out, ax, ay, w, h) ==
    \A y \in 1..Len(out) : IF y - ay \notin 1..h THEN Blank(out[y])
                            ELSE \A x \in 1..Len(out[y]) : x - ax \in 1..w \/ out[y][x] = 0
Draw == /\ Op("draw")
        /\ \/ Ev.lay = "grid" /\ Ev.line # 0 /\ ~Fits(Ev.par, Ev.kids, Ev.w, Ev.h)
              /\ Outside(Ev.out, Ev.ax, Ev.ay, Ev.w, Ev.h)
           \/ LET lines == IF Ev.line = 0 /\ Ev.lay = "grid"
                           THEN Picture({}, Grid(Ev.kids, [x |-> 0, y |-> 0, w |-> Ev.w, h |-> Ev.h], Ev.vp, Ev.par), 1, Ev.w, Ev.h)
                           ELSE Drawn(Ev.lay, Ev.par, Ev.kids, Ev.line, Ev.w, Ev.h, Ev.vp)
                  pic == TLCEval(lines)
              IN  Shows(Ev.out, pic, Ev.ax, Ev.ay, Ev.w, Ev.h)
Joined == /\ Op("boxes")
          /\ LET E == TLCEval(Boxes(Ev.boxes))
                 pic == TLCEval(Picture(E, <<>>, Ev.line, Ev.w, Ev.h))
             IN  Shows(Ev.out, pic, Ev.ax, Ev.ay, Ev.w, Ev.h)
Table == /\ Op("glyphs")
         /\ \A k \in 1..Len(Ev.out) :
              LET q == <<Ev.out[k][1], Ev.out[k][2], Ev.out[k][3], Ev.out[k][4]>>
                  g == Ev.out[k][5]
              IN  IF Must(q) THEN g = Glyph(q) ELSE g \in {0, Glyph(q)}
Step == Advance /\ Ev.panic = 0 /\ (Draw \/ Joined \/ Table)
Done == AtEnd /\ UNCHANGED <<t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l>>
=============================================================================
