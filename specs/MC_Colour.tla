----------------------------- MODULE MC_Colour ------------------------------
(* Consequences of the definitions, over a lattice of channel values.        *)
EXTENDS Colour
CONSTANTS Levels, Dens
VARIABLES c, d, n
vars == <<c, d, n>>
Col == {C(r, g, b, a) : r \in Levels, g \in Levels, b \in Levels, a \in {5000, 10000}}
Init == c \in Col /\ d \in Col /\ n \in Dens
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Between(v, x, y) == (x <= v /\ v <= y) \/ (y <= v /\ v <= x)
\* a mixture lies between its ends, reaches them at the ends of the scale
Mixes == LET m == Blend(c, d, n, 16, -1) IN
         /\ \A x \in Chan : Between(m[x], c[x], d[x])
         /\ Blend(c, d, 0, 16, -1) = c /\ Blend(c, d, 16, 16, -1) = d
         /\ \A x \in Chan : Near(m[x], c[x], d[x], n, 16, 1)
Compositing == /\ Over(c, d, 16, 16) = c /\ Over(c, d, 0, 16) = d
               /\ (n < 16 => Over(c, d, n, 16).a = d.a) /\ Sane(Over(c, d, n, 16))
               /\ Toward(c, d, 16, 16) = c /\ Toward(c, d, 0, 16) = d
Inverts == Inverse(Inverse(c)) = c
\* the contrast colour is far from the colour it stands on
Readable == Abs(Bright(Contrast(c)) - Bright(c)) >= 127500
Lights == /\ Light(c) \in 0..100000
          /\ ((\A x \in Chan : c[x] <= d[x]) => Light(c) <= Light(d))
          /\ Shifted(c, c, 0)
          /\ (c.a = d.a /\ Inside(d) /\ Abs(Light(d) - Light(c)) > 4000 => ~Shifted(d, c, 0))
=============================================================================
