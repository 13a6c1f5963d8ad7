------------------------------ MODULE MC_Strip ------------------------------
EXTENDS Strip
CONSTANT MaxLen
N(g) == <<g, 0, 0, 0, 0, 0>>
W(g) == <<<<g, 1, 0, 0, 0, 0>>, <<g, 2, 0, 0, 0, 0>>>>
Units == {<<N(1)>>, <<N(SP)>>, W(100)}
RECURSIVE Strips(_)
Strips(n) == IF n = 0 THEN {<<>>} ELSE LET r == Strips(n - 1) IN r \cup {x \o y : x \in r, y \in Units}
Init == strip \in {s \in Strips(MaxLen) : Len(s) <= MaxLen}
P0 == <<0, 0, 0>>
Next == \/ \E a, b \in 0..(MaxLen + 1) : Crop(a, b) \/ DivideJoin(<<a, b>>)
        \/ \E n \in 0..(MaxLen + 2) : Adjust(n, P0) \/ Justify(n, P0) \/ (\E al \in {"left", "right", "center"} : Align(al, n, P0))
        \/ Hide \/ Simplify \/ Overlay(<<1, 0, 2>>)
Spec == Init /\ [][Next]_strip
\* the operations that name a width deliver that width, whatever they are given
ExactWidth == \A n \in 0..(MaxLen + 2) :
                /\ Len(AdjustOf(strip, n, P0)) = n
                /\ Len(JustifyOf(strip, n, P0)) = n
                /\ \A al \in {"left", "right", "center"} : Len(AlignOf(strip, al, n, P0)) = n
CropWidth == \A a, b \in 0..(MaxLen + 1) : a <= b => Len(CropOf(strip, a, b)) = IF a >= Len(strip) THEN 0 ELSE MinI(b, Len(strip)) - a
\* splitting loses nothing and breaks no glyph; fading and tinting leave the glyphs alone
SplitKeeps == \A c \in 0..(MaxLen + 1) : LET p == SplitAt(strip, c) IN p[1] \o p[2] = strip /\ WellFormed(p[1]) /\ WellFormed(p[2]) /\ Len(p[1]) - c \in {0, 1, Len(strip) - c}
OnlyColours == \A k \in 0..4 : \A x \in {FadeOf(strip, k, 9), TintOf(strip, k, 5)} : \A i \in 1..Len(strip) : x[i][1] = strip[i][1] /\ x[i][2] = strip[i][2] /\ x[i][6] = strip[i][6]
DivideCovers == \A a, b \in 0..MaxLen : Len(FlattenSeq(Divide(strip, <<a, b>>))) = Len(strip)
=============================================================================
