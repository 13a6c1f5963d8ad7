------------------------------- MODULE Colour -------------------------------
(* Colours and what is computed from them.  A colour is                      *)
(*   [r, g, b, a, k]   a: opacity in 10000ths, k: "rgb" | "auto"             *)
(* Factors are num/den.  Channel results are the exact rational rounded down *)
(* when the arithmetic is exact in binary, within one unit otherwise.        *)
EXTENDS ColourTables, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
C(r, g, b, a) == [r |-> r, g |-> g, b |-> b, a |-> a, k |-> "rgb"]
White(a) == C(255, 255, 255, a)
Black(a) == C(0, 0, 0, a)
Chan == {"r", "g", "b"}
Sane(c) == \A x \in Chan : c[x] \in 0..255

(* ---- notations ---- *)
Hex(d) == CASE Len(d) = 3 -> C(17 * d[1], 17 * d[2], 17 * d[3], 10000)
            [] Len(d) = 4 -> C(17 * d[1], 17 * d[2], 17 * d[3], (20000 * 17 * d[4] + 255) \div 510)
            [] Len(d) = 6 -> C(16 * d[1] + d[2], 16 * d[3] + d[4], 16 * d[5] + d[6], 10000)
            [] OTHER -> C(16 * d[1] + d[2], 16 * d[3] + d[4], 16 * d[5] + d[6], (20000 * (16 * d[7] + d[8]) + 255) \div 510)
\* hue in degrees, saturation and lightness in percent: the exact channel value times 600000
Sixth(h) == (h % 360) \div 60
HslNum(h, s, l) ==
    LET h1 == h % 360
        chroma == (100 - Abs(2 * l - 100)) * s              \* times 10000
        part == IF Sixth(h) % 2 = 0 THEN h1 % 60 ELSE 60 - (h1 % 60)
        x == chroma * part                                  \* times 600000
        c == chroma * 60
        m == (200 * l - chroma) * 30                        \* (l - chroma/2) times 600000
        tri == CASE Sixth(h) = 0 -> <<c, x, 0>> [] Sixth(h) = 1 -> <<x, c, 0>> [] Sixth(h) = 2 -> <<0, c, x>>
                 [] Sixth(h) = 3 -> <<0, x, c>> [] Sixth(h) = 4 -> <<x, 0, c>> [] OTHER -> <<c, 0, x>>
    IN <<tri[1] + m, tri[2] + m, tri[3] + m>>
\* v is 255 * n / 600000 up to half a unit (and binary rounding of a tie)
IsHsl(v, n) == Abs(600000 * v - 255 * n) <= 300000 + 60

(* ---- mixing: from one colour towards another by num/den ---- *)
Exact(x, y, num, den) == (den * x + (y - x) * num) \div den
Near(v, x, y, num, den, tol) == Abs(den * v - (den * x + (y - x) * num)) <= tol * den
Mix(c, d, num, den, a) == C(Exact(c.r, d.r, num, den), Exact(c.g, d.g, num, den), Exact(c.b, d.b, num, den), a)
Mixed(v, c, d, num, den, tol) == \A x \in Chan : Near(v[x], c[x], d[x], num, den, tol)
\* blend: endpoints are the colours themselves; alpha is mixed too unless given
Blend(c, d, num, den, a) == IF num <= 0 THEN c ELSE IF num >= den THEN d
                            ELSE Mix(c, d, num, den, IF a >= 0 THEN a ELSE c.a + ((d.a - c.a) * num) \div den)
Tint(c, ov, num, den) == Mix(c, ov, num, den, c.a)          \* num/den: the overlay's opacity
Over(c, bg, num, den) == IF num >= den THEN c ELSE Tint(bg, c, num, den)
Toward(c, d, num, den) == IF num >= den THEN c ELSE IF num <= 0 THEN d ELSE [Mix(d, c, num, den, c.a) EXCEPT !.a = c.a]
Opacity(c, num, den) == IF num >= den THEN c ELSE [c EXCEPT !.a = (c.a * num) \div den]
Inverse(c) == C(255 - c.r, 255 - c.g, 255 - c.b, c.a)

(* ---- contrast ---- *)
Bright(c) == 299 * c.r + 587 * c.g + 114 * c.b              \* white: 255000
Contrast(c) == IF Bright(c) < 127500 THEN White(10000) ELSE Black(10000)
\* black or white, pulled back towards the background; halves round up
Rounded(x, y, num, den) == (2 * (den * x + (y - x) * num) + den) \div (2 * den)
Contrasting(c, num, den) == LET k == Contrast(c) IN IF num >= den THEN k
                            ELSE C(Rounded(c.r, k.r, num, den), Rounded(c.g, k.g, num, den), Rounded(c.b, k.b, num, den), 10000)

(* ---- lightness ---- *)
Lum(c) == (2126 * Lin[c.r + 1] + 7152 * Lin[c.g + 1] + 722 * Lin[c.b + 1]) \div 10000
\* D65 tristimulus values relative to white, times 100000
TriX(c) == ((4124 * Lin[c.r + 1] + 3576 * Lin[c.g + 1] + 1805 * Lin[c.b + 1]) \div 9505)
TriZ(c) == ((193 * Lin[c.r + 1] + 1192 * Lin[c.g + 1] + 9505 * Lin[c.b + 1]) \div 10888)
\* CIE lightness of linear light y, read off the greys with interpolation
RECURSIVE Find(_, _, _)
Find(y, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF Lin[m + 1] <= y THEN Find(y, m, hi) ELSE Find(y, lo, m)
LightOf(y) == LET v == Find(y, 0, 255) IN
              Grey[v + 1] + ((Grey[v + 2] - Grey[v + 1]) * (y - Lin[v + 1])) \div (Lin[v + 2] - Lin[v + 1])
Light(c) == LightOf(Lum(c))
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Inside(c) == \A x \in Chan : c[x] \in 1..254
\* v is c with its lightness changed by d (thousandths of a percent), hue and chroma kept, up to the
\* rounding of channels; where a channel saturates only the direction is promised
Shifted(v, c, d) ==
    /\ v.a = c.a /\ Sane(v)
    /\ LET goal == Clamp(Light(c) + d, 0, 100000) IN
       IF Inside(v)
       THEN /\ Abs(Light(v) - goal) <= 1200
            /\ Abs((LightOf(TriX(v)) - Light(v)) - (LightOf(TriX(c)) - Light(c))) <= 1500
            /\ Abs((LightOf(TriZ(v)) - Light(v)) - (LightOf(TriZ(c)) - Light(c))) <= 2500
       ELSE /\ (d >= 0 => Light(v) >= Light(c) - 1200) /\ (d <= 0 => Light(v) <= Light(c) + 1200)
    /\ (c.r = c.g /\ c.g = c.b => Abs(v.r - v.g) <= 1 /\ Abs(v.g - v.b) <= 1 /\ Abs(v.r - v.b) <= 1)

(* ---- the variables generated from a theme's base colours ---- *)
\* s: the colours given (a missing one is <<>>), dark, spread in hundredths
Or(x, y) == IF x = <<>> THEN y ELSE x
Base(s) ==
    LET p == s.primary
        sec == Or(s.secondary, p)
        bg == Or(s.background, IF s.dark THEN C(18, 18, 18, 10000) ELSE C(239, 239, 239, 10000))
        sf == Or(s.surface, IF s.dark THEN C(30, 30, 30, 10000) ELSE C(245, 245, 245, 10000))
    IN [primary |-> p, secondary |-> sec, warning |-> Or(s.warning, p), error |-> Or(s.error, sec), success |-> Or(s.success, sec),
        accent |-> Or(s.accent, p), background |-> bg, surface |-> sf, foreground |-> Or(s.foreground, Inverse(bg)),
        boost |-> Or(s.boost, [Contrast(bg) EXCEPT !.a = 400])]
Shades == {-3, -2, -1, 0, 1, 2, 3}
\* is v acceptable as shade n of base colour c
IsShade(v, c, n, s) == IF n = 0 THEN Shifted(v, c, 0) ELSE Shifted(v, c, n * s.spread * 500)
\* on dark themes the primary and secondary backgrounds are mixed from the background instead
DarkShade(v, c, n, s, bg) == LET num == s.spread * 2 + n * s.spread IN     \* over 200
                             IF num <= 0 THEN Mixed(v, bg, c, 15, 100, 1)
                             ELSE \A x \in Chan : LET m == Exact(bg[x], c[x], 15, 100) IN
                                      \E k \in {m - 1, m, m + 1} : Near(v[x], k, 255, IF num > 200 THEN 200 ELSE num, 200, 1)
=============================================================================
