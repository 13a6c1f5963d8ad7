---------------------------- MODULE Trace_Colour ----------------------------
EXTENDS Colour, TraceLib
TraceInit == t \in 1..Len(Traces) /\ l = 1
V == Ev.v
Is(c) == V = c
Good == Ev.ok = 1
Alpha(a) == Abs(V.a - a) <= 1
\* the same colour with exact channels, opacity up to its rounding
Like(c) == V.r = c.r /\ V.g = c.g /\ V.b = c.b /\ Alpha(c.a) /\ V.k = c.k
Text == Ev.text
Parsed ==
    CASE Ev.kind = "bad" -> Ev.ok = 0
      [] Ev.kind = "auto" -> Good /\ V.k = "auto" /\ V.a = 10000
      [] Ev.kind = "transparent" -> Good /\ V.a = 0
      [] Ev.kind = "name" -> IF Ev.name \in DOMAIN Names THEN Good /\ <<V.r, V.g, V.b>> = Names[Ev.name] /\ V.a = 10000 /\ V.k = "rgb" ELSE Ev.ok = 0
      [] Ev.kind = "hex" -> Good /\ Like(Hex(Ev.d))
      [] Ev.kind = "rgb" -> IF \E i \in 1..3 : Ev.d[i] < 0 \/ Ev.d[i] > 255 THEN Ev.ok = 0
                            ELSE Good /\ Like(C(Ev.d[1], Ev.d[2], Ev.d[3], Ev.a))
      [] Ev.kind = "hsl" -> LET n == HslNum(Ev.d[1], Ev.d[2], Ev.d[3]) IN
                            Good /\ IsHsl(V.r, n[1]) /\ IsHsl(V.g, n[2]) /\ IsHsl(V.b, n[3]) /\ Alpha(Ev.a) /\ V.k = "rgb"
\* factors that binary arithmetic represents exactly give exact results
Worked(exact, near) == Good /\ (IF Ev.den = 16 THEN Like(exact) ELSE Alpha(exact.a) /\ near)
Near2(c) == Abs(Bright(c) - 127500) <= 3
Computed ==
    LET c == Ev.c  n == Ev.num  d == Ev.den IN
    CASE Op("blend") -> Worked(Blend(c, Ev.d, n, d, Ev.alpha), n <= 0 \/ n >= d \/ Mixed(V, c, Ev.d, n, d, 1))
      [] Op("tint") -> Worked(Tint(c, Ev.d, n, d), Mixed(V, c, Ev.d, n, d, 1))
      [] Op("over") -> Worked(Over(c, Ev.d, n, d), n >= d \/ Mixed(V, Ev.d, c, n, d, 1))
      [] Op("toward") -> Worked(Toward(c, Ev.d, n, d), n <= 0 \/ n >= d \/ Mixed(V, Ev.d, c, n, d, 1))
      [] Op("opacity") -> Good /\ Like(Opacity(c, n, d))
      [] Op("inverse") -> Good /\ Like(Inverse(c))
      [] Op("contrast") -> Good /\ (Near2(c) \/ Like([Contrast(c) EXCEPT !.a = n]))
      [] Op("contrasting") -> Good /\ (Near2(c) \/ (IF d = 16 \/ n >= d THEN Like(Contrasting(c, n, d)) ELSE Alpha(10000) /\ Mixed(V, c, Contrast(c), n, d, 1)))
      [] Op("lighten") -> Good /\ Shifted(V, c, n * 1000)
      [] Op("luminance") -> Good /\ Abs(Ev.lum - Lum(c)) <= 20
      [] Op("bright") -> Good /\ Abs(Ev.lum - (Bright(c) * 100) \div 255) <= 20
      \* colours without numbers of their own are left as they are
      [] Op("fixed") -> Good /\ Ev.same = 1
(* ---- theme variables ---- *)
Var(name) == Ev.vars[name]
Has(name) == name \in DOMAIN Ev.vars
Same(name, c) == Has(name) /\ LET v == Var(name) IN v.r = c.r /\ v.g = c.g /\ v.b = c.b /\ Abs(v.a - c.a) <= 1 /\ v.k = c.k
Suffix(n) == IF n = 0 THEN "" ELSE IF n < 0 THEN "-darken-" \o ToString(-n) ELSE "-lighten-" \o ToString(n)
Plain == {"primary", "secondary", "background", "foreground", "boost", "surface", "warning", "error", "success", "accent"}
Accents == {"primary", "secondary", "warning", "error", "success", "accent"}
AutoC(a) == [r |-> 0, g |-> 0, b |-> 0, a |-> a, k |-> "auto"]
Clear == C(0, 0, 0, 0)
System ==
    LET s == [Ev.sys EXCEPT !.dark = Bool(@)]
        b == Base(s)
        spread == s.spread
    IN /\ \A x \in Plain, n \in Shades : Has(x \o Suffix(n)) /\ IsShade(Var(x \o Suffix(n)), b[x], n, s)
       /\ \A x \in {"primary", "secondary"}, n \in Shades : LET nm == x \o "-background" \o Suffix(n) IN
             Has(nm) /\ IF s.dark THEN DarkShade(Var(nm), b[x], n, s, b.background) ELSE IsShade(Var(nm), b[x], n, s)
       \* the panel: given, or the surface with a tenth of the primary (boosted when dark)
       /\ \A n \in Shades : Has("panel" \o Suffix(n))
       /\ (s.panel # <<>> => \A n \in Shades : IsShade(Var("panel" \o Suffix(n)), s.panel, n, s))
       /\ (s.panel = <<>> /\ ~s.dark => Mixed(Var("footer-background"), b.surface, b.primary, 10, 100, 1))
       \* text on the background: contrast tinted two thirds with the accent
       /\ \A x \in Accents : Has("text-" \o x) /\ (Near2(b.background) \/ (Mixed(Var("text-" \o x), Contrast(b.background), b[x], 66, 100, 1) /\ Abs(Var("text-" \o x).a - 9500) <= 1))
       /\ \A x \in Accents : Has(x \o "-muted") /\ Mixed(Var(x \o "-muted"), b[x], b.background, 70, 100, 1)
       /\ Same("text", AutoC(8700)) /\ Same("text-muted", AutoC(6000)) /\ Same("text-disabled", AutoC(3800))
       /\ Same("foreground-muted", [b.foreground EXCEPT !.a = 6000]) /\ Same("foreground-disabled", [b.foreground EXCEPT !.a = 3800])
       /\ \A x \in {"scrollbar-active", "border", "link-background-hover", "block-cursor-background", "markdown-h1-color"} : Same(x, b.primary)
       /\ \A x \in {"footer-foreground", "input-cursor-background", "button-foreground", "block-cursor-blurred-foreground"} : Same(x, b.foreground)
       /\ \A x \in {"link-background", "footer-key-background", "footer-item-background"} : Same(x, Clear)
       /\ \A x \in {"scrollbar-background", "scrollbar-corner-color", "scrollbar-background-hover", "scrollbar-background-active"} : Has(x) /\ Var(x) = Var("background-darken-1")
       /\ Mixed(Var("scrollbar"), Var("background-darken-1"), b.primary, 40, 100, 1) /\ Mixed(Var("scrollbar-hover"), Var("background-darken-1"), b.primary, 50, 100, 1)
       /\ Same("input-selection-background", [b.primary EXCEPT !.a = 4000]) /\ Same("block-cursor-blurred-background", [b.primary EXCEPT !.a = 3000])
       /\ Same("footer-key-foreground", b.accent) /\ Same("input-cursor-foreground", b.background)
       /\ Same("link-color", AutoC(8700)) /\ Same("button-color-foreground", AutoC(8700))
       /\ Shifted(Var("border-blurred"), b.surface, -2500) /\ Shifted(Var("surface-active"), b.surface, spread * 400)
\* every built-in theme defines every variable, and says of itself whether it is dark
Standard == /\ Good /\ Ev.missing = <<>>
            /\ (Ev.isdark = 1) = (Bright(Ev.bg) < 127500)
            /\ Ev.named = 1
Step == /\ Advance /\ Ev.panic = 0
        /\ CASE Op("parse") -> Parsed [] Op("system") -> System [] Op("standard") -> Standard [] OTHER -> Computed
Done == AtEnd /\ UNCHANGED <<t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<t, l>>
=============================================================================
