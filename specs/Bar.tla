-------------------------------- MODULE Bar ---------------------------------
(* Scroll bars: where the thumb of a bar of n cells lies, in eighths of a    *)
(* cell, for content of length virt seen through a window of length win at   *)
(* position pos; what presses and drags on it mean.                          *)
EXTENDS Integers, Sequences
BMin(a, b) == IF a < b THEN a ELSE b
BMax(a, b) == IF a > b THEN a ELSE b
\* floor and ceiling of p/q; where p/q is an integer or very nearly one, binary arithmetic may land beside it
Near(p, q) == (p % q) * 500 < q
Nigh(p, q) == (q - (p % q)) * 500 < q
FloorTol(p, q) == {p \div q} \cup (IF Near(p, q) THEN {p \div q - 1} ELSE {}) \cup (IF Nigh(p, q) THEN {p \div q + 1} ELSE {})
CeilTol(p, q) == LET z == IF p % q = 0 THEN p \div q ELSE p \div q + 1 IN
                 {z} \cup (IF Near(p, q) THEN {p \div q, p \div q + 1} ELSE {}) \cup (IF Nigh(p, q) THEN {p \div q + 2} ELSE {})
\* the thumb is win/virt of the bar, but at least one cell: its length times virt
Units(n, virt, win) == BMax(virt, win * n)
Drawn(n, virt, win, ghost) == ~ghost /\ win > 0 /\ n > 0 /\ virt > 0 /\ virt # n
\* {<<first, past last>>} eighths
Eighths(n, virt, win, pos) ==
    LET starts == IF virt <= win \/ pos = 0 THEN {0} ELSE FloorTol(8 * (n * virt - Units(n, virt, win)) * pos, virt * (virt - win))
        lens == CeilTol(8 * Units(n, virt, win), virt)
    IN {<<BMax(s, 0), BMin(8 * n, BMax(s, 0) + k)>> : s \in starts, k \in lens}
Looks(n, virt, win, pos, ghost) == IF Drawn(n, virt, win, ghost) THEN Eighths(n, virt, win, pos) ELSE {<<>>}
\* in whole cells, for presses
Grips(n, virt, win, pos) ==
    IF win > 0 /\ win < virt /\ n > 0 /\ virt # n
    THEN {<<s, s + k>> : s \in {BMax(z, 0) : z \in FloorTol((n * virt - Units(n, virt, win)) * pos, virt * (virt - win))}, k \in CeilTol(Units(n, virt, win), virt)}
    ELSE {<<0, 0>>}
(* ---- a bar as a widget of its own: b = [vert, n, virt, win, pos, st: "normal" | "hover" | "grab", at, ghost] ---- *)
Say(b, dir) == IF b.vert THEN (IF dir < 0 THEN "up" ELSE "down") ELSE (IF dir < 0 THEN "left" ELSE "right")
Free(b) == b.st # "grab"
\* {[b, msg]}: what an event at cell p of the bar does (p = -1: outside the bar)
Mouse(b, k, p) ==
    IF p = -1 THEN {[b |-> IF b.st = "hover" THEN [b EXCEPT !.st = "normal"] ELSE b, msg |-> ""]}
    ELSE CASE k = "move" -> {[b |-> IF Free(b) THEN [b EXCEPT !.st = "hover"] ELSE b, msg |-> ""]}
           [] k = "down" -> {IF p >= g[1] /\ p < g[2] THEN [b |-> [b EXCEPT !.st = "grab", !.at = p - g[1]], msg |-> ""]
                             ELSE [b |-> b, msg |-> Say(b, IF p < g[1] THEN -1 ELSE 1)] : g \in Grips(b.n, b.virt, b.win, b.pos)}
           [] k = "drag" -> {[b |-> b, msg |-> IF b.st = "grab" THEN "to" ELSE ""]}
           [] k = "up" -> {[b |-> IF b.st = "grab" THEN [b EXCEPT !.st = "hover"] ELSE b, msg |-> ""]}
           [] k = "wheeldown" -> {[b |-> b, msg |-> Say(b, 1)]}
           [] k = "wheelup" -> {[b |-> b, msg |-> Say(b, -1)]}
           [] OTHER -> {[b |-> b, msg |-> ""]}
\* the position a drag to cell p asks for, in thousandths, is the one whose thumb starts at cell p - at
AsksFor(b, p, v) == IF b.win >= b.virt THEN v = 0 ELSE LET d == 1000 * (p - b.at) * b.virt - v * b.n IN d >= -3 * b.n /\ d <= 3 * b.n
HoverOn(b, h) == IF ~Free(b) THEN b ELSE [b EXCEPT !.st = IF h THEN "hover" ELSE "normal"]
Drop(b) == IF Free(b) THEN b ELSE [b EXCEPT !.st = "normal"]
\* colours: the state's own, else the next plainer one given; 0 is the built-in colour.  given: <<plain, hover, grabbed>>
Tint(given, st) == LET k == CASE st = "normal" -> 1 [] st = "hover" -> 2 [] st = "grab" -> 3
                       s == {j \in 1..k : given[j]} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A i \in s : i <= j
=============================================================================
