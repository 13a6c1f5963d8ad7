------------------------------ MODULE MC_Export ------------------------------
(* The exporters as machines that walk a row once and keep a run of equal style; whatever row, every   *)
(* run they cut paints back to it.                                                                    *)
EXTENDS Export
CONSTANTS W, Colours, Ats
VARIABLES row, x, run, texts, rect, rects, ansi, last
vars == <<row, x, run, texts, rect, rects, ansi, last>>
Narrow == {[s |-> s, k |-> 0, fg |-> f, bg |-> b, at |-> a] : s \in {<<32>>, <<97>>}, f \in Colours, b \in Colours, a \in Ats}
Wide == {<<[s |-> <<20013>>, k |-> 0, fg |-> f, bg |-> b, at |-> a], [s |-> <<>>, k |-> 1, fg |-> f, bg |-> b, at |-> a]>> : f \in Colours, b \in Colours, a \in Ats}
RECURSIVE Rows(_)
Rows(n) == IF n = 0 THEN {<<>>}
           ELSE {Append(r, c) : r \in Rows(n - 1), c \in Narrow} \cup (IF n < 2 THEN {} ELSE {r \o w : r \in Rows(n - 2), w \in Wide})
NoRun == [x |-> 0, n |-> 0, fg |-> 0, at |-> 0, s |-> <<>>]
Text(r) == [x |-> r.x, y |-> 0, n |-> r.n, fg |-> r.fg, at |-> r.at, line |-> 0, s |-> r.s]
Blank(s) == \A i \in 1..Len(s) : s[i] = 32
NoRect == [x |-> 0, c |-> 0]
Rect(r, e) == [x |-> r.x, y |-> 0, w |-> e - r.x, h |-> 1, c |-> r.c]
Init == row \in Rows(W) /\ x = 0 /\ run = NoRun /\ texts = <<>> /\ rect = NoRect /\ rects = <<>>
        /\ ansi = <<>> /\ last = [fg |-> 0, bg |-> 0, at |-> 0]
Same(r, c) == r.fg = c.fg /\ r.at = Svgable(c.at)
Codes(c) ==     \* what the ANSI form puts before a character
    LET l0 == IF c.at = last.at THEN last ELSE [fg |-> 0, bg |-> 0, at |-> 0]
        bits == IF c.at = last.at THEN <<>> ELSE <<<<0, 0>>>> \o SelectSeq(<<<<1, 1>>, <<1, 2>>, <<1, 4>>, <<1, 8>>, <<1, 16>>, <<1, 32>>>>, LAMBDA k : Has(c.at, k[2]))
        fgs == IF c.fg = l0.fg THEN <<>> ELSE <<<<2, c.fg>>>>
        bgs == IF c.bg = l0.bg THEN <<>> ELSE <<<<3, c.bg>>>>
    IN  bits \o fgs \o bgs
Scan ==
    /\ x < W
    /\ LET c == row[x + 1] IN
       /\ run' = IF Same(run, c) THEN [run EXCEPT !.n = @ + 1, !.s = @ \o c.s]
                 ELSE [x |-> x, n |-> 1, fg |-> c.fg, at |-> Svgable(c.at), s |-> c.s]
       /\ texts' = IF ~Same(run, c) /\ run.s # <<>> THEN Append(texts, Text(run)) ELSE texts
       /\ rect' = IF rect.c = c.bg THEN rect ELSE [x |-> x, c |-> c.bg]
       /\ rects' = IF rect.c # c.bg /\ rect.c # 0 THEN Append(rects, Rect(rect, x)) ELSE rects
       /\ ansi' = ansi \o Codes(c) \o <<<<4, Glyphs(c)[1]>>>>
       /\ last' = [fg |-> c.fg, bg |-> c.bg, at |-> c.at]
    /\ x' = x + 1 /\ UNCHANGED row
EndLine ==
    /\ x = W
    /\ texts' = IF run.s # <<>> /\ ~(run.fg = 0 /\ run.at = 0 /\ Blank(run.s)) THEN Append(texts, Text(run)) ELSE texts
    /\ rects' = IF rect.c # 0 THEN Append(rects, Rect(rect, W)) ELSE rects
    /\ ansi' = Append(ansi, <<0, 0>>)
    /\ run' = NoRun /\ rect' = NoRect /\ x' = W + 1 /\ UNCHANGED <<row, last>>
Stop == x = W + 1 /\ UNCHANGED vars
Next == Scan \/ EndLine \/ Stop
Spec == Init /\ [][Next]_vars
Faithful == x = W + 1 => /\ SvgShows(<<row>>, [texts |-> texts, rects |-> rects], W, 1)
                         /\ AnsiShows(<<row>>, <<ansi>>, 1)
(* at every moment what has been written belongs to the row, and nothing written is taken back *)
Prefix == \A i \in 1..Len(texts) : TextFits(<<row>>, texts[i], W, 1)
(* neighbouring text elements always differ in style, so no element is cut short *)
Maximal == \A i \in 1..(Len(texts) - 1) : texts[i].x + texts[i].n = texts[i + 1].x => <<texts[i].fg, texts[i].at>> # <<texts[i + 1].fg, texts[i + 1].at>>
=============================================================================
