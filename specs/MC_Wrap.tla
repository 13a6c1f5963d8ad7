------------------------------ MODULE MC_Wrap ------------------------------
EXTENDS Wrap, FiniteSets
CONSTANTS MaxLen, MaxW
VARIABLES text, w, out
G == {<<1, 0>>, <<SP, 0>>, <<100, 0>>, <<NL, 0>>}
Modes == {<<"wrap", "fold">>, <<"nowrap", "fold">>, <<"nowrap", "clip">>, <<"nowrap", "ellipsis">>, <<"wrap", "ellipsis">>}
VARIABLE m
Init == text = <<>> /\ w \in 0..MaxW /\ m \in Modes /\ out = Layout(<<>>, w, m[1], m[2])
\* type text glyph by glyph; the layout is recomputed after each
Next == /\ Len(text) < MaxLen
        /\ \E g \in G : text' = Append(text, g)
        /\ out' = Layout(text', w, m[1], m[2])
        /\ UNCHANGED <<w, m>>
Spec == Init /\ [][Next]_<<text, w, out, m>>

Fits == \A i \in 1..Len(out) : Width(out[i].t) <= w \/ (m[2] = "fold" /\ Len(out[i].t) = 1)
Keeps == (w > 0 /\ m[2] = "fold") => Ink(FlattenSeq([i \in 1..Len(out) |-> out[i].t])) = Ink(text)
Rows == w > 0 => Cardinality({i \in 1..Len(out) : out[i].e = 1}) = Len(SourceLines(text))
Verbatim == (w > 0 /\ Len(SourceLines(text)) = 1 /\ Width(text) <= w) => out = <<[t |-> text, e |-> 1]>>
=============================================================================
