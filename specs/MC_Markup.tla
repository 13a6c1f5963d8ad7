----------------------------- MODULE MC_Markup ------------------------------
(* Tokens arrive one at a time; beside the machine of spans a shadow keeps    *)
(* the attributes every grapheme had when it was written.                     *)
EXTENDS Markup
CONSTANTS MaxToks, Tags
\* clickable text: an opaque link colour is shown as it is, the pointer over a link without styles of its own only
\* takes the underline away, and what is not given is taken over from the text
Cs == {None} \cup [c : {<<0, 0, 0>>, <<200, 40, 90>>}, num : {0, 2, 4}, auto : {0, 1}]
Bgs == {None, <<0, 0, 0>>, <<240, 250, 200>>}
ASSUME \A bg, fg \in Cs : \A under \in Bgs : \A st \in SUBSET {"bold", "underline"} :
    LET ls == [bg |-> bg, fg |-> fg, bgh |-> None, fgh |-> None, st |-> st, sth |-> {}]
        a == [Plain EXCEPT !.bg = under, !.fg = <<1, 2, 3>>, !.fl = {"italic"}, !.click = 1]
        v == Linked(a, ls, FALSE) h == Linked(a, ls, TRUE) IN
    /\ (fg # None /\ fg.num = 4 /\ fg.auto = 0 => v.fg = fg.c) /\ (bg # None /\ bg.num = 4 => v.bg = bg.c)
    /\ (bg = None => v.bg = under) /\ (bg # None /\ bg.num = 0 /\ under # None => v.bg = under)
    /\ h.fg = v.fg /\ h.bg = v.bg /\ v.fl \ h.fl \subseteq {"underline"} /\ h.fl \subseteq v.fl
    /\ "underline" \in v.fl /\ "italic" \in h.fl /\ v.click = 1
    /\ (v.bg # None /\ fg = None => Bright(v.fg) - Bright(v.bg) > 60000 \/ Bright(v.bg) - Bright(v.fg) > 60000)
VARIABLES m, shadow, count
vars == <<m, shadow, count>>
W(x) == [w |-> x, c |-> <<>>]
TagToks == {[k |-> "open", words |-> <<W("bold")>>], [k |-> "open", words |-> <<W("red"), W("on"), W("blue")>>], [k |-> "open", words |-> <<W("blue")>>],
            [k |-> "meta", key |-> "click", val |-> 1], [k |-> "meta", key |-> "link", val |-> 2], [k |-> "open", words |-> <<W("nosuch")>>]}
Closers == {[k |-> "close", name |-> x] : x \in {"", "bold", "red", "link"}}
RECURSIVE Fold(_, _)
Fold(open, base) == IF open = <<>> THEN base ELSE Fold(Tail(open), Over(open[1].adds, base))
Init == m = Start /\ shadow = <<>> /\ count = 0
Next == /\ count < MaxToks /\ count' = count + 1
        /\ \/ /\ m' = Feed(m, [k |-> "t", g |-> count]) /\ shadow' = IF m'.err THEN shadow ELSE Append(shadow, Fold(m.open, Plain))
           \/ \E tok \in TagToks \cup Closers : Len(m.open) < Tags /\ m' = Feed(m, tok) /\ shadow' = shadow
           \/ \E tok \in Closers : m' = Feed(m, tok) /\ shadow' = shadow
Spec == Init /\ [][Next]_vars
\* if the text ended here, every grapheme would look as the tags open around it say, inner over outer
AsWritten == LET f == Finish(m) IN ~m.err => /\ Len(f.text) = Len(shadow)
                                             /\ \A p \in 1..Len(shadow) : LookAt(f, p, Plain) = shadow[p]
\* spans nest: any two are apart or one lies in the other
Nested == \A x, y \in m.spans : x.to < y.from \/ y.to < x.from \/ (x.from <= y.from /\ y.to <= x.to) \/ (y.from <= x.from /\ x.to <= y.to)
\* closing tags never reopen or lengthen anything, and an unmatched one does nothing
CloseShrinks == [][Len(m'.open) < Len(m.open) => m'.open = SubSeq(m.open, 1, Len(m'.open))]_vars
=============================================================================
