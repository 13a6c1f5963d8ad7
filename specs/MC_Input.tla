------------------------------ MODULE MC_Input ------------------------------
EXTENDS Input
CONSTANTS Chars, MaxLen
Init == /\ value = <<>> /\ cursor = 0 /\ focused = FALSE /\ disabled = FALSE /\ placeholder = <<>>
Next == \/ \E c \in Chars : Len(value) < MaxLen /\ Type(c)
        \/ Backspace \/ Delete \/ Left \/ Right \/ Home \/ End
        \/ SetFocus(~focused) \/ SetDisabled(~disabled)
Spec == Init /\ [][Next]_vars
\* the highlighted cell, if any, is unique and sits at the cursor
OneCursorCell == LET h == {i \in 1..Len(Row) : Row[i].h = 1} IN
                 IF focused THEN h = {cursor + 1} ELSE h = {}
=============================================================================
