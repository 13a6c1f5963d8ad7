------------------------------ MODULE MC_Fuzzy ------------------------------
(* A query is typed letter by letter against every name over a small alphabet. *)
EXTENDS Fuzzy
CONSTANTS MaxName, MaxQuery
VARIABLES q, name
vars == <<q, name>>
Alphabet == {[c |-> 1, f |-> 1, w |-> 1, s |-> 0], [c |-> 2, f |-> 1, w |-> 1, s |-> 0], [c |-> 3, f |-> 3, w |-> 1, s |-> 0], [c |-> 0, f |-> 0, w |-> 0, s |-> 1]}
SeqsTo(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == q = <<>> /\ name \in SeqsTo(MaxName)
Next == Len(q) < MaxQuery /\ (\E x \in Alphabet : q' = Append(q, x)) /\ name' = name
Spec == Init /\ [][Next]_vars
Best(x, n, e) == LET M == Matches(x, n, e) IN CHOOSE m \in M : TRUE
\* something is found exactly when the letters occur in order
FoundIff == \A e \in BOOLEAN : q # <<>> => (Hits(q, name, e) <=> Embeds(Keys(q, e), Keys(name, e), 1) # {})
\* the letters found are the query's
Sound == \A e \in BOOLEAN : \A m \in Matches(q, name, e) : m.score > 0 =>
            /\ Len(m.at) = Len(q) /\ \A k \in 1..Len(q) : Key(name[m.at[k]], e) = Key(q[k], e) /\ (k > 1 => m.at[k] > m.at[k - 1])
\* the whole name is the best query for itself of its length
ExactBest == q # <<>> /\ Keys(q, FALSE) = Keys(name, FALSE) => \A n \in {SubSeq(name, 1, k) \o <<x>> \o SubSeq(name, k + 1, Len(name)) : k \in 0..Len(name), x \in Alphabet} :
                Best(q, n, FALSE).score <= Best(q, name, FALSE).score
\* matching with case is stricter
CaseStricter == Hits(q, name, TRUE) => Hits(q, name, FALSE)
\* typing on never finds what was lost
Narrowing == [][Hits(q', name, FALSE) /\ q # <<>> => Hits(q, name, FALSE)]_vars
=============================================================================
