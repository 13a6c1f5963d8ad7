-------------------------------- MODULE Fuzzy -------------------------------
(* Fuzzy matching of a query against a name.  Texts are sequences of          *)
(* characters [c: number, f: its lower case, w: part of a word, s: blank].     *)
EXTENDS Integers, Sequences, FiniteSets
Key(x, exact) == IF exact THEN x.c ELSE x.f
Keys(s, exact) == [i \in 1..Len(s) |-> Key(s[i], exact)]
\* all ways of finding the query in the name in order, as increasing positions
RECURSIVE Embeds(_, _, _)
Embeds(q, n, from) == IF q = <<>> THEN {<<>>}
                      ELSE UNION {{<<i>> \o e : e \in Embeds(Tail(q), n, i + 1)} : i \in {j \in from..Len(n) : n[j] = q[1]}}
Run(q, n) == {i \in 1..(Len(n) - Len(q) + 1) : \A k \in 1..Len(q) : n[i + k - 1] = q[k]}
Initial(name, i) == name[i].w = 1 /\ (i = 1 \/ name[i - 1].w = 0)
Initials(name, e) == Cardinality({k \in 1..Len(e) : Initial(name, e[k])})
Groups(e) == 1 + Cardinality({k \in 1..(Len(e) - 1) : e[k + 1] # e[k] + 1})
\* score in thousandths: letters and initials count, few groups count more; twice2 is twice the bonus factor
Score(name, e, twice2) == LET n == Len(e)  g == n - Groups(e) + 1 IN
                          (500 * twice2 * (n + Initials(name, e)) * (n * n + g * g)) \div (n * n)
Close(a, b) == a - b <= 2 /\ b - a <= 2
\* {[score, at]}: no match, the first run of the query, or a best embedding
Matches(q, name, exact) ==
    LET qk == Keys(q, exact)  nk == Keys(name, exact)  runs == Run(qk, nk) IN
    IF q = <<>> \/ name = <<>> THEN {[score |-> 0, at |-> <<>>]}
    ELSE IF runs # {} THEN LET i == CHOOSE i \in runs : \A j \in runs : i <= j
                               e == [k \in 1..Len(q) |-> i + k - 1]
                           IN {[score |-> Score(name, e, IF qk = nk THEN 4 ELSE 3), at |-> e]}
    ELSE LET S == Embeds(qk, nk, 1) IN
         IF S = {} THEN {[score |-> 0, at |-> <<>>]}
         ELSE {[score |-> Score(name, e, 2), at |-> e] : e \in {e \in S : \A d \in S : Score(name, d, 2) <= Score(name, e, 2) + 2}}
Hits(q, name, exact) == \E m \in Matches(q, name, exact) : m.score > 0
\* characters shown highlighted
Marked(name, at) == {at[k] : k \in {j \in 1..Len(at) : name[at[j]].s = 0}}
=============================================================================
