------------------------------- MODULE Timers -------------------------------
(* Posting, one-shot timers and intervals of an application context, over a *)
(* virtual clock in milliseconds.  A message is <<id, n, src>>: the n-th     *)
(* message of operation id, sent in the name of src.                         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES now,      \* the clock
          src,      \* id -> [kind, from, per, start, live]  kind: post | timer | interval
          sent      \* id -> number of messages delivered so far
tvars == <<now, src, sent>>
TimersInit == now = 0 /\ src = <<>> /\ sent = <<>>
\* how many messages an operation has to have produced by time tm
Total(s, tm) == CASE s.kind = "post" -> 1
                  [] s.kind = "timer" -> IF tm - s.start >= s.per THEN 1 ELSE 0
                  [] s.kind = "interval" -> (tm - s.start) \div s.per
\* the messages that become deliverable at time tm; a cancelled interval has none left
New(S, D, tm) == UNION {{i} \X (IF S[i].live THEN (D[i] + 1)..Total(S[i], tm) ELSE {}) : i \in 1..Len(S)}
\* a correct delivery: exactly the due messages, each once, those of one source in order
Delivery(S, D, tm, rec) ==
    /\ {<<rec[k].id, rec[k].n>> : k \in 1..Len(rec)} = New(S, D, tm)
    /\ Len(rec) = Cardinality(New(S, D, tm))
    /\ \A j, k \in 1..Len(rec) : j < k /\ rec[j].id = rec[k].id => rec[j].n < rec[k].n
    /\ \A k \in 1..Len(rec) : rec[k].from = S[rec[k].id].from
\* what is due earlier is delivered earlier (stated for messages of one clock step or several)
Due(s, n) == CASE s.kind = "post" -> s.start [] s.kind = "timer" -> s.start + s.per [] s.kind = "interval" -> s.start + n * s.per
Ordered(S, rec) == \A j, k \in 1..Len(rec) : j < k /\ S[rec[j].id].kind # "interval" /\ S[rec[k].id].kind # "interval"
                                             => Due(S[rec[j].id], 1) <= Due(S[rec[k].id], 1)
Count(S, D, tm) == [i \in 1..Len(S) |-> IF S[i].live /\ Total(S[i], tm) > D[i] THEN Total(S[i], tm) ELSE D[i]]
Open(kind, from, per) == /\ src' = Append(src, [kind |-> kind, from |-> from, per |-> per, start |-> now, live |-> TRUE])
                         /\ now' = now /\ sent' = Count(src', Append(sent, 0), now)
Cancel(i) == src' = [src EXCEPT ![i].live = FALSE] /\ UNCHANGED <<now, sent>>
Advance_(d) == now' = now + d /\ UNCHANGED src /\ sent' = Count(src, sent, now + d)
\* many posts in a row keep their order
=============================================================================
