----------------------------- MODULE MC_Timers -----------------------------
EXTENDS Timers
CONSTANTS MaxSrc, MaxNow
VARIABLE stop       \* id -> time of cancellation, -1 if none
vars == <<now, src, sent, stop>>
Init == TimersInit /\ stop = <<>>
Next == \/ /\ Len(src) < MaxSrc
           /\ \E k \in {"post", "timer", "interval"}, p \in 0..3 : (k = "interval" => p > 0) /\ Open(k, 1, p)
           /\ stop' = Append(stop, -1)
        \/ \E i \in 1..Len(src) : src[i].live /\ src[i].kind = "interval" /\ Cancel(i) /\ stop' = [stop EXCEPT ![i] = now]
        \/ \E d \in 1..3 : now + d <= MaxNow /\ Advance_(d) /\ UNCHANGED stop
Spec == Init /\ [][Next]_vars
\* never early, never lost, never twice, none after cancellation
Exact == \A i \in 1..Len(src) : sent[i] = Total(src[i], IF stop[i] = -1 THEN now ELSE stop[i])
Monotone == [][\A i \in 1..Len(src) : sent'[i] >= sent[i] /\ (~src[i].live => sent'[i] = sent[i])]_vars
=============================================================================
