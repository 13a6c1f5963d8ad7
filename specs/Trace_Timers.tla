---------------------------- MODULE Trace_Timers ----------------------------
EXTENDS Timers, TraceLib
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ TimersInit
\* Ev.rec: everything received after the operation
Step == /\ Advance /\ Ev.panic = 0
        /\ CASE Op("open") -> Open(Ev.kind, Ev.from, Ev.per)
             [] Op("burst") -> \* several posts in a row, then one look at the queue
                    /\ now' = now
                    /\ src' = src \o [k \in 1..Ev.count |-> [kind |-> "post", from |-> Ev.from, per |-> 0, start |-> now, live |-> TRUE]]
                    /\ sent' = Count(src', sent \o [k \in 1..Ev.count |-> 0], now)
             [] Op("cancel") -> Cancel(Ev.id)
             [] Op("advance") -> Advance_(Ev.d)
             \* cancelled and then the clock moves on before anything else runs
             [] Op("cut") -> /\ src' = [src EXCEPT ![Ev.id].live = FALSE] /\ now' = now + Ev.d
                             /\ sent' = Count(src', sent, now + Ev.d)
        /\ LET D == sent \o [k \in 1..(Len(src') - Len(sent)) |-> 0] IN Delivery(src', D, now', Ev.rec)
        /\ (Op("burst") => \A k \in 1..Len(Ev.rec) : Ev.rec[k].id = Len(src) + k)
        /\ (Op("advance") => Ordered(src', Ev.rec))
Done == AtEnd /\ UNCHANGED <<now, src, sent, t, l>>
TraceSpec == TraceInit /\ [][Step \/ Done]_<<now, src, sent, t, l>>
=============================================================================
