------------------------------ MODULE TraceLib ------------------------------
(* Batches of recorded executions: one per line of the file named by $TRACE. *)
(* A trace specification steps `l` through Traces[t].steps; a trace that is  *)
(* not a behaviour of the specification deadlocks at the offending step.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Steps == Traces[t].steps
Ev == Steps[l]
AtEnd == l = Len(Steps) + 1
Advance == l <= Len(Steps) /\ l' = l + 1 /\ t' = t
Op(name) == Ev.op = name
\* For specifications with hidden nondeterminism a trace is accepted when SOME behaviour explains it:
\* CONSTRAINT Mark records the furthest step reached per trace, POSTCONDITION AllAccepted judges.
\* (one worker, deadlock checking off)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Mark == IF l > TLCGet(t) THEN TLCSet(t, l) ELSE TRUE
Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].steps) + 1}
AllAccepted == \/ Rejected = {}
               \/ LET i == CHOOSE i \in Rejected : \A j \in Rejected : i <= j
                  IN PrintT(<<"REJECTED", i, TLCGet(i)>>) /\ FALSE
Bool(n) == n = 1
Bit(b) == IF b THEN 1 ELSE 0
=============================================================================
