------------------------------ MODULE BusTrace ------------------------------
(* Executions recorded from the code are checked against the contract.      *)
EXTENDS ProcBus, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s
C(i) == Traces[i].procs
Threads(i) == 0..Traces[i].threads
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0(C(tr), Threads(tr))
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] IN
           /\ \A b \in Bad(C(tr), s, e) : PrintT(<<"BAD", Traces[tr].id, l, b[1], b[2]>>)
           /\ s' = Step(C(tr), s, e)
           /\ l' = l + 1 /\ UNCHANGED tr
View == <<tr, l>>
=============================================================================
