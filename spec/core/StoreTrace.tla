----------------------------- MODULE StoreTrace -----------------------------
EXTENDS Store, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = S0
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] IN
           /\ \A b \in StoreBad(s, Traces[tr].facts, e) : PrintT(<<"BAD", Traces[tr].id, l, b[1], b[2]>>)
           /\ s' = StoreStep(s, e)
           /\ l' = l + 1 /\ UNCHANGED tr
View == <<tr, l>>
=============================================================================
