----------------------------- MODULE PortTrace -----------------------------
EXTENDS PortRegistry, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Reg0(0..Traces[tr].threads)
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] IN
           /\ \A b \in RegBad(s, e) : PrintT(<<"BAD", Traces[tr].id, l, b[1], b[2]>>)
           /\ s' = RegStep(s, e)
           /\ l' = l + 1 /\ UNCHANGED tr
View == <<tr, l>>
=============================================================================
