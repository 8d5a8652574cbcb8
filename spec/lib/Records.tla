------------------------------- MODULE Records -------------------------------
(* Recorded calls, examined one by one against Good; the records are cut into *)
(* chunks so that TLC's workers share them.                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
Num == Len(Recs)
Chunk == 50
\* the name must not be one that a bound variable of the definitions has: TLC would then
\* evaluate their constants anew every time
VARIABLE pos_
CONSTANT Why(_)
Init == pos_ \in {1 + Chunk * k : k \in 0..((Num - 1) \div Chunk)} \X {0}
(* pos_ = <<position, how many of the chunk are done>> *)
Next == /\ pos_[2] < Chunk /\ pos_[1] + pos_[2] <= Num
        /\ LET r == Recs[pos_[1] + pos_[2]]
               y == Why(r)
               \* "outside": the property says nothing about this call, whatever it did
               w == IF y = "outside" THEN ""
                    ELSE IF r.r.k = "panic" THEN "the call panics"
                    ELSE IF r.r.k = "hang" THEN "the call does not return" ELSE y
           IN IF w = "" THEN TRUE ELSE PrintT(<<"BAD", r.id, w>>)
        /\ pos_' = <<pos_[1], pos_[2] + 1>>
=============================================================================
