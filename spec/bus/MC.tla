---- MODULE MC ----
EXTENDS BusImpl, TLC
CONSTANT Which
E1 == [bus |-> 1, pid |-> 101, init |-> TRUE]
E2 == [bus |-> 1, pid |-> 102, init |-> TRUE]
EO == [bus |-> 2, pid |-> 103, init |-> TRUE]
C_ == CASE Which = "local" -> <<[E1 EXCEPT !.init = FALSE]>> [] Which = "pair" -> <<E1, E2>> [] Which = "three" -> <<E1, E2, EO>> [] Which = "same" -> <<E1, E1>>
Prog_ == CASE Which = "local" -> << [p |-> 1, ops |-> <<<<"emit", 2>>, <<"emit", 2>>>>],
                                     [p |-> 1, ops |-> <<<<"emit", 3>>, <<"emit", 1>>>>],
                                     [p |-> 1, ops |-> <<<<"waitd", 0>>>>], [p |-> 1, ops |-> <<<<"wait", 0>>>>] >>
           [] Which = "pair" -> << [p |-> 1, ops |-> <<<<"emit", 1>>>>],
                                    [p |-> 2, ops |-> <<<<"emit", 2>>>>],
                                    [p |-> 2, ops |-> <<<<"waitd", 0>>>>] >>
           [] Which = "three" -> << [p |-> 1, ops |-> <<<<"emit", 1>>>>], [p |-> 3, ops |-> <<<<"emit", 2>>>>] >>
           [] Which = "same" -> << [p |-> 1, ops |-> <<<<"emit", 2>>>>], [p |-> 2, ops |-> <<<<"emit", 1>>, <<"waitd", 0>>>>] >>
Junk_ == IF Which \in {"pair", "three"} THEN <<1>> ELSE <<>>
====
