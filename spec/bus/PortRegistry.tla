---------------------------- MODULE PortRegistry ----------------------------
(* Contract of the port registry (property B04): requests by any number of  *)
(* processes, each of which may die at any moment, behave as if they were   *)
(* made one after the other against a table from bus id to port.            *)
EXTENDS Integers, Sequences, FiniteSets
Reg0(T) == [ given |-> {},                                   \* <<id, port>> pairs that were returned
             req |-> [t \in T |-> [on |-> FALSE]] ]           \* the request thread t is in
KnownId(s, id) == \E g \in s.given : g[1] = id
RegBad(s, e) ==
  LET t == e.t IN
  CASE e.e = "got" ->
         (IF e.r < 0 THEN {<<"B04", "a request failed">>} ELSE {}) \cup
         (IF \E g \in s.given : g[1] = e.v /\ g[2] # e.r THEN {<<"B04", "an id got another port than before">>} ELSE {}) \cup
         (IF \E g \in s.given : g[1] # e.v /\ g[2] = e.r THEN {<<"B04", "two ids got the same port">>} ELSE {})
    [] e.e = "file" ->
         IF s.req[t].on /\ s.req[t].known THEN {<<"B04", "asking for a known id changed the registry">>} ELSE {}
    [] e.e = "panic" -> {<<"B04", "a request crashed">>}
    [] e.e \in {"hang", "left"} -> {<<"B04", "a request never finished">>}
    [] OTHER -> {}
RegStep(s, e) ==
  CASE e.e = "req" -> [s EXCEPT !.req[e.t] = [on |-> TRUE, known |-> KnownId(s, e.v)]]
    [] e.e = "got" -> [s EXCEPT !.req[e.t] = [on |-> FALSE], !.given = IF e.r < 0 THEN @ ELSE @ \cup {<<e.v, e.r>>}]
    [] e.e = "crash" -> [s EXCEPT !.req[e.t] = [on |-> FALSE]]
    [] OTHER -> s
=============================================================================
