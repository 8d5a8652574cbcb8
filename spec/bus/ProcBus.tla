------------------------------ MODULE ProcBus ------------------------------
(* Contract of the wake-up bus (crates/ipcbus).                             *)
(*                                                                          *)
(* A bus endpoint p lives in a process (pid) and belongs to a bus (bus id). *)
(* What can be observed of an endpoint are calls and returns of its         *)
(* operations, the value it holds, the datagrams its threads hand to the    *)
(* network, and the datagrams its receive thread takes from it.  Each is an *)
(* event.  `Bad(C, s, e)` is the set of clauses of the properties B01, B02  *)
(* and B03 which event e violates in state s; `Step(C, s, e)` is the state  *)
(* after it.  The model BusImpl feeds the events of the algorithm, and      *)
(* BusTrace those recorded from the code, to these same two operators.      *)
(*                                                                          *)
(* C is a sequence of [bus, pid, init]; thread t <= Len(C) is the receive   *)
(* thread of endpoint t, later threads run scripts.                         *)
EXTENDS Integers, Sequences, FiniteSets

NoEmit == [kind |-> "none"]
NoWait == [on |-> FALSE]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Init0(C, T) ==
  [ val  |-> [p \in 1..Len(C) |-> 0],
    em   |-> [t \in T |-> NoEmit],     \* the emit (or reception) thread t is in
    wt   |-> [t \in T |-> NoWait],     \* the wait thread t is in
    rd   |-> [t \in T |-> [p |-> 0, seen |-> {}]],  \* the read thread t is in
    dg   |-> <<>> ]                    \* what each datagram announces: [m, p, v]

(* Values of endpoint p that are in force from the start of a call on are kept in `seen`. *)
Active(s) == {t \in DOMAIN s.em : s.em[t].kind # "none"}
Waiting(s, p) == {t \in DOMAIN s.wt : s.wt[t].on /\ s.wt[t].p = p}
Listening(s, p) == {t \in Waiting(s, p) : s.wt[t].listening}
InFlight(s, p) == {s.em[t].v : t \in {x \in Active(s) : s.em[x].p = p /\ s.em[x].kind # "ignore"}}
Announced(s, m) == {i \in 1..Len(s.dg) : s.dg[i].m = m}

(* A datagram is an announcement for p iff it was sent on p's bus by another process. *)
Means(C, s, p, m) ==
  LET A == {i \in Announced(s, m) : C[s.dg[i].p].bus = C[p].bus /\ C[s.dg[i].p].pid # C[p].pid}
  IN IF A = {} THEN -1 ELSE s.dg[CHOOSE i \in A : TRUE].v

(* did the emit (reception) x take effect: it raised the value, or repeated it *)
Accepted(x) == x.raised \/ x.v = MaxOf(x.seen)

Bad(C, s, e) ==
  LET t == e.t IN
  CASE e.e = "val" ->
         IF t \in DOMAIN s.em /\ s.em[t].kind \in {"emit", "rx"} /\ s.em[t].p = e.p
         THEN (IF e.v <= s.val[e.p] THEN {<<"B01", "the value went down">>} ELSE {}) \cup
              (IF e.v # s.em[t].v THEN {<<"B01", "the value became one nobody emitted">>} ELSE {}) \cup
              (IF s.em[t].raised THEN {<<"B01", "one emit changed the value twice">>} ELSE {})
         ELSE IF t \in DOMAIN s.em /\ s.em[t].kind = "ignore"
         THEN {<<"B03", "a datagram that is no announcement of another process changed the value">>}
         ELSE {<<"B01", "the value changed outside of an emit">>}
    [] e.e = "send" ->
         IF s.em[t].kind # "emit" THEN {<<"B03", "a datagram was sent outside of an emit">>}
         ELSE IF s.em[t].sent > 0 THEN {<<"B03", "one emit was announced twice">>}
         ELSE {}
    [] e.e = "emitret" ->
         LET x == s.em[t] IN
         (IF s.val[x.p] < x.v THEN {<<"B01", "an emit returned but the value is below its argument">>} ELSE {}) \cup
         (IF \A y \in x.seen : e.r # MaxOf({x.v, y})
          THEN {<<"B01", "emit returned neither its argument nor a larger value in force during the call">>} ELSE {}) \cup
         (IF x.raised /\ x.sent # 1 THEN {<<"B03", "an emit that raised the value was not announced">>} ELSE {}) \cup
         (IF ~x.raised /\ x.v \notin x.seen /\ x.sent > 0 THEN {<<"B03", "an outdated emit was announced">>} ELSE {})
    [] e.e = "waitret" ->
         LET x == s.wt[t] IN
         IF e.r < 0
         THEN (IF x.must THEN {<<"B02", "timeout although an emit was made after the wait was registered">>} ELSE {}) \cup
              (IF x.kind = 0 THEN {<<"B02", "timeout without deadline">>} ELSE {}) \cup
              (IF x.kind = 1 /\ ~x.expired THEN {<<"B02", "timeout before the deadline">>} ELSE {})
         ELSE (IF e.r < x.need THEN {<<"B02", "a wait returned less than an emit made after it was registered">>} ELSE {}) \cup
              (IF e.r \notin x.seen THEN {<<"B01", "a wait returned a value the bus did not have">>} ELSE {}) \cup
              (IF \A j \in x.just : j > e.r THEN {<<"B02", "a wait ended without an emit">>} ELSE {})
    [] e.e = "readret" ->
         IF e.r \in s.rd[t].seen THEN {} ELSE {<<"B01", "read a value the bus did not have">>}
    [] e.e = "rxidle" ->
         IF s.em[t].kind = "rx" /\ s.val[s.em[t].p] < s.em[t].v
         THEN {<<"B03", "a received announcement did not raise the value">>} ELSE {}
    [] e.e = "unrouted" -> {<<"B03", "an announcement does not reach a process on the same bus">>}
    [] e.e = "dead" -> {<<"B03", "the receive thread ended">>}
    [] e.e = "panic" ->
         IF s.wt[t].on THEN {<<"B02", "a wait crashed">>} ELSE {<<"B01", "an emit crashed">>}
    [] e.e = "hang" ->
         IF t \in DOMAIN s.wt /\ s.wt[t].on THEN {<<"B02", "a wait hangs">>} ELSE {<<"B01", "a call hangs">>}
    [] e.e = "left" ->
         IF t <= Len(C) THEN (IF s.em[t].kind = "rx" THEN {<<"B03", "a reception never finished">>} ELSE {})
         ELSE IF s.wt[t].on
         THEN (IF s.wt[t].must THEN {<<"B02", "a waiter was not woken by an emit made after it registered">>} ELSE {}) \cup
              (IF ~s.wt[t].listening THEN {<<"B02", "a wait blocks without having registered">>} ELSE {})
         ELSE {<<"B01", "a call never returned">>}
    [] OTHER -> {}

(* Everyone registered when the emit was called has to be woken by it. *)
Wake(s, x) ==
  [t \in DOMAIN s.wt |->
     IF Accepted(x) /\ s.wt[t].on /\ <<t, s.wt[t].id>> \in x.w
     THEN [s.wt[t] EXCEPT !.must = TRUE, !.need = MaxOf({s.wt[t].need, x.v})]
     ELSE s.wt[t]]
Started(s, p, v) ==   \* an emit of v on p is under way: it may end a wait
  [t \in DOMAIN s.wt |-> IF s.wt[t].on /\ s.wt[t].p = p
                         THEN [s.wt[t] EXCEPT !.just = @ \cup {v}] ELSE s.wt[t]]
NewEmit(s, kind, p, v) ==
  [kind |-> kind, p |-> p, v |-> v, seen |-> {s.val[p]}, sent |-> 0, raised |-> FALSE,
   w |-> {<<t, s.wt[t].id>> : t \in Listening(s, p)}]

Step(C, s, e) ==
  LET t == e.t IN
  CASE e.e = "emit" -> [s EXCEPT !.em[t] = NewEmit(s, "emit", e.p, e.v), !.wt = Started(s, e.p, e.v)]
    [] e.e = "val" ->
         [s EXCEPT !.val[e.p] = e.v,
            !.em = [x \in DOMAIN s.em |->
                      IF s.em[x].kind = "none" \/ s.em[x].p # e.p THEN s.em[x]
                      ELSE [s.em[x] EXCEPT !.seen = @ \cup {e.v}, !.raised = @ \/ x = t]],
            !.wt = [x \in DOMAIN s.wt |-> IF s.wt[x].on /\ s.wt[x].p = e.p
                                          THEN [s.wt[x] EXCEPT !.seen = @ \cup {e.v}] ELSE s.wt[x]],
            !.rd = [x \in DOMAIN s.rd |-> IF s.rd[x].p = e.p
                                          THEN [s.rd[x] EXCEPT !.seen = @ \cup {e.v}] ELSE s.rd[x]]]
    [] e.e = "send" ->
         IF s.em[t].kind \in {"emit", "rx"}
         THEN [s EXCEPT !.em[t].sent = @ + 1,
                        !.dg = Append(@, [m |-> e.m, p |-> s.em[t].p, v |-> s.em[t].v])]
         ELSE s
    [] e.e = "emitret" -> [s EXCEPT !.em[t] = NoEmit, !.wt = Wake(s, s.em[t])]
    [] e.e = "recv" ->
         LET v == Means(C, s, t, e.m) IN
         IF v < 0 THEN [s EXCEPT !.em[t] = NewEmit(s, "ignore", t, 0)]
         ELSE [s EXCEPT !.em[t] = NewEmit(s, "rx", t, v), !.wt = Started(s, t, v)]
    [] e.e = "rxidle" ->
         IF s.em[t].kind = "rx" THEN [s EXCEPT !.em[t] = NoEmit, !.wt = Wake(s, s.em[t])]
         ELSE [s EXCEPT !.em[t] = NoEmit]
    [] e.e = "wait" ->
         [s EXCEPT !.wt[t] = [on |-> TRUE, p |-> e.p, id |-> e.id, kind |-> e.v, listening |-> FALSE,
                              need |-> 0, must |-> FALSE, expired |-> FALSE,
                              just |-> InFlight(s, e.p), seen |-> {s.val[e.p]}]]
    [] e.e = "listen" -> IF s.wt[t].on THEN [s EXCEPT !.wt[t].listening = TRUE] ELSE s
    [] e.e = "expired" -> IF s.wt[t].on THEN [s EXCEPT !.wt[t].expired = TRUE] ELSE s
    [] e.e = "waitret" -> [s EXCEPT !.wt[t] = NoWait]
    [] e.e = "read" -> [s EXCEPT !.rd[t] = [p |-> e.p, seen |-> {s.val[e.p]}]]
    [] e.e = "readret" -> [s EXCEPT !.rd[t] = [p |-> 0, seen |-> {}]]
    [] OTHER -> s
=============================================================================
