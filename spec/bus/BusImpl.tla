------------------------------ MODULE BusImpl ------------------------------
(* The algorithm of udp_procbus.rs in its atomic steps (load, compare and   *)
(* exchange, send, notify; listen, wait, load), with a lossy, duplicating,  *)
(* reordering network that also carries junk and datagrams of other buses.  *)
(* Every step feeds the events it causes to the contract ProcBus; `bad`     *)
(* collects the clauses violated.  Variant "ok" is the algorithm of the     *)
(* code, the others are known wrong ones (they must violate the contract).  *)
EXTENDS ProcBus, SequencesExt
CONSTANTS C, Prog, Variant, Losses, Dups, Junk
Np == Len(C)
T == 0..(Np + Len(Prog))
VARIABLES v, pc, loc, q, net, inbox, budget, nextm, s, bad
vars == <<v, pc, loc, q, net, inbox, budget, nextm, s, bad>>

Feed(evs) ==
  LET f(a, e) == [s |-> Step(C, a.s, e), bad |-> a.bad \cup Bad(C, a.s, e)]
      r == FoldLeft(f, [s |-> s, bad |-> bad], evs)
  IN s' = r.s /\ bad' = r.bad
Nothing == UNCHANGED <<s, bad>>
P(t) == IF t <= Np THEN t ELSE Prog[t - Np].p
Ops(t) == IF t <= Np THEN <<>> ELSE Prog[t - Np].ops

Init ==
  /\ v = [p \in 1..Np |-> 0]
  /\ pc = [t \in T |-> IF t = 0 \/ t > Np THEN "idle" ELSE "rx"]
  /\ loc = [t \in T |-> [i |-> 1, old |-> 0, val |-> 0, skip |-> FALSE, m |-> 0]]
  /\ q = [p \in 1..Np |-> <<>>]
  /\ net = {[m |-> 1000 + j, to |-> Junk[j], p |-> 0, v |-> 0] : j \in 1..Len(Junk)}
  /\ inbox = [p \in 1..Np |-> <<>>]
  /\ budget = [loss |-> Losses, dup |-> Dups]
  /\ nextm = 1
  /\ s = Init0(C, T) /\ bad = {}

Go(t, x) == pc' = [pc EXCEPT ![t] = x]

(* -- emit ------------------------------------------------------------------ *)
Call(t) ==
  /\ pc[t] = "idle" /\ t # 0 /\ loc[t].i <= Len(Ops(t))
  /\ LET o == Ops(t)[loc[t].i] IN
     CASE o[1] = "emit" ->
            /\ Go(t, IF Variant = "notify_first" THEN "early" ELSE "load")
            /\ loc' = [loc EXCEPT ![t].val = o[2], ![t].skip = FALSE]
            /\ Feed(<<[e |-> "emit", t |-> t, p |-> P(t), v |-> o[2]]>>)
       [] OTHER ->
            /\ Go(t, "listen") /\ UNCHANGED loc
            /\ Feed(<<[e |-> "wait", t |-> t, p |-> P(t), v |-> IF o[1] = "waitd" THEN 1 ELSE 0, id |-> loc[t].i]>>)
  /\ UNCHANGED <<v, q, net, inbox, budget, nextm>>
Load(t) ==
  /\ pc[t] = "load" /\ loc' = [loc EXCEPT ![t].old = v[P(t)]] /\ Go(t, "cas")
  /\ Nothing /\ UNCHANGED <<v, q, net, inbox, budget, nextm>>
Return(t, r) ==   \* back to the script, or to receiving
  /\ IF t <= Np
     THEN /\ Go(t, "rx") /\ Feed(<<[e |-> "rxidle", t |-> t]>>) /\ UNCHANGED loc
     ELSE /\ Go(t, "idle") /\ loc' = [loc EXCEPT ![t].i = @ + 1]
          /\ Feed(<<[e |-> "emitret", t |-> t, p |-> P(t), v |-> loc[t].val, r |-> r]>>)
Stale(t) ==
  /\ pc[t] = "cas" /\ loc[t].old > loc[t].val /\ Return(t, loc[t].old)
  /\ UNCHANGED <<v, q, net, inbox, budget, nextm>>
Cas(t) ==
  /\ pc[t] = "cas" /\ loc[t].old <= loc[t].val
  /\ IF v[P(t)] = loc[t].old \/ Variant = "no_retry"
     THEN /\ v' = [v EXCEPT ![P(t)] = loc[t].val] /\ Go(t, IF loc[t].skip THEN "notify" ELSE "send")
          /\ UNCHANGED loc
          /\ IF v[P(t)] # loc[t].val
             THEN Feed(<<[e |-> "val", t |-> t, p |-> P(t), v |-> loc[t].val]>>) ELSE Nothing
     ELSE /\ loc' = [loc EXCEPT ![t].old = v[P(t)]] /\ UNCHANGED <<v, pc>> /\ Nothing
  /\ UNCHANGED <<q, net, inbox, budget, nextm>>
Send(t) ==
  /\ pc[t] = "send"
  /\ net' = net \cup {[m |-> nextm, to |-> d, p |-> P(t), v |-> loc[t].val] : d \in {x \in 1..Np : C[x].init}}
  /\ nextm' = nextm + 1 /\ Go(t, "notify")
  /\ Feed(<<[e |-> "send", t |-> t, m |-> nextm]>>)
  /\ UNCHANGED <<v, loc, q, inbox, budget>>
NotifyAll(p) ==
  IF Variant = "notify_one"
  THEN IF \E i \in 1..Len(q[p]) : ~q[p][i].n
       THEN LET i == CHOOSE i \in 1..Len(q[p]) : ~q[p][i].n /\ \A j \in 1..(i-1) : q[p][j].n
            IN [q EXCEPT ![p][i].n = TRUE]
       ELSE q
  ELSE [q EXCEPT ![p] = [i \in DOMAIN @ |-> [@[i] EXCEPT !.n = TRUE]]]
Notify(t) ==
  /\ pc[t] = "notify"
  /\ q' = IF Variant = "notify_first" /\ t > Np THEN q ELSE NotifyAll(P(t))
  /\ Go(t, "ret") /\ Nothing
  /\ UNCHANGED <<v, loc, net, inbox, budget, nextm>>
Early(t) ==
  /\ pc[t] = "early" /\ q' = NotifyAll(P(t)) /\ Go(t, "load") /\ Nothing
  /\ UNCHANGED <<v, loc, net, inbox, budget, nextm>>
Ret(t) == pc[t] = "ret" /\ Return(t, loc[t].val) /\ UNCHANGED <<v, q, net, inbox, budget, nextm>>

(* -- receive ----------------------------------------------------------------- *)
Foreign(t, d) ==   \* not for us: junk, another bus, our own
  \/ d.p = 0
  \/ C[d.p].bus # C[t].bus /\ Variant # "no_bus"
  \/ C[d.p].pid = C[t].pid /\ Variant # "no_pid"
Recv(t) ==
  /\ t <= Np /\ t # 0 /\ pc[t] = "rx" /\ inbox[t] # <<>>
  /\ LET d == Head(inbox[t]) IN
     /\ inbox' = [inbox EXCEPT ![t] = Tail(@)]
     /\ IF Foreign(t, d)
        THEN /\ Feed(<<[e |-> "recv", t |-> t, m |-> d.m], [e |-> "rxidle", t |-> t]>>) /\ UNCHANGED <<pc, loc>>
        ELSE /\ Feed(<<[e |-> "recv", t |-> t, m |-> d.m]>>) /\ Go(t, "load")
             /\ loc' = [loc EXCEPT ![t].val = d.v, ![t].skip = (Variant # "rebroadcast")]
  /\ UNCHANGED <<v, q, net, budget, nextm>>
Deliver(d) ==
  /\ inbox' = [inbox EXCEPT ![d.to] = Append(@, d)] /\ net' = net \ {d}
  /\ Nothing /\ UNCHANGED <<v, pc, loc, q, budget, nextm>>
Duplicate(d) ==
  /\ budget.dup > 0 /\ budget' = [budget EXCEPT !.dup = @ - 1]
  /\ inbox' = [inbox EXCEPT ![d.to] = Append(@, d)]
  /\ Nothing /\ UNCHANGED <<v, pc, loc, q, net, nextm>>
Lose(d) ==
  /\ budget.loss > 0 /\ budget' = [budget EXCEPT !.loss = @ - 1] /\ net' = net \ {d}
  /\ Nothing /\ UNCHANGED <<v, pc, loc, q, inbox, nextm>>

(* -- wait ------------------------------------------------------------------- *)
Listen(t) ==
  /\ pc[t] = "listen"
  /\ q' = [q EXCEPT ![P(t)] = Append(@, [t |-> t, n |-> FALSE])]
  /\ Go(t, "waiting") /\ Feed(<<[e |-> "listen", t |-> t]>>)
  /\ UNCHANGED <<v, loc, net, inbox, budget, nextm>>
Mine(t) == CHOOSE i \in 1..Len(q[P(t)]) : q[P(t)][i].t = t
Woken(t) ==
  /\ pc[t] = "waiting" /\ q[P(t)][Mine(t)].n
  /\ q' = [q EXCEPT ![P(t)] = RemoveAt(@, Mine(t))] /\ Go(t, "reload") /\ Nothing
  /\ UNCHANGED <<v, loc, net, inbox, budget, nextm>>
Reload(t) ==
  /\ pc[t] = "reload" /\ Go(t, "idle") /\ loc' = [loc EXCEPT ![t].i = @ + 1]
  /\ Feed(<<[e |-> "waitret", t |-> t, p |-> P(t), r |-> v[P(t)]]>>)
  /\ UNCHANGED <<v, q, net, inbox, budget, nextm>>
Expire(t) ==
  /\ pc[t] = "waiting" /\ ~q[P(t)][Mine(t)].n /\ Ops(t)[loc[t].i][1] = "waitd"
  /\ q' = [q EXCEPT ![P(t)] = RemoveAt(@, Mine(t))]
  /\ Go(t, "idle") /\ loc' = [loc EXCEPT ![t].i = @ + 1]
  /\ Feed(<<[e |-> "expired", t |-> t], [e |-> "waitret", t |-> t, p |-> P(t), r |-> -1]>>)
  /\ UNCHANGED <<v, net, inbox, budget, nextm>>

Thread(t) == \/ Call(t) \/ Load(t) \/ Stale(t) \/ Cas(t) \/ Send(t) \/ Notify(t) \/ Early(t) \/ Ret(t)
             \/ Recv(t) \/ Listen(t) \/ Woken(t) \/ Reload(t) \/ Expire(t)
Next == (\E t \in T : Thread(t)) \/ (\E d \in net : Deliver(d) \/ Duplicate(d) \/ Lose(d))
Spec == Init /\ [][Next]_vars

Quiet == ~ENABLED Next
LeftOver == {t \in T \ {0} : t > Np /\ (pc[t] # "idle" \/ loc[t].i <= Len(Ops(t)))}
B01 == \A b \in bad : b[1] # "B01"
B02 == (\A b \in bad : b[1] # "B02")
B03 == \A b \in bad : b[1] # "B03"
(* nobody is left waiting for something that has happened, when nothing more can happen *)
NoStuck == Quiet => \A t \in LeftOver : Bad(C, s, [e |-> "left", t |-> t]) = {}
(* with nothing lost, every endpoint of a bus ends with the largest value emitted on it elsewhere *)
Emitted(b) == {Prog[k].ops[i][2] : <<k, i>> \in
   {<<k, i>> \in (1..Len(Prog)) \X (1..4) : i <= Len(Prog[k].ops) /\ i < loc[Np + k].i /\ Prog[k].ops[i][1] = "emit" /\ C[Prog[k].p].bus = b}}
Agree == (Quiet /\ Losses = 0) =>
   \A p \in 1..Np : (C[p].init /\ \A x \in 1..Np : x # p => C[x].pid # C[p].pid) =>
        v[p] = MaxOf({0} \cup Emitted(C[p].bus))
Monotone == [][\A p \in 1..Np : v'[p] >= v[p]]_vars
=============================================================================
