------------------------------ MODULE PortImpl ------------------------------
(* get_port in the steps in which it becomes visible to other processes:    *)
(* lock, read, write the new table, unlock; a process may die between any   *)
(* two of them, which releases its lock.  Variant "ok" writes a new file    *)
(* and renames it; "in_place" truncates and writes (as std::fs::write does  *)
(* on the map itself), "unlocked" takes no lock.                            *)
EXTENDS PortRegistry, SequencesExt
CONSTANTS Threads, Ids, Calls, Crashes, Variant
T == 0..Threads
VARIABLES file, lock, pc, loc, left, crashes, s, bad
vars == <<file, lock, pc, loc, left, crashes, s, bad>>
Feed(evs) ==
  LET f(a, e) == [s |-> RegStep(a.s, e), bad |-> a.bad \cup RegBad(a.s, e)]
      r == FoldLeft(f, [s |-> s, bad |-> bad], evs)
  IN s' = r.s /\ bad' = r.bad
Same == UNCHANGED <<s, bad>>
Init == /\ file = <<>> /\ lock = 0 /\ pc = [t \in T |-> "idle"] /\ left = [t \in T |-> Calls]
        /\ loc = [t \in T |-> [id |-> 0, tab |-> <<>>, port |-> 0]] /\ crashes = Crashes
        /\ s = Reg0(T) /\ bad = {}
Has(tab, id) == \E i \in 1..Len(tab) : tab[i][1] = id
PortOf(tab, id) == tab[CHOOSE i \in 1..Len(tab) : tab[i][1] = id][2]
NewPort(tab) == IF tab = <<>> THEN 1 ELSE 1 + (CHOOSE p \in {tab[i][2] : i \in 1..Len(tab)} : \A i \in 1..Len(tab) : tab[i][2] <= p)
Req(t) == /\ t # 0 /\ pc[t] = "idle" /\ left[t] > 0
          /\ \E id \in Ids : /\ loc' = [loc EXCEPT ![t].id = id]
                             /\ Feed(<<[e |-> "req", t |-> t, v |-> id]>>)
          /\ pc' = [pc EXCEPT ![t] = IF Variant = "unlocked" THEN "read" ELSE "lock"]
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<file, lock, crashes>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "read"]
           /\ Same /\ UNCHANGED <<file, loc, left, crashes>>
Read(t) == /\ pc[t] = "read"
           /\ IF Has(file, loc[t].id)
              THEN loc' = [loc EXCEPT ![t].port = PortOf(file, loc[t].id)] /\ pc' = [pc EXCEPT ![t] = "unlock"]
              ELSE LET p == NewPort(file) IN
                   /\ loc' = [loc EXCEPT ![t].port = p, ![t].tab = Append(file, <<loc[t].id, p>>)]
                   /\ pc' = [pc EXCEPT ![t] = IF Variant = "in_place" THEN "truncate" ELSE "write"]
           /\ Same /\ UNCHANGED <<file, lock, left, crashes>>
Truncate(t) == /\ pc[t] = "truncate" /\ file' = <<>> /\ pc' = [pc EXCEPT ![t] = "write"]
               /\ Feed(<<[e |-> "file", t |-> t]>>) /\ UNCHANGED <<lock, loc, left, crashes>>
Write(t) == /\ pc[t] = "write" /\ file' = loc[t].tab /\ pc' = [pc EXCEPT ![t] = "unlock"]
            /\ Feed(<<[e |-> "file", t |-> t]>>) /\ UNCHANGED <<lock, loc, left, crashes>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ Feed(<<[e |-> "got", t |-> t, v |-> loc[t].id, r |-> loc[t].port]>>)
             /\ UNCHANGED <<file, loc, left, crashes>>
Crash(t) == /\ pc[t] # "idle" /\ crashes > 0 /\ crashes' = crashes - 1
            /\ pc' = [pc EXCEPT ![t] = "idle"] /\ lock' = (IF lock = t THEN 0 ELSE lock)
            /\ Feed(<<[e |-> "crash", t |-> t]>>) /\ UNCHANGED <<file, loc, left>>
Next == \E t \in T : Req(t) \/ Lock(t) \/ Read(t) \/ Truncate(t) \/ Write(t) \/ Unlock(t) \/ Crash(t)
Spec == Init /\ [][Next]_vars
B04 == bad = {}
Kept == \A g \in s.given : Has(file, g[1]) /\ PortOf(file, g[1]) = g[2]
=============================================================================
