------------------------------- MODULE Store -------------------------------
(* Contract of the packet store (S01, S02, S03) over what can be observed:   *)
(* opening it, saving batches, transactions that read it, what readers see.  *)
(* A stored packet is [t, h, v]: receive stamp, hash, the bytes it came in   *)
(* (same hash, other transport header: another v).                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* f.facts[h + 1]: what the tree index says of hash h; 0: nothing
S0 == [log |-> <<>>, cuts |-> {0}, bus |-> <<>>, readers |-> <<>>, fresh |-> TRUE]
LastT(s) == IF s.log = <<>> THEN 0 ELSE s.log[Len(s.log)].t
Hashes(log) == {log[i].h : i \in 1..Len(log)}
BusOf(s, w) == IF w \in DOMAIN s.bus THEN s.bus[w] ELSE 0
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* which of the batch are new: first occurrences of unknown hashes
IsNew(s, p, i) == p[i][1] \notin Hashes(s.log) /\ \A j \in 1..i - 1 : p[j][1] # p[i][1]
News(s, p) == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : IsNew(s, p, i))
Entries(l) == [i \in 1..Len(l) |-> [t |-> l[i][1], h |-> l[i][2], v |-> l[i][3]]]
Triples(l) == [i \in 1..Len(l) |-> <<l[i].t, l[i].h, l[i].v>>]
Bare(l) == [i \in 1..Len(l) |-> <<0, l[i].h, l[i].v>>]
Rising(log) == \A i \in 1..Len(log) - 1 : log[i].t < log[i + 1].t
Distinct(log) == \A i, j \in 1..Len(log) : i # j => log[i].h # log[j].h
------------------------------------------------------------------------------
Saved(s, e) == LET k == News(s, e.p) IN
               [i \in 1..Len(k) |-> [t |-> e.a + i - 1, h |-> e.p[k[i]][1], v |-> e.p[k[i]][2]]]
\* the wake-up value of handle w after a save of n new packets up to stamp b - 1
TellBad(s, w, n, b, bus) ==
  LET old == BusOf(s, w) IN
  (IF n > 0 /\ bus # (IF old > b - 1 THEN old ELSE b - 1) THEN {<<"S02", "a save is not announced">>} ELSE {})
  \cup (IF n = 0 /\ bus # old THEN {<<"S02", "nothing was stored but something is announced">>} ELSE {})
SaveBad(s, e) ==
  LET new == News(s, e.p)
      n == Len(new)
      old == BusOf(s, e.w)
  IN IF e.ans = "ok"
     THEN (IF e.b - e.a # n THEN {<<"S01", "the range of stamps is not as long as the number of new packets">>} ELSE {})
          \cup (IF n > 0 /\ e.a <= LastT(s) THEN {<<"S01", "a new packet gets a stamp that is not later than every earlier one">>} ELSE {})
          \cup (IF n > 0 /\ e.now > LastT(s) /\ e.a # e.now THEN {<<"S01", "the receive stamp is not the time of receipt">>} ELSE {})
          \cup (IF e.st # <<>> /\ e.st # [i \in 1..Len(e.p) |-> IF IsNew(s, e.p, i) THEN "W" ELSE "E"]
                THEN {<<"S01", "it is not reported which packets were new">>} ELSE {})
          \cup (IF e.bus >= 0 THEN TellBad(s, e.w, n, e.b, e.bus) ELSE {})
     ELSE (IF e.fault = 0 THEN {<<"S01", "a save fails though nothing went wrong">>} ELSE {})
          \cup (IF e.bus >= 0 /\ e.bus # old THEN {<<"S02", "a failed save is announced">>} ELSE {})
SaveStep(s, e) ==
  IF e.ans = "ok" /\ News(s, e.p) # <<>>
  THEN LET l == s.log \o Saved(s, e) IN
       [s EXCEPT !.log = l, !.cuts = @ \cup {Len(l)}, !.bus = With(@, e.w, IF e.bus >= 0 THEN e.bus ELSE BusOf(s, e.w))]
  ELSE s
------------------------------------------------------------------------------
\* what a reader that started at length n of the log has to see
Seen(s, n) == SubSeq(s.log, 1, n)
LookBad(s, facts, log, e, P) ==
  LET H == Hashes(log)
      At(h) == CHOOSE i \in 1..Len(log) : log[i].h = h
      tree == {e.tree[i] : i \in 1..Len(e.tree)}
      want == {<<log[i].t, log[i].h, facts[log[i].h + 1]>> : i \in {j \in 1..Len(log) : facts[log[j].h + 1] # 0}}
      asked == SelectSeq(e.want, LAMBDA h : h \in H)
      times == SelectSeq(e.wantt, LAMBDA t : \E i \in 1..Len(log) : log[i].t = t)
  IN (IF e.log # Triples(log) THEN {<<P, "the log is not what was committed when the reader started">>} ELSE
      (IF e.head # (IF log = <<>> THEN 0 ELSE log[Len(log)].t) THEN {<<"S03", "the head of the log is not its last entry">>} ELSE {})
      \cup (IF \E i \in 1..Len(e.hash) : LET h == e.hash[i][1] IN
                 e.hash[i] # (IF h \in H THEN <<h, log[At(h)].t, h, log[At(h)].v>> ELSE <<h, -1, -1, -1>>)
            THEN {<<"S03", "the hash index disagrees with the log">>} ELSE {})
      \cup (IF Cardinality(tree) # Len(e.tree) \/ tree # want THEN {<<"S03", "the tree index disagrees with the log">>} ELSE {})
      \cup (IF e.got # [i \in 1..Len(asked) |-> <<0, asked[i], log[At(asked[i])].v>>] THEN {<<"S01", "looking up hashes yields something else">>} ELSE {})
      \cup (IF e.gott # [i \in 1..Len(times) |-> LET k == CHOOSE k \in 1..Len(log) : log[k].t = times[i] IN <<0, log[k].h, log[k].v>>]
            THEN {<<"S01", "looking up receive stamps yields something else">>} ELSE {})
      \cup (IF e.after # Triples(SelectSeq(log, LAMBDA x : x.t > e.x)) \/ e.from # Triples(SelectSeq(log, LAMBDA x : x.t >= e.x))
            THEN {<<"S01", "the log from a stamp on is not the rest of the log">>} ELSE {}))
StoreBad(s, facts, e) ==
  CASE e.e = "save" -> SaveBad(s, e)
    [] e.e = "open" ->
         LET l == Entries(e.log) IN
         (IF ~IsPrefix(s.log, l) THEN {<<"S01", "opening the store changes what is in it">>} ELSE
          (IF (s.fresh /\ e.lns = 1) # (Len(l) > Len(s.log)) THEN {<<"S01", "opening the store adds what it should not, or not what it should">>} ELSE {})
          \cup (IF ~Rising(l) \/ ~Distinct(l) \/ (\E i \in 1..Len(l) : l[i].h < 0) THEN {<<"S01", "what a new store contains is not in order">>} ELSE {}))
         \cup (IF e.bus > (IF l = <<>> THEN 0 ELSE l[Len(l)].t) THEN {<<"S02", "more is announced than there is">>} ELSE {})
    [] e.e = "look" -> LookBad(s, facts, Seen(s, s.readers[e.r]), e, "S03")
    [] e.e = "fresh" -> LookBad(s, facts, s.log, e, "S01")
    [] e.e = "mid" ->
         (IF e.log # Triples(s.log) THEN {<<"S02", "part of a save that is not committed is visible">>} ELSE {})
         \cup (IF \E i \in 1..Len(e.w) : e.bus[i] # BusOf(s, e.w[i]) THEN {<<"S02", "a save is announced before it is committed">>} ELSE {})
    [] e.e = "snap" ->
         LET n == Len(e.log) IN
         IF n \notin s.cuts \/ n > Len(s.log) THEN {<<"S03", "a reader sees part of a batch">>}
         ELSE LookBad(s, facts, Seen(s, n), e, "S03")
    [] e.e = "told" -> TellBad(s, e.w, 1, e.b, e.bus)
    [] e.e = "crash" -> {<<"S01", "reading or opening the store crashes">>}
    [] e.e = "hang" -> {<<"S01", "an operation never finishes">>}
    [] OTHER -> {}
StoreStep(s, e) ==
  CASE e.e = "save" -> SaveStep(s, e)
    [] e.e = "open" -> LET l == Entries(e.log) IN
                       [s EXCEPT !.log = l, !.cuts = @ \cup {Len(l)}, !.fresh = FALSE, !.bus = With(@, e.w, e.bus)]
    [] e.e \in {"reader", "refresh"} -> [s EXCEPT !.readers = With(@, e.r, Len(s.log))]
    [] e.e = "told" -> [s EXCEPT !.bus = With(@, e.w, e.bus)]
    [] OTHER -> s
=============================================================================
