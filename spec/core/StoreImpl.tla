------------------------------ MODULE StoreImpl ------------------------------
(* The store in the steps it takes: a writer takes the write transaction,    *)
(* looks at the end of the log, puts hashes, log entries and tree entries    *)
(* into its own copy, commits, and announces.  At every step it may fail or  *)
(* die; readers start, refresh and look at any time; the clock may stand     *)
(* still or go back.  The observable events feed the contract of Store.      *)
(* Variants: "ok"; "nolast": takes the clock as stamp; "early": announces    *)
(* before it commits; "two": log and indexes in two transactions; "dup":     *)
(* does not notice a repetition inside a batch; "notree": a tree entry is    *)
(* missing when the batch has two; "live": readers see what is committed     *)
(* later; "keep": a failed save announces.                                   *)
EXTENDS Store
CONSTANTS Writers, Hs, MaxBatch, Saves, Times, Faults, Looks, Variant
\* hash 0 has no place in the tree
Facts == [i \in 1..Hs |-> IF i = 1 THEN 0 ELSE i]
Batches == UNION {[1..n -> {<<h, v>> : h \in 0..Hs - 1, v \in 0..1}] : n \in 0..MaxBatch}
VARIABLES db,      \* committed: log, hash index, tree
          work,    \* the write transaction: who, and its copy
          pc, loc, val, left, faults, looks, rd, s, bad
vars == <<db, work, pc, loc, val, left, faults, looks, rd, s, bad>>
Empty == [log |-> <<>>, hash |-> {}, tree |-> {}]
W == 1..Writers
Init == /\ db = Empty /\ work = [w |-> 0, db |-> Empty] /\ pc = [w \in W |-> "idle"]
        /\ loc = [w \in W |-> [p |-> <<>>, i |-> 1, now |-> 0, at |-> 0, a |-> 0, st |-> <<>>]]
        /\ val = [w \in W |-> 0] /\ left = Saves /\ faults = Faults /\ looks = Looks /\ rd = [on |-> FALSE, db |-> Empty]
        /\ s = [S0 EXCEPT !.bus = [w \in W |-> 0]] /\ bad = {}
Feed(evs) ==
  LET f(a, e) == [s |-> StoreStep(a.s, e), bad |-> a.bad \cup StoreBad(a.s, Facts, e)]
      r == FoldLeft(f, [s |-> s, bad |-> bad], evs)
  IN s' = r.s /\ bad' = r.bad
Same == UNCHANGED <<s, bad>>
End(log) == IF log = <<>> THEN 0 ELSE log[Len(log)].t
Answer(w, ans, a, b, st, fault) ==
  [e |-> "save", w |-> w, now |-> loc[w].now, p |-> loc[w].p, ans |-> ans, a |-> a, b |-> b, st |-> st, fault |-> fault, bus |-> val'[w]]
Begin(w) == /\ pc[w] = "idle" /\ left > 0 /\ work.w = 0 /\ left' = left - 1
            /\ \E p \in Batches, now \in Times :
                 LET e == End(db.log)
                     a == IF Variant # "nolast" /\ e >= now THEN e + 1 ELSE now
                 IN loc' = [loc EXCEPT ![w] = [p |-> p, i |-> 1, now |-> now, at |-> a, a |-> a, st |-> <<>>]]
            /\ work' = [w |-> w, db |-> db] /\ pc' = [pc EXCEPT ![w] = "hash"]
            /\ Same /\ UNCHANGED <<db, val, faults, looks, rd>>
\* one put of the hash index
Hash(w) == LET x == loc[w] IN
           /\ pc[w] = "hash" /\ x.i <= Len(x.p)
           /\ LET h == x.p[x.i][1]
                  seen == IF Variant = "dup" THEN \E y \in db.hash : y[1] = h ELSE \E y \in work.db.hash : y[1] = h
              IN IF seen THEN loc' = [loc EXCEPT ![w] = [x EXCEPT !.i = @ + 1, !.st = Append(@, "E")]] /\ UNCHANGED work
                 ELSE /\ loc' = [loc EXCEPT ![w] = [x EXCEPT !.i = @ + 1, !.at = @ + 1, !.st = Append(@, "W")]]
                      /\ work' = [work EXCEPT !.db.hash = {y \in @ : y[1] # h} \cup {<<h, x.at>>}]
           /\ Same /\ UNCHANGED <<db, pc, val, left, faults, looks, rd>>
Written(x) == SelectSeq([i \in 1..Len(x.p) |-> i], LAMBDA i : x.st[i] = "W")
HashEnd(w) == LET x == loc[w] IN
              /\ pc[w] = "hash" /\ x.i > Len(x.p)
              /\ IF Written(x) = <<>>
                 THEN /\ pc' = [pc EXCEPT ![w] = "idle"] /\ work' = [work EXCEPT !.w = 0] /\ UNCHANGED <<loc, val>>
                      /\ Feed(<<[e |-> "save", w |-> w, now |-> x.now, p |-> x.p, ans |-> "ok", a |-> x.a, b |-> x.a, st |-> x.st, fault |-> 0, bus |-> val[w]]>>)
                 ELSE /\ pc' = [pc EXCEPT ![w] = "log"] /\ loc' = [loc EXCEPT ![w].i = 1] /\ Same /\ UNCHANGED <<work, val>>
              /\ UNCHANGED <<db, left, faults, looks, rd>>
Log(w) == LET x == loc[w]
              k == Written(x)
          IN /\ pc[w] = "log" /\ x.i <= Len(k)
             /\ work' = [work EXCEPT !.db.log = Append(@, [t |-> x.a + x.i - 1, h |-> x.p[k[x.i]][1], v |-> x.p[k[x.i]][2]])]
             /\ loc' = [loc EXCEPT ![w].i = @ + 1]
             /\ Same /\ UNCHANGED <<db, pc, val, left, faults, looks, rd>>
\* the tree entries, then on to commit ("two": the log is committed first, on its own)
Tree(w) == LET x == loc[w]
               k == Written(x)
               mine == {i \in 1..Len(k) : x.p[k[i]][1] # 0 /\ (Variant # "notree" \/ i < 2)}
           IN /\ pc[w] = "log" /\ x.i > Len(k)
              /\ work' = [work EXCEPT !.db.tree = @ \cup {<<x.a + i - 1, x.p[k[i]][1], Facts[x.p[k[i]][1] + 1]>> : i \in mine}]
              /\ db' = IF Variant = "two" THEN [work.db EXCEPT !.tree = db.tree] ELSE db
              /\ val' = IF Variant = "early" THEN [val EXCEPT ![w] = x.at - 1] ELSE val
              /\ pc' = [pc EXCEPT ![w] = "commit"]
              /\ Same /\ UNCHANGED <<loc, left, faults, looks, rd>>
Commit(w) == LET x == loc[w] IN
             /\ pc[w] = "commit" /\ db' = work.db /\ work' = [work EXCEPT !.w = 0] /\ pc' = [pc EXCEPT ![w] = "emit"]
             /\ Feed(<<[e |-> "save", w |-> w, now |-> x.now, p |-> x.p, ans |-> "ok", a |-> x.a, b |-> x.at, st |-> x.st, fault |-> 0, bus |-> -1]>>)
             /\ UNCHANGED <<loc, val, left, faults, looks, rd>>
\* the save happens in the moment of its commit; others may look or save before it is announced
Emit(w) == LET x == loc[w] IN
           /\ pc[w] = "emit" /\ val' = [val EXCEPT ![w] = IF @ > x.at - 1 THEN @ ELSE x.at - 1]
           /\ pc' = [pc EXCEPT ![w] = "idle"]
           /\ Feed(<<[e |-> "told", w |-> w, b |-> x.at, bus |-> val'[w]]>>)
           /\ UNCHANGED <<db, work, loc, left, faults, looks, rd>>
Fail(w) == /\ pc[w] \in {"hash", "log", "commit"} /\ work.w = w /\ faults > 0 /\ faults' = faults - 1
           /\ work' = [work EXCEPT !.w = 0] /\ pc' = [pc EXCEPT ![w] = "idle"]
           /\ val' = IF Variant = "keep" /\ pc[w] = "commit" THEN [val EXCEPT ![w] = loc[w].at - 1] ELSE val
           /\ Feed(<<Answer(w, "err", 0, 0, <<>>, 1)>>)
           /\ UNCHANGED <<db, loc, left, looks, rd>>
\* what a transaction on state d shows
View1(kind, r, d) ==
  [e |-> kind, r |-> r, head |-> End(d.log), log |-> Triples(d.log),
   hash |-> [h \in 1..Hs |-> IF \E y \in d.hash : y[1] = h - 1
                             THEN LET y == CHOOSE y \in d.hash : y[1] = h - 1
                                      j == {j \in 1..Len(d.log) : d.log[j].t = y[2]}
                                  IN IF j = {} THEN <<h - 1, y[2], -1, -4>> ELSE LET k == CHOOSE k \in j : TRUE IN <<h - 1, y[2], d.log[k].h, d.log[k].v>>
                             ELSE <<h - 1, -1, -1, -1>>],
   want |-> <<>>, got |-> <<>>, wantt |-> <<>>, gott |-> <<>>, x |-> 0,
   after |-> Triples(d.log), from |-> Triples(d.log), tree |-> SetToSeq(d.tree)]
Reader == /\ ~rd.on /\ rd' = [on |-> TRUE, db |-> db] /\ Feed(<<[e |-> "reader", r |-> 1]>>)
          /\ UNCHANGED <<db, work, pc, loc, val, left, faults, looks>>
Refresh == /\ rd.on /\ looks > 0 /\ rd' = [on |-> TRUE, db |-> db] /\ looks' = looks - 1 /\ Feed(<<[e |-> "refresh", r |-> 1]>>)
           /\ UNCHANGED <<db, work, pc, loc, val, left, faults>>
Look == /\ rd.on /\ looks > 0 /\ looks' = looks - 1
        /\ Feed(<<View1("look", 1, IF Variant = "live" THEN db ELSE rd.db)>>)
        /\ UNCHANGED <<db, work, pc, loc, val, left, faults, rd>>
Mid == /\ looks > 0 /\ looks' = looks - 1
       /\ Feed(<<View1("fresh", 0, db), [e |-> "mid", log |-> Triples(db.log), bus |-> val, w |-> [i \in W |-> i]]>>)
       /\ UNCHANGED <<db, work, pc, loc, val, left, faults, rd>>
Next == \/ \E w \in W : Begin(w) \/ Hash(w) \/ HashEnd(w) \/ Log(w) \/ Tree(w) \/ Commit(w) \/ Emit(w) \/ Fail(w)
        \/ Reader \/ Refresh \/ Look \/ Mid
S01 == ~\E b \in bad : b[1] = "S01"
S02 == ~\E b \in bad : b[1] = "S02"
S03 == ~\E b \in bad : b[1] = "S03"
Good == bad = {}
=============================================================================
