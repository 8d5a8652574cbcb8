------------------------------- MODULE DbCheck -------------------------------
(* Reading the database: which packets a query gives, in which order, and what *)
(* the limits on positions leave of them.                                      *)
EXTENDS Pred, Records
Yes(c, why) == IF c THEN "" ELSE why
Name(b) == LET ns == {n \in Numbers \cup Spaces : B(n) = b} IN IF ns = {} THEN "none" ELSE CHOOSE n \in ns : TRUE
RECURSIVE Build(_, _, _)
Build(stmts, q, i) == IF i > Len(stmts) THEN NewQuery(q)
    ELSE LET s == Stated(q, stmts[i]) IN IF ~s.ok THEN s ELSE Build(stmts, s.q, i + 1)
Four(k) == <<0, 0, k \div 256, k % 256>>
-----------------------------------------------------------------------------
(* which packets, whatever their position *)
Wanted(q, p) ==
    /\ \A n \in DOMAIN q.rules \ Limits : p[n] # <<>> /\ Member(q.rules[n], p[n])
    /\ q.prefix # <<>> => (p.spaced = 1 /\ PreOf(q.prefix, p.space))
(* what an index is sorted by; the tree has the packets with a space *)
Branch(p) == p.group \o p.domain \o p.depth \o EncSpace(p.space) \o (IF p.pubkey = <<>> THEN Rep(0, 32) ELSE p.pubkey)
Before(table, asc, p, o) ==
    CASE table = "log" -> (IF asc THEN LexLt(p.recv, o.recv) ELSE LexLt(o.recv, p.recv))
      [] table = "hash" -> (IF asc THEN LexLt(p.hash, o.hash) ELSE LexLt(o.hash, p.hash))
      [] OTHER -> LET a == Branch(p) c == Branch(o) x == p.create \o p.hash y == o.create \o o.hash IN
                  IF a = c THEN (IF asc THEN LexLt(x, y) ELSE LexLt(y, x)) ELSE LexLt(a, c)
Table(mode) == CASE mode \in {"log-asc", "log-desc"} -> "log" [] mode \in {"hash-asc", "hash-desc"} -> "hash" [] OTHER -> "tree"
Asc(mode) == mode \in {"log-asc", "hash-asc", "tree-asc"}
(* the packets of that table that are wanted, in its order *)
Sorted(pkts, ids, table, asc) ==
    LET l == SetToSeq(ids) IN SortSeq(l, LAMBDA i, j : Before(table, asc, pkts[i], pkts[j]))
Found(q, mode, pkts) ==
    Sorted(pkts, {i \in DOMAIN pkts : (Table(mode) = "tree" => pkts[i].spaced = 1) /\ Wanted(q, pkts[i])}, Table(mode), Asc(mode))
(* what is left when only some positions are asked for *)
Places(l, P(_)) == LET k == SelectSeq(Now([i \in DOMAIN l |-> [v |-> l[i], ok |-> P(i)]]), LAMBDA x : x.ok) IN Now([i \in DOMAIN k |-> k[i].v])
OfBranch(l, pkts, i) == Cardinality({j \in 1..i - 1 : Branch(pkts[l[j]]) = Branch(pkts[l[i]])})
Limited(q, mode, pkts) ==
    LET l == Found(q, mode, pkts)
        m == IF Table(mode) # "tree" \/ RulesOn(q, "i_branch") = <<>> THEN l
             ELSE Places(l, LAMBDA i : Member(RulesOn(q, "i_branch"), Four(OfBranch(l, pkts, i))))
    IN Places(m, LAMBDA i : Member(RulesOn(q, "i_db"), Four(i - 1)))
-----------------------------------------------------------------------------
WhyDb(x) ==
    LET st == Now([i \in DOMAIN x.stmts |-> [name |-> Name(x.stmts[i].name), op |-> x.stmts[i].op, sp |-> x.stmts[i].sp, val |-> x.stmts[i].val, comps |-> x.stmts[i].comps]])
        q == Build(st, EmptyQuery, 1)
        m == Limited(q.q, x.mode, x.pkts)
        is == RulesOn(q.q, "i")
        at == Places(Now([i \in DOMAIN m |-> i]), LAMBDA i : Member(is, Four(x.start + i - 1)))     \* positions in m that are given
        all == Now([i \in DOMAIN at |-> m[at[i]] - 1])
        cut == x.brk > 0 /\ Len(all) >= x.brk
        want == CASE x.what = "get" -> SubSeq(all, 1, MinOf(1, Len(all)))
                  [] cut -> SubSeq(all, 1, x.brk)
                  [] OTHER -> all
        \* how many were counted: the last one given, and those after it that are no more than passed over
        least == IF want = <<>> THEN 0 ELSE at[Len(want)]
        most == IF cut THEN least ELSE Len(m)
    IN IF x.r.k # "ok" \/ Len(x.r.b) # 2 THEN "no answer"
       ELSE IF ~q.ok THEN ""       \* such a statement is refused, which is another property's
       ELSE IF \E i \in DOMAIN x.r.l : x.r.l[i] \notin 0..Len(x.pkts) - 1 THEN "something that is not a packet of the database"
       ELSE IF ToSet(x.r.l) # ToSet(want) THEN "other packets"
       ELSE IF x.r.l # want THEN "another order, or some more than once"
       ELSE IF x.what = "get" THEN ""
       ELSE IF x.r.b[2] - x.start \notin least..most \/ (is = <<>> /\ x.r.b[2] - x.start # most) THEN "another count"
       ELSE Yes((x.r.b[1] = 1) = cut, "whether it was broken off")
WhyHashes(x) ==
    LET all == SelectSeq(x.want, LAMBDA i : i >= 0)
        cut == x.brk > 0 /\ Len(all) >= x.brk
        want == IF cut THEN SubSeq(all, 1, x.brk) ELSE all
    IN IF x.r.k # "ok" \/ Len(x.r.b) # 2 THEN "no answer"
       ELSE IF x.r.l # want THEN "other packets"
       ELSE Yes(x.r.b = <<IF cut THEN 1 ELSE 0, Len(want)>>, "another count")
WhyRecord(x) ==
    CASE x.op = "db" -> WhyDb(x)
      [] x.op = "hashes" -> WhyHashes(x)
      [] OTHER -> "unknown record"
=============================================================================
