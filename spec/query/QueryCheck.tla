----------------------------- MODULE QueryCheck ------------------------------
(* What the code answered about predicates.                                    *)
EXTENDS Pred, Records
Yes(c, why) == IF c THEN "" ELSE why
B1(c) == IF c THEN 1 ELSE 0
OpName(c) == CASE c = 63 -> NOP [] c = 61 -> EQ [] c = 60 -> LT [] c = 62 -> GT [] c = 48 -> M0 [] c = 49 -> M1
(* one number *)
RECURSIVE Enum(_, _, _)
Enum(rules, v, k) == LET s == SmallestFrom(rules, v) IN
    IF k = 0 \/ ~s.k THEN <<>>
    ELSE LET n == IncD(s.v) IN <<s.v>> \o (IF n.k THEN Enum(rules, n.v, k - 1) ELSE <<>>)
(* the next few numbers: members or not, up to the largest that the bounds allow; the largest of all is left out *)
RECURSIVE Iter(_, _, _)
Iter(rules, v, k) ==
    LET b == SelectSeq(rules, LAMBDA r : r.op \in {EQ, LT})
        over == \E i \in DOMAIN b : (b[i].op = EQ /\ LexLt(b[i].v, v)) \/ (b[i].op = LT /\ ~LexLt(v, b[i].v))
        n == IncD(v)
    IN IF k = 0 \/ over \/ ~n.k THEN <<>> ELSE <<B1(Member(rules, v))>> \o Iter(rules, n.v, k - 1)
WhySet(x) ==
    LET rules == Now([i \in DOMAIN x.rules |-> [op |-> OpName(x.rules[i].op), v |-> x.rules[i].v]])
        sat == Now([i \in DOMAIN rules |-> B1(Satisfiable(SubSeq(rules, 1, i), x.w))])
        stop == FirstPos(sat, LAMBDA s : s = 0)
        want == IF stop = 0 THEN sat ELSE SubSeq(sat, 1, stop)
        bads == {i \in DOMAIN x.probes :
                    LET p == x.probes[i] a == x.r.l[i] m == B1(Member(rules, p)) s == SmallestFrom(rules, p) IN
                    ~(a.t = m /\ a.a = m /\ a.in = m /\ a.val = s.v
                      /\ (x.w > 2 \/ (a.en = Enum(rules, p, 3) /\ a.it = Iter(rules, p, 4))))}
    IN IF x.r.k # "ok" THEN "no answer"
       ELSE IF x.r.b # want THEN "a contradiction is accepted, or what is none is refused"
       ELSE IF stop # 0 THEN ""
       ELSE Yes(Len(x.r.l) = Len(x.probes) /\ bads = {}, "wrong members")
(* a query *)
Str(b) == b
RECURSIVE Build(_, _, _)
Build(stmts, q, i) == IF i > Len(stmts) THEN [ok |-> TRUE, q |-> q, i |-> i]
    ELSE LET s == Stated(q, stmts[i]) IN
         IF ~s.ok \/ Hopeless(s.q) THEN [ok |-> FALSE, q |-> q, i |-> i] ELSE Build(stmts, s.q, i + 1)
(* statements after which no packet can be left, though the numbers may be; either answer will do *)
FirstOdd(stmts) == {i \in DOMAIN stmts : LET r == Build(SubSeq(stmts, 1, i), EmptyQuery, 1) IN r.ok /\ Odd(r.q)}
Name(b) == LET ns == {n \in Numbers \cup Spaces : B(n) = b} IN IF ns = {} THEN "none" ELSE CHOOSE n \in ns : TRUE
WhyQuery(x) ==
    LET st == Now([i \in DOMAIN x.stmts |-> [name |-> Name(x.stmts[i].name), op |-> x.stmts[i].op, sp |-> x.stmts[i].sp, val |-> x.stmts[i].val, comps |-> x.stmts[i].comps]])
        r == Build(st, EmptyQuery, 1)
        n == Len(x.r.b)
        cut == x.r.b[n] = 0
        odd == {i \in FirstOdd(SubSeq(st, 1, MinOf(n, r.i - 1))) : TRUE}
        verdict(q, p) == IF ~Can(q, "i_new") THEN 2 ELSE B1(Passes(q, p))
        want == Now([i \in DOMAIN x.pkts |-> verdict(r.q, x.pkts[i])])
        lim == Now([k \in 1..4 |-> Now([i \in DOMAIN x.lims |-> B1(Member(RulesOn(r.q, <<"i", "i_new", "i_db", "i_branch">>[k]), x.lims[i]))])])
    IN IF x.r.k # "ok" \/ n = 0 THEN "no answer"
       ELSE IF cut /\ n \in odd THEN ""
       ELSE IF cut THEN Yes(~r.ok /\ r.i = n, "a statement is refused that is right")
       ELSE IF ~r.ok THEN "a statement is accepted that is wrong or contradicts others"
       ELSE IF x.r.l[1].v # want THEN "other packets are accepted"
       ELSE IF x.r.l[1].lim # lim THEN "other limits"
       ELSE IF \E i \in DOMAIN x.r.l : x.r.l[i].ok = 0 THEN "its text is refused"
       ELSE IF \E i \in DOMAIN x.r.l : x.r.l[i].v # want THEN "its text accepts other packets"
       ELSE Yes(Len(x.r.l) = 5 /\ \A i \in DOMAIN x.r.l : x.r.l[i].lim = lim, "its text has other limits")
(* the newest option of that name *)
OptionOf(opts, n) ==
    LET p == LastPos(opts, LAMBDA o : o.name = n) IN
    IF p = 0 THEN [k |-> "none", v |-> <<>>]
    ELSE CASE Len(opts[p].vals) = 0 -> [k |-> "bare", v |-> <<>>] [] Len(opts[p].vals) = 1 -> [k |-> "one", v |-> opts[p].vals[1]] [] OTHER -> [k |-> "many", v |-> <<>>]
WhyOptions(x) ==
    LET want == Now([i \in DOMAIN x.names |-> OptionOf(x.opts, x.names[i])]) IN
    IF x.r.k # "ok" THEN "refused, or its text says something else"
    ELSE IF x.r.l[1] # want THEN "other options" ELSE Yes(Len(x.r.l) = 4 /\ \A i \in DOMAIN x.r.l : x.r.l[i] = want, "its text has other options")
WhyRecord(x) ==
    CASE x.op = "set" -> WhySet(x)
      [] x.op = "query" -> WhyQuery(x)
      [] x.op = "options" -> WhyOptions(x)
      [] x.op = "example" -> Yes(x.r.k = (IF x.opn # "=" /\ x.name \in Spaces THEN "err" ELSE "ok"), "the documented example is refused")
      [] OTHER -> "unknown record"
=============================================================================
