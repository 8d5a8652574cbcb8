-------------------------------- MODULE Pred ---------------------------------
(* Predicates.  Numbers are big-endian lists of digits (bytes, or single bits  *)
(* in the model) of one length per field; a rule is an operator with a value   *)
(* and a set of rules stands for the numbers that pass each of them.           *)
EXTENDS Space, Bitwise
NOP == "?"   EQ == "="   LT == "<"   GT == ">"   GE == ">="   LE == "<="
M0 == "0"    M1 == "1"   HEAD == "=*" TAIL == "*="
PlainOps == {NOP, EQ, LT, GT, M0, M1}
Ops == PlainOps \cup {GE, LE, HEAD, TAIL}
Holds(op, a, v) ==
    CASE op = NOP -> TRUE
      [] op = EQ -> a = v
      [] op = LT -> LexLt(a, v)
      [] op = GT -> LexLt(v, a)
      [] op = LE -> ~LexLt(v, a)
      [] op = GE -> ~LexLt(a, v)
      [] op = M0 -> \A i \in DOMAIN a : (a[i] | v[i]) = v[i]     \* zero where v is
      [] op = M1 -> \A i \in DOMAIN a : (a[i] & v[i]) = v[i]     \* one where v is
      [] op = HEAD -> IsPrefix_(v, a)
      [] op = TAIL -> SubSeq(a, Len(a) - Len(v) + 1, Len(a)) = v
Member(rules, a) == \A i \in DOMAIN rules : Holds(rules[i].op, a, rules[i].v)
-----------------------------------------------------------------------------
(* the smallest member that is not below v *)
Base == 256
Width_ == 8
Bit(x, k) == (x \div 2 ^ k) % 2
BitsOf(b) == Now([i \in 1..Width_ * Len(b) |-> Bit(b[1 + (i - 1) \div Width_], Width_ - 1 - ((i - 1) % Width_))])
RECURSIVE Num_(_)
Num_(s) == IF s = <<>> THEN 0 ELSE Num_(SubSeq(s, 1, Len(s) - 1)) * 2 + s[Len(s)]
OfBits(s) == Now([i \in 1..Len(s) \div Width_ |-> Num_(SubSeq(s, (i - 1) * Width_ + 1, i * Width_))])
None == [k |-> FALSE, v |-> <<>>]
Some(v) == [k |-> TRUE, v |-> v]
IncD(a) == LET p == LastPos(a, LAMBDA x : x # Base - 1) IN
    IF p = 0 THEN None ELSE Some(SubSeq(a, 1, p - 1) \o <<a[p] + 1>> \o Rep(0, Len(a) - p))
(* which bits must be one, which may be *)
OnesOf(r, w) == CASE r.op = M1 -> r.v [] r.op = HEAD -> r.v \o Rep(0, w - Len(r.v)) [] r.op = TAIL -> Rep(0, w - Len(r.v)) \o r.v [] OTHER -> Rep(0, w)
MaysOf(r, w) == CASE r.op = M0 -> r.v [] r.op = HEAD -> r.v \o Rep(Base - 1, w - Len(r.v)) [] r.op = TAIL -> Rep(Base - 1, w - Len(r.v)) \o r.v [] OTHER -> Rep(Base - 1, w)
OrD(a, b) == Now([i \in DOMAIN a |-> a[i] | b[i]])
AndD(a, b) == Now([i \in DOMAIN a |-> a[i] & b[i]])
NextMask(v, ones, mays) ==
    LET bad == FirstPos(Now([i \in DOMAIN v |-> (v[i] = 0 /\ ones[i] = 1) \/ (v[i] = 1 /\ mays[i] = 0)]), LAMBDA x : x)
        ps == {i \in 1..bad : v[i] = 0 /\ mays[i] = 1}
        p == CHOOSE i \in ps : \A j \in ps : j <= i
    IN IF \E i \in DOMAIN v : ones[i] = 1 /\ mays[i] = 0 THEN None
       ELSE IF bad = 0 THEN Some(v)
       ELSE IF ps = {} THEN None
       ELSE Some(SubSeq(v, 1, p - 1) \o <<1>> \o From(ones, p + 1))
LowOf(r, w) == CASE r.op \in {EQ, GE} -> Some(r.v) [] r.op = GT -> IncD(r.v) [] OTHER -> Some(Rep(0, w))
SmallestFrom(rules, v) ==
    LET w == Len(v)
        lows == Now([i \in DOMAIN rules |-> LowOf(rules[i], w)])
        low == FoldLeft(LAMBDA a, l : IF LexLt(a, l.v) THEN l.v ELSE a, v, lows)
        ones == FoldLeft(LAMBDA a, r : OrD(a, OnesOf(r, w)), Rep(0, w), rules)
        mays == FoldLeft(LAMBDA a, r : AndD(a, MaysOf(r, w)), Rep(Base - 1, w), rules)
        c == NextMask(BitsOf(low), BitsOf(ones), BitsOf(mays))
        d == OfBits(c.v)
    IN IF \E i \in DOMAIN lows : ~lows[i].k THEN None
       ELSE IF ~c.k \/ ~Member(rules, d) THEN None ELSE Some(d)
Satisfiable(rules, w) == SmallestFrom(rules, Rep(0, w)).k
(* the bounds alone leave a single number *)
Pinned(rules, w) ==
    LET b == SelectSeq(rules, LAMBDA r : r.op \in {EQ, LT, GT, GE, LE})
        s == SmallestFrom(b, Rep(0, w))
        n == IncD(s.v)
    IN s.k /\ (~n.k \/ ~Member(b, n.v))
-----------------------------------------------------------------------------
(* what is asked of packets: field names, the width of their values, and which packets have them *)
Width(n) ==
    CASE n \in {"type", "netflags", "depth"} -> 1
      [] n \in {"size", "data_size", "links_len"} -> 2
      [] n \in {"hop", "ubits0", "ubits1", "ubits2", "ubits3", "i", "i_new", "i_db", "i_branch"} -> 4
      [] n \in {"stamp", "create", "recv"} -> 8
      [] n = "domain" -> 16
      [] n \in {"group", "pubkey", "hash"} -> 32
      [] OTHER -> 0
Limits == {"i", "i_new", "i_db", "i_branch"}
Spaces == {"prefix", "spacename"}
Numbers == {"type", "netflags", "depth", "size", "data_size", "links_len", "hop", "ubits0", "ubits1", "ubits2", "ubits3", "stamp", "create", "recv",
            "domain", "group", "pubkey", "hash"} \cup Limits
(* bits of the type that a rule about the field asks for *)
Implied(n) ==
    CASE n \in {"group", "domain", "create", "depth", "links_len"} \cup Spaces -> {2}
      [] n = "pubkey" -> {4}
      [] OTHER -> {}
(* a value as it is written: shorter domains have leading zeros, 32 byte values may be in base 64 *)
Value(n, b) ==
    LET w == Width(n) IN
    IF w # 32 /\ n # "domain" THEN (IF Len(b) = w THEN Some(b) ELSE None)
    ELSE IF w = 32 THEN (IF Len(b) = 32 THEN Some(b)
                         ELSE IF Len(b) # 43 THEN None
                         ELSE LET d == UnB64(b) IN IF d.ok THEN Some(d.v) ELSE None)
    ELSE IF Len(b) <= w THEN Some(Rep(0, w - Len(b)) \o b) ELSE None
(* masks on when a packet was received are not supported *)
Applies(n, op) == (n # "recv" \/ op \notin {M0, M1, HEAD, TAIL})
-----------------------------------------------------------------------------
(* a query: its rules about numbers, and the prefixes its spaces must have *)
EmptyQuery == [rules |-> [n \in {} |-> 0], prefix |-> <<>>, spaced |-> FALSE]
RulesOn(q, n) == IF n \in DOMAIN q.rules THEN q.rules[n] ELSE <<>>
AddRule(q, n, op, v) == [q EXCEPT !.rules = (n :> Append(RulesOn(q, n), [op |-> op, v |-> v])) @@ q.rules]
AddImplied(q, n) == IF Implied(n) = {} THEN q ELSE AddRule(q, "type", M1, <<CHOOSE x \in Implied(n) : TRUE>>)
PreOf(p, l) == Len(p) <= Len(l) /\ \A i \in DOMAIN p : p[i] = l[i]
NewQuery(x) == [ok |-> TRUE, q |-> x]
NoQuery == [ok |-> FALSE, q |-> EmptyQuery]
(* one more statement; not whether it can be satisfied *)
Stated(q, s) ==
    IF s.name \in Spaces THEN
        LET l == IF s.sp = 1 THEN OfComps(s.comps) ELSE DecSpace(s.val) IN
        IF s.op # EQ \/ ~l.ok THEN NoQuery
        ELSE IF ~PreOf(l.l, q.prefix) /\ ~PreOf(q.prefix, l.l) THEN NoQuery
        ELSE IF s.name = "spacename" /\ ~PreOf(q.prefix, l.l) THEN NoQuery
        ELSE LET p == AddImplied([q EXCEPT !.prefix = IF Len(l.l) > Len(q.prefix) THEN l.l ELSE q.prefix], s.name)
                 e == IF s.name = "spacename" THEN AddRule(p, "depth", EQ, <<Len(l.l)>>) ELSE p
             IN NewQuery(IF l.l = <<>> THEN e ELSE AddRule(e, "depth", GE, <<Len(l.l)>>))
    ELSE IF s.name \notin Numbers \/ s.op \notin Ops \/ s.sp = 1 THEN NoQuery
    ELSE IF ~Applies(s.name, s.op) THEN NoQuery
    ELSE LET v == IF s.op \in {HEAD, TAIL} THEN (IF Len(s.val) <= Width(s.name) THEN Some(s.val) ELSE None) ELSE Value(s.name, s.val)
             a == AddRule(AddImplied(q, s.name), s.name, s.op, v.v)
         IN IF ~v.k THEN NoQuery
            ELSE IF s.name = "hash" /\ Pinned(RulesOn(a, "hash"), 32) THEN NewQuery(AddRule(a, "i", EQ, Rep(0, 4)))
            ELSE NewQuery(a)
Can(q, n) == Satisfiable(RulesOn(q, n), Width(n))
Hopeless(q) ==
    \/ \E n \in DOMAIN q.rules \ (Limits \ {"i"}) : ~Can(q, n)
    \/ ~Can(q, "i_new") /\ (~Can(q, "i_db") \/ ~Can(q, "i_branch"))
(* no packet there is, though some number, has this type or depth *)
Odd(q) == (\A t \in {1, 3, 7} : ~Member(RulesOn(q, "type"), <<t>>)) \/ (\A d \in 0..MaxDepth : ~Member(RulesOn(q, "depth"), <<d>>))
(* the packet is a function from fields to values, <<>> where it has none; its number of earlier matches is among them *)
Passes(q, p) ==
    /\ \A n \in DOMAIN q.rules \ {"i_db", "i_branch"} : p[n] # <<>> /\ Member(q.rules[n], p[n])
    /\ q.prefix # <<>> => (p.spaced = 1 /\ PreOf(q.prefix, p.space))
=============================================================================
