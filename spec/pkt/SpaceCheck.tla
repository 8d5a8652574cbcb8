----------------------------- MODULE SpaceCheck ------------------------------
(* What the code answered about spaces, against their meaning as lists.       *)
EXTENDS Eval, Records
Yes(c, why) == IF c THEN "" ELSE why
SameB(r, e) == IF e.k # "ok" THEN Yes(r.k # "ok", "accepted, should be refused")
               ELSE IF r.k # "ok" THEN "refused, should be accepted" ELSE Yes(r.b = e.b, "wrong bytes")
Is(r, b) == SameB(r, Ok(b))
IsL(r, l) == IF r.k # "ok" THEN "refused, should be accepted" ELSE Yes(r.l = l, "wrong list")
Bytes_(p) == IF p.ok THEN Ok(EncSpace(p.l)) ELSE Err
Rooted_(p) == IF p.ok THEN Ok(RootOf(p.l)) ELSE Err
Comps_(r, p) == IF p.ok THEN IsL(r, p.l) ELSE Yes(r.k # "ok", "accepted, should be refused")
Bool(b) == <<IF b THEN 1 ELSE 0>>
AllBut(l) == SubSeq(l, 1, Len(l) - 1)
Last1(l) == IF l = <<>> THEN <<>> ELSE <<l[Len(l)]>>
Head1(l) == IF l = <<>> THEN <<>> ELSE <<l[1]>>
Tail0(l) == IF l = <<>> THEN <<>> ELSE Tail(l)
Each(ls) == Now([i \in DOMAIN ls |-> EncSpace(ls[i])])
Starts(l) == [i \in 1..Len(l) |-> SubSeq(l, 1, i)]
Full(l) == Now([i \in 1..MaxDepth |-> IF i <= Len(l) THEN l[i] ELSE <<>>])
WhySpace(x) ==
    LET r == x.r IN
    CASE x.op = "build" -> SameB(r, Bytes_(OfComps(x.l)))
      [] x.op = "rbuild" -> SameB(r, Rooted_(OfComps(x.l)))
      [] x.op = "read" -> Comps_(r, DecSpace(x.in))
      [] x.op = "rread" -> Comps_(r, DecRooted(x.in))
      [] x.op = "readlen" -> LET p == DecSpace(x.in) IN SameB(r, IF p.ok THEN Ok(<<Len(p.l)>>) ELSE Err)
      \* on valid spaces
      [] x.op = "torooted" -> Is(r, RootOf(x.l))
      [] x.op = "tospace" -> Is(r, EncSpace(x.l))
      [] x.op = "list" -> IsL(r, x.l)
      [] x.op = "slots" -> IsL(r, Full(x.l))
      [] x.op = "depth" -> Is(r, <<Len(x.l)>>)
      [] x.op = "size" -> Is(r, <<Len(EncSpace(x.l))>>)
      [] x.op = "empty" -> Is(r, Bool(x.l = <<>>))
      [] x.op = "cmp" -> Is(r, <<SpaceOrder(x.l, x.m)>>)
      [] x.op = "eq" -> Is(r, Bool(x.l = x.m))
      [] x.op = "starts" -> Is(r, Bool(IsPrefix_(x.m, x.l)))
      [] x.op = "strip" -> IF IsPrefix_(x.m, x.l) THEN Is(r, EncSpace(From(x.l, Len(x.m) + 1))) ELSE Yes(r.k = "no", "not a prefix")
      [] x.op = "join" -> SameB(r, Bytes_(OfComps(x.l \o x.m)))
      [] x.op = "rjoin" -> SameB(r, Rooted_(OfComps(x.l \o x.m)))
      [] x.op = "parent" -> IF x.l = <<>> THEN Yes(r.k = "no", "the empty space has no parent") ELSE Is(r, EncSpace(AllBut(x.l)))
      [] x.op = "shorter" -> Is(r, IF x.l = <<>> THEN <<>> ELSE EncSpace(AllBut(x.l)))
      [] x.op = "last" -> IsL(r, Last1(x.l))
      [] x.op = "lastor" -> Is(r, Flat(Last1(x.l)))
      [] x.op = "pop" -> IsL(r, <<EncSpace(IF x.l = <<>> THEN <<>> ELSE AllBut(x.l))>> \o Last1(x.l))
      [] x.op = "splitlast" -> IsL(r, Each(<<IF x.l = <<>> THEN <<>> ELSE AllBut(x.l)>> \o (IF x.l = <<>> THEN <<>> ELSE <<Last1(x.l)>>)))
      [] x.op = "head" -> IsL(r, Head1(x.l))
      [] x.op = "first" -> Is(r, Flat(Head1(x.l)))
      [] x.op = "tail" -> Is(r, EncSpace(Tail0(x.l)))
      [] x.op = "splitfirst" -> IsL(r, IF x.l = <<>> THEN <<>> ELSE <<x.l[1], EncSpace(Tail(x.l))>>)
      [] x.op = "splitat" -> IsL(r, Each(<<Range_0(x.l, 0, x.n), Range_0(x.l, x.n, MaxDepth)>>))
      [] x.op = "range" -> Is(r, EncSpace(Range_0(x.l, x.n, x.n2)))
      [] x.op = "scan" -> IsL(r, Each(Starts(x.l)))
      [] x.op = "track" -> IsL(r, Each([i \in 1..2 * Len(x.l) |-> IF i % 2 = 1 THEN SubSeq(x.l, 1, (i + 1) \div 2) ELSE From(x.l, (i \div 2) + 1)]))
      [] x.op = "comp" -> Is(r, Full(x.l)[x.n + 1])
      \* texts
      [] x.op = "show" -> LET p == IF r.k = "ok" THEN SpaceText(r.b) ELSE SBad IN Yes(p.ok /\ p.l = x.l, "the text means another space")
      [] x.op = "showabe" -> LET p == IF r.k = "ok" /\ EvalL(Basic, r.l).k = "ok" THEN OfList(EvalL(Basic, r.l).l) ELSE SBad IN
            Yes(p.ok /\ p.l = x.l, "the expression means another space")
      [] x.op = "ablist" -> Yes(r.k = "ok" /\ OfList(r.l) = SOk(x.l), "the list means another space")
      [] x.op = "text" -> SameB(r, Bytes_(SpaceText(x.in)))
      [] x.op = "rtext" -> SameB(r, Rooted_(SpaceText(x.in)))
      [] x.op = "oflist" -> SameB(r, Bytes_(OfList(x.ab)))
      [] x.op = "eval" -> LET v == EvalTxt(Expand([k |-> "spacy"]), x.in) IN SameB(r, IF v.k = "ok" THEN Ok(Concat(v.l)) ELSE Err)
      [] x.op = "encode" ->
            LET sc == Expand([k |-> "spacy"])
                e == EncodeTxt(sc, x.in, B("s"), FALSE)
                v == IF r.k = "ok" THEN EvalTxt(sc, r.b) ELSE EL("err", <<>>)
            IN IF e.k # "ok" THEN Yes(r.k # "ok", "accepted, should be refused")
               ELSE Yes(r.k = "ok" /\ v.k = "ok" /\ Exact(v.l) /\ ExactB(v.l) = x.in, "does not evaluate back")
      [] OTHER -> "unknown record"
=============================================================================
