-------------------------------- MODULE Eval ---------------------------------
(* Meaning of expressions in a scope.                                         *)
(*                                                                            *)
(* A scope is a tree of records [k, c, v, f, m]:                              *)
(*   leaf kinds  bytes uint base comment logic encode argv arglist test none error space *)
(*   inner kinds all (children c are asked in order, the first that knows decides)  *)
EXTENDS Space
R(k, b) == [k |-> k, b |-> b]
Ok(b) == R("ok", b)
Err == R("err", <<>>)
No == R("no", <<>>)
-----------------------------------------------------------------------------
(* lists of (separator, bytes) *)
It(c, b) == [c |-> c, b |-> b]
PushBytes(a, b) == IF a = <<>> THEN <<It(0, b)>> ELSE [a EXCEPT ![Len(a)].b = @ \o b]
PushCtr(a, c) == Append(a, It(c, <<>>))
CtrB(c) == IF c = 0 THEN <<>> ELSE <<c>>
Concat(a) == Flat([i \in DOMAIN a |-> CtrB(a[i].c) \o a[i].b])
PrintList(a) == Flat([i \in DOMAIN a |-> CtrB(a[i].c) \o Enc(a[i].b)])
Exact(a) == a = <<>> \/ (Len(a) = 1 /\ a[1].c = 0)
ExactB(a) == IF a = <<>> THEN <<>> ELSE a[1].b
(* the logical components: a leading separator follows an empty component *)
Components(a) == (IF a # <<>> /\ a[1].c # 0 THEN <<<<>>>> ELSE <<>>) \o [i \in DOMAIN a |-> a[i].b]
RECURSIVE Stages(_)
Stages(a) == IF a = <<>> THEN <<>>
    ELSE LET p == FirstPos(Tail(a), LAMBDA x : x.c = SLASH) IN
         IF p = 0 THEN <<a>> ELSE <<SubSeq(a, 1, p)>> \o Stages(From(a, p + 1))
RECURSIVE Dump(_)
Dump(l) == Flat([i \in DOMAIN l |-> IF l[i].t = "l" THEN <<OPEN>> \o Dump(l[i].l) \o <<CLOSE>> ELSE l[i].b])
-----------------------------------------------------------------------------
(* the functions of the basic scope: name, least and most arguments *)
F(n, lo, hi) == [n |-> n, id |-> B(n), lo |-> lo, hi |-> hi]
BytesFns == <<F("?a", 1, 1), F("?a0", 1, 1), F("a", 1, 3), F("f", 1, 3), F("lpad", 1, 3), F("rpad", 1, 3), F("~lpad", 1, 3),
    F("~rpad", 1, 3), F("lcut", 1, 2), F("rcut", 1, 2), F("~lcut", 1, 2), F("~rcut", 1, 2), F("lfixed", 1, 3),
    F("rfixed", 1, 3), F("replace", 3, 3), F("slice", 1, 4), F("~utf8", 1, 1)>>
UintFns == <<F("+", 1, 16), F("-", 1, 16), F("u8", 1, 1), F("u16", 1, 1), F("u32", 1, 1), F("u64", 1, 1), F("u128", 1, 1),
    F("?u", 1, 1), F("lu", 1, 1), F("lu8", 1, 1), F("lu16", 1, 1), F("lu32", 1, 1), F("lu64", 1, 1), F("lu128", 1, 1), F("?lu", 1, 1)>>
BaseFns == <<F("b2", 1, 1), F("b8", 1, 1), F("?b", 1, 1), F("b16", 1, 1), F("2mini", 1, 1), F("b", 1, 1), F("?bs", 1, 1), F("bs", 1, 1)>>
CommentFns == <<F("C", 1, 16)>>
LogicFns == <<F("size?", 3, 3), F("val?", 3, 3)>>
EncodeFns == <<F("eval", 1, 1), F("?", 2, 8), F("??", 2, 8), F("???", 2, 8)>>
SpaceFns == <<F("?space", 1, 1), F("si", 2, 3), F("s", 1, 8)>>
Fns(k) == CASE k = "space" -> SpaceFns [] k = "bytes" -> BytesFns [] k = "uint" -> UintFns [] k = "base" -> BaseFns [] k = "comment" -> CommentFns
            [] k = "logic" -> LogicFns [] k = "encode" -> EncodeFns [] OTHER -> <<>>
Find(fns, id) == LET p == FirstPos(fns, LAMBDA f : f.id = id) IN p
OfParse(r) == IF r.ok THEN Ok(r.v) ELSE Err
Arg(a, i, dflt) == IF Len(a) >= i THEN a[i] ELSE dflt
-----------------------------------------------------------------------------
(* side: pad or keep at the left; check: too long is an error; fixed: cut to the length first *)
Pad(a, left, dflt, check, fixed) ==
    LET n == IF Arg(a, 2, <<>>) = <<>> THEN [ok |-> TRUE, v |-> 16] ELSE ParseUsize(a[2])
        keep == MinOf(n.v, Len(a[1]))
        b == IF ~fixed THEN a[1] ELSE IF left THEN SubSeq(a[1], 1, keep) ELSE From(a[1], Len(a[1]) - keep + 1)
        p == Arg(a, 3, <<dflt>>)
        fill == Rep(p[1], n.v - Len(b))
    IN IF ~n.ok THEN Err
       ELSE IF n.v < Len(b) THEN (IF check THEN Err ELSE Ok(b))
       ELSE IF Len(p) # 1 THEN Err
       ELSE IF n.v = Big THEN Err
       ELSE Ok(IF left THEN fill \o b ELSE b \o fill)
Cut(a, left, check) ==
    LET n == IF Len(a) < 2 THEN [ok |-> TRUE, v |-> 16] ELSE ParseUsize(a[2]) b == a[1] IN
    IF ~n.ok THEN Err
    ELSE IF n.v > Len(b) THEN (IF check THEN Err ELSE Ok(b))
    ELSE Ok(IF left THEN SubSeq(b, 1, n.v) ELSE From(b, Len(b) - n.v + 1))
RECURSIVE ReplaceB(_, _, _)
ReplaceB(b, from, to) == IF b = <<>> THEN <<>>
    ELSE IF IsPrefix_(from, b) THEN to \o ReplaceB(From(b, Len(from) + 1), from, to)
    ELSE <<b[1]>> \o ReplaceB(Tail(b), from, to)
(* an index: [given, neg, val] or a mistake *)
Index(s) ==
    IF s = <<>> THEN [ok |-> TRUE, given |-> FALSE, neg |-> FALSE, v |-> 0]
    ELSE LET neg == s[1] = 45 r == ParseUsize(IF neg THEN Tail(s) ELSE s) IN [ok |-> r.ok, given |-> TRUE, neg |-> neg, v |-> r.v]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RECURSIVE Walk(_, _, _, _)
Walk(s, i, stop, step) ==
    IF step = 0 \/ (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) \/ i + 1 > Len(s) THEN <<>>
    ELSE <<s[i + 1]>> \o Walk(s, i + step, stop, step)
(* the elements that Python's s[start:stop:step] selects (none for step 0) *)
Slice(s, args) ==
    LET a == Index(Arg(args, 1, <<>>)) z == Index(Arg(args, 2, <<>>))
        st == IF Len(args) < 3 THEN [ok |-> TRUE, v |-> 1] ELSE ParseIsize(args[3])
        n == Len(s)
        lo == IF st.v >= 0 THEN 0 ELSE -1
        hi == IF st.v >= 0 THEN n ELSE n - 1
        bound(x, dflt) == IF ~x.given THEN dflt ELSE Clamp(IF x.neg THEN n - x.v ELSE x.v, lo, IF hi < lo THEN lo ELSE hi)
        first == bound(a, IF st.v >= 0 THEN lo ELSE hi)
        stop == bound(z, IF st.v >= 0 THEN hi ELSE lo)
    IN IF ~(a.ok /\ z.ok /\ st.ok) THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> Walk(s, first, stop, st.v)]
RECURSIVE SumAll(_, _, _)
SumAll(r, rest, sub) == IF rest = <<>> THEN r
    ELSE LET x == IF sub THEN SubBE(r, rest[1]) ELSE AddBE(r, rest[1]) IN
         IF sub /\ x.borrow # 0 THEN Rep(0, Len(r)) ELSE IF ~sub /\ x.carry # 0 THEN Rep(255, Len(r))
         ELSE SumAll(x.v, Tail(rest), sub)
Sum(a, sub) == IF \E i \in DOMAIN a : Len(a[i]) # Len(a[1]) THEN Err ELSE Ok(SumAll(a[1], Tail(a), sub))
Radix(s, radix) == LET r == ParseRadix(s, radix, 16) IN
    IF ~r.ok THEN Err ELSE Ok(LET c == CutPrefix(r.v, 0) IN IF c = <<>> THEN <<0>> ELSE c)
Pure(n, a) ==
    CASE n = "?a" -> Ok(Enc(a[1]))
      [] n = "?a0" -> Ok(Enc(CutPrefix(a[1], 0)))
      [] n \in {"a", "lpad"} -> Pad(a, TRUE, 0, TRUE, FALSE)
      [] n = "f" -> Pad(a, TRUE, 255, TRUE, FALSE)
      [] n = "rpad" -> Pad(a, FALSE, 0, TRUE, FALSE)
      [] n = "~lpad" -> Pad(a, TRUE, 0, FALSE, FALSE)
      [] n = "~rpad" -> Pad(a, FALSE, 0, FALSE, FALSE)
      [] n = "lfixed" -> Pad(a, TRUE, 0, FALSE, TRUE)
      [] n = "rfixed" -> Pad(a, FALSE, 0, FALSE, TRUE)
      [] n = "lcut" -> Cut(a, TRUE, TRUE)
      [] n = "rcut" -> Cut(a, FALSE, TRUE)
      [] n = "~lcut" -> Cut(a, TRUE, FALSE)
      [] n = "~rcut" -> Cut(a, FALSE, FALSE)
      [] n = "replace" -> IF a[2] = <<>> THEN Err ELSE Ok(ReplaceB(a[1], a[2], a[3]))
      [] n = "slice" -> OfParse(Slice(a[1], Tail(a)))
      [] n = "~utf8" -> Ok(Lossy(a[1], 1))
      [] n = "+" -> Sum(a, FALSE)
      [] n = "-" -> Sum(a, TRUE)
      [] n = "u8" -> OfParse(ParseU(a[1], 1))
      [] n = "u16" -> OfParse(ParseU(a[1], 2))
      [] n = "u32" -> OfParse(ParseU(a[1], 4))
      [] n = "u64" -> OfParse(ParseU(a[1], 8))
      [] n = "u128" -> OfParse(ParseU(a[1], 16))
      [] n \in {"lu8", "lu16", "lu32", "lu64", "lu128"} ->
            LET w == CASE n = "lu8" -> 1 [] n = "lu16" -> 2 [] n = "lu32" -> 4 [] n = "lu64" -> 8 [] OTHER -> 16
                r == ParseU(a[1], w) IN IF r.ok THEN Ok(Reverse_(r.v)) ELSE Err
      [] n = "lu" -> LET r == ParseU(a[1], 16) IN IF r.ok THEN Ok(CutEnd(Reverse_(r.v), 0)) ELSE Err
      [] n = "?u" -> IF Len(a[1]) > 16 THEN Err ELSE Ok(Decimal(a[1]))
      [] n = "?lu" -> IF Len(a[1]) > 16 THEN Err ELSE Ok(Decimal(Reverse_(a[1])))
      [] n = "b2" -> Radix(a[1], 2)
      [] n = "b8" -> Radix(a[1], 8)
      [] n = "b16" -> Radix(a[1], 16)
      [] n = "?b" -> Ok(B64(a[1]))
      [] n = "b" -> OfParse(UnB64(a[1]))
      [] n = "?bs" -> Ok(B64Std(a[1]))
      [] n = "bs" -> OfParse(UnB64Std(a[1]))
      [] n = "2mini" -> Ok(MiniB64(a[1]))
      [] n = "C" -> Ok(<<>>)
      [] n = "size?" -> LET r == ParseUsize(a[3]) IN IF r.ok /\ a[2] = <<61>> /\ Len(a[1]) = r.v THEN Ok(a[1]) ELSE Err
      [] n = "?space" -> LET p == DecSpace(a[1]) IN IF p.ok THEN Ok(ShowSpace(p.l)) ELSE Err
      [] n = "si" ->
            LET p == DecSpace(a[1]) i == ParseUsize(a[2]) z == IF Len(a) = 2 THEN [ok |-> TRUE, v |-> i.v + 1] ELSE ParseUsize(a[3])
            IN IF ~(p.ok /\ i.ok /\ z.ok) \/ i.v > MaxDepth \/ z.v < i.v THEN Err ELSE Ok(EncSpace(Range_0(p.l, i.v, z.v)))
      [] n = "s" -> LET p == OfComps(a) IN IF p.ok THEN Ok(EncSpace(p.l)) ELSE Err
      [] n = "val?" -> IF a[2] = <<61>> /\ a[1] = a[3] THEN Ok(a[1]) ELSE Err
-----------------------------------------------------------------------------
(* encoders: from bytes to an expression text *)
Call1(id, s) == <<OPEN>> \o id \o <<COLON>> \o s \o <<CLOSE>>
HexByte(b) == <<B("0123456789ABCDEF")[1 + b \div 16], B("0123456789ABCDEF")[1 + (b % 16)]>>
BinByte(b) == [i \in 1..8 |-> 48 + ((b \div (2 ^ (8 - i))) % 2)]
EncodeRadix(b, opts, radix, id) ==
    LET txt == Flat([i \in DOMAIN b |-> IF radix = 2 THEN BinByte(b[i]) ELSE HexByte(b[i])])
        lens == Now([i \in DOMAIN opts |-> IF opts[i].t # "b" THEN [ok |-> FALSE, v |-> 0] ELSE ParseUsize(opts[i].b)])
    IN IF \E i \in DOMAIN lens : ~lens[i].ok THEN Err
       ELSE IF lens # <<>> /\ \A i \in DOMAIN lens : lens[i].v # Len(b) THEN No
       ELSE IF Radix(txt, radix) = Ok(b) THEN Ok(Call1(id, txt)) ELSE No
RECURSIVE EncodeB(_, _)
EncodeB(b, opts) == IF opts = <<>> THEN No
    ELSE IF opts[1].t # "b" THEN EncodeB(b, Tail(opts))
    ELSE LET r == ParseU(opts[1].b, 4) IN IF ~r.ok THEN Err ELSE IF Cap(r.v) = Len(b) THEN Ok(Call1(B("b"), B64(b))) ELSE EncodeB(b, Tail(opts))
EscSlash(s) == Flat([i \in DOMAIN s |-> IF s[i] = SLASH THEN <<ESC, SLASH>> ELSE <<s[i]>>])
LeafEncode(leaf, id, opts, b) ==
    LET k == leaf.k uint(n) == IF Len(b) = n THEN Ok(Call1(id, Decimal(b))) ELSE No IN
    CASE k = "bytes" /\ id = B("a") ->
            Ok(<<OPEN, 97, COLON>> \o Enc(CutPrefix(b, 0)) \o (IF Len(b) = 16 THEN <<>> ELSE <<COLON>> \o NatDec(Len(b))) \o <<CLOSE>>)
      [] k = "uint" /\ id = B("u8") -> uint(1)
      [] k = "uint" /\ id = B("u16") -> uint(2)
      [] k = "uint" /\ id = B("u32") -> uint(4)
      [] k = "uint" /\ id = B("u64") -> uint(8)
      [] k = "uint" /\ id = B("u128") -> uint(16)
      [] k = "base" /\ id = B("b2") -> EncodeRadix(b, opts, 2, id)
      [] k = "base" /\ id = B("b16") -> EncodeRadix(b, opts, 16, id)
      [] k = "base" /\ id = B("b") -> IF opts = <<>> THEN Ok(Call1(id, B64(b))) ELSE EncodeB(b, opts)
      [] k = "base" /\ id = B("bs") -> Ok(Call1(id, EscSlash(B64Std(b))))
      [] k = "space" /\ id = B("s") -> LET p == DecSpace(b) IN IF p.ok THEN Ok(<<OPEN, SLASH>> \o ShowSpace(p.l) \o <<CLOSE>>) ELSE No
      [] k = "error" -> Err
      [] k = "test" ->
            LET q == {i \in DOMAIN leaf.f : leaf.f[i].id = id /\ leaf.f[i].enc # "none"} IN
            IF q = {} THEN No
            ELSE LET f == leaf.f[CHOOSE i \in q : \A j \in q : i <= j] IN
                 CASE f.enc = "no" -> No [] f.enc = "err" -> Err [] OTHER -> Ok(Flat([i \in 1..f.tag |-> <<OPEN, COLON, CLOSE>>]) \o Enc(b))
      [] OTHER -> No
-----------------------------------------------------------------------------
RECURSIVE Flatten(_)
Flatten(t) == IF t.k = "all" THEN Flat([i \in DOMAIN t.c |-> Flatten(t.c[i])]) ELSE <<t>>
(* the answer of the first that knows; the same by structure of the tree *)
RECURSIVE EncodeIn(_, _, _, _)
EncodeIn(t, id, opts, b) == IF t.k # "all" THEN LeafEncode(t, id, opts, b)
    ELSE IF t.c = <<>> THEN No
    ELSE LET r == EncodeIn(t.c[1], id, opts, b) IN IF r.k # "no" THEN r ELSE EncodeIn([t EXCEPT !.c = Tail(@)], id, opts, b)
RECURSIVE EncodeSteps(_, _, _, _, _)
EncodeSteps(sc, b, parts, ignore, dummy) ==
    IF parts = <<>> THEN Err
    ELSE LET p == parts[1]
             next == EncodeSteps(sc, b, Tail(parts), ignore, dummy)
             try(id, opts) == LET r == EncodeIn(sc, id, opts, b) IN
                 IF r.k = "ok" THEN r ELSE IF r.k = "no" \/ ignore THEN next ELSE Err
         IN IF p = <<>> THEN Ok(Enc(b))
            ELSE IF Len(p) = 1 /\ IsC(p[1], COLON) THEN try(<<>>, <<>>)
            ELSE IF p[1].t = "b" /\ Len(p) = 1 THEN try(p[1].b, <<>>)
            ELSE IF p[1].t = "b" /\ IsC(p[2], COLON) THEN try(p[1].b, From(p, 3))
            ELSE Err
EncodeAbe(sc, b, opts, ignore) ==
    IF opts = <<>> THEN Err ELSE EncodeSteps(sc, b, SplitAt(opts, LAMBDA n : IsC(n, SLASH)), ignore, 0)
EncodeTxt(sc, b, txt, ignore) == LET p == Parse(txt) IN IF ~p.ok THEN Err ELSE EncodeAbe(sc, b, p.l, ignore)
Strip(s, funcToo) ==
    IF s # <<>> /\ s[1] = OPEN /\ Len(s) >= 2 /\ s[Len(s)] = CLOSE THEN
        LET v == SubSeq(s, 2, Len(s) - 1)
            p == FirstPos(v, LAMBDA c : c = COLON)
        IN IF ~funcToo THEN v ELSE IF p = 0 THEN <<>> ELSE From(v, p + 1)
    ELSE s
JoinBars(ss) == Flat([i \in DOMAIN ss |-> <<124>> \o ss[i]])
-----------------------------------------------------------------------------
RECURSIVE EvalL(_, _), EvalNode(_, _), RunStages(_, _, _), CallIn(_, _, _, _, _), MacroIn(_, _, _, _), LeafCall(_, _, _, _, _),
          LeafMacro(_, _, _, _), OrFirst(_, _)
EL(k, l) == [k |-> k, l |-> l]
(* the value of a sequence of parts *)
EvalL(sc, nodes) ==
    LET vals == Now([i \in DOMAIN nodes |-> EvalNode(sc, nodes[i])]) IN
    IF \E i \in DOMAIN nodes : nodes[i].t # "c" /\ vals[i].k # "ok" THEN EL("err", <<>>)
    ELSE EL("ok", FoldLeft(LAMBDA a, i : IF nodes[i].t = "c" THEN PushCtr(a, nodes[i].b[1]) ELSE PushBytes(a, vals[i].b),
                           <<>>, [i \in DOMAIN nodes |-> i]))
EvalNode(sc, n) ==
    CASE n.t = "c" -> No
      [] n.t = "b" -> Ok(n.b)
      [] n.t = "l" ->
        LET ls == n.l IN
        IF ls # <<>> /\ IsC(ls[1], SLASH) THEN
            IF Len(ls) = 1 THEN Err
            ELSE IF ls[2].t = "l" THEN Err
            ELSE IF IsC(ls[2], COLON) THEN Ok(Dump(From(ls, 3)))
            ELSE LET r == IF ls[2].t = "c" THEN MacroIn(sc, <<>>, Tail(ls), sc) ELSE MacroIn(sc, ls[2].b, From(ls, 3), sc)
                 IN IF r.k = "ok" THEN r ELSE Err
        ELSE IF ls # <<>> /\ ls[1].t = "l" THEN Err
        ELSE IF Len(ls) = 2 /\ ls[1].t # "c" /\ ls[2].t # "c" THEN Err
        ELSE LET v == EvalL(sc, ls) IN IF v.k # "ok" THEN Err ELSE RunStages(sc, Stages(v.l), <<>>)
RunStages(sc, st, carry) ==
    IF st = <<>> THEN Ok(carry)
    ELSE LET s == st[1] bs == Now([i \in DOMAIN s |-> s[i].b]) IN
         IF Len(s) > 16 THEN Err
         ELSE IF s[1].c = COLON THEN RunStages(sc, Tail(st), Flat(bs))
         ELSE LET first == s[1].c = 0
                  args == (IF first THEN <<>> ELSE <<carry>>) \o Tail(bs)
                  r == CallIn(sc, bs[1], args, first, sc)
              IN IF r.k = "ok" THEN RunStages(sc, Tail(st), r.b) ELSE Err
CallIn(t, id, args, init, top) ==
    IF t.k # "all" THEN LeafCall(t, id, args, init, top)
    ELSE IF t.c = <<>> THEN No
    ELSE LET r == CallIn(t.c[1], id, args, init, top) IN
         IF r.k # "no" THEN r ELSE CallIn([t EXCEPT !.c = Tail(@)], id, args, init, top)
MacroIn(t, id, body, top) ==
    IF t.k # "all" THEN LeafMacro(t, id, body, top)
    ELSE IF t.c = <<>> THEN No
    ELSE LET r == MacroIn(t.c[1], id, body, top) IN
         IF r.k # "no" THEN r ELSE MacroIn([t EXCEPT !.c = Tail(@)], id, body, top)
LeafCall(leaf, id, args, init, top) ==
    CASE leaf.k = "none" -> No
      [] leaf.k = "error" -> Err
      [] leaf.k = "argv" ->
            IF Len(id) # 1 \/ id[1] \notin 48..55 THEN No
            ELSE IF ~init \/ args # <<>> \/ id[1] - 47 > Len(leaf.v) THEN Err ELSE Ok(leaf.v[id[1] - 47])
      [] leaf.k = "arglist" ->
            IF id = B("argv") THEN LET r == Slice(leaf.v, args) IN IF r.ok THEN Ok(Flat(r.v)) ELSE Err
            ELSE LET r == ParseUsize(id) IN
                 IF ~r.ok THEN No ELSE IF ~init \/ args # <<>> \/ r.v >= Len(leaf.v) THEN Err ELSE Ok(leaf.v[r.v + 1])
      [] leaf.k = "test" ->
            LET q == {i \in DOMAIN leaf.f : leaf.f[i].id = id} IN
            IF q = {} THEN No
            ELSE LET f == leaf.f[CHOOSE i \in q : \A j \in q : i <= j] IN
                 IF (f.init = 1 /\ ~init) \/ (f.init = 2 /\ init) \/ Len(args) < f.lo \/ Len(args) > f.hi THEN Err
                 ELSE CASE f.r = "no" -> No [] f.r = "err" -> Err
                        [] f.r = "args" -> Ok(<<48 + f.tag, IF init THEN 105 ELSE 99>> \o JoinBars(args))
                        [] OTHER -> Ok(<<48 + f.tag>>)
      [] leaf.k = "encode" ->
            LET p == Find(EncodeFns, id) IN
            IF p = 0 THEN No
            ELSE IF Len(args) < EncodeFns[p].lo \/ Len(args) > EncodeFns[p].hi THEN Err
            ELSE IF EncodeFns[p].n = "eval" THEN
                LET q == Parse(args[1]) IN
                IF ~q.ok THEN Err ELSE LET v == EvalL(top, q.l) IN IF v.k = "ok" THEN Ok(Concat(v.l)) ELSE Err
            ELSE IF Len(args) > 2 \/ ~IsUtf8(args[2]) THEN Err
            ELSE LET r == EncodeTxt(top, args[1], args[2], FALSE) IN
                 IF r.k # "ok" THEN Err
                 ELSE CASE EncodeFns[p].n = "?" -> r [] EncodeFns[p].n = "??" -> Ok(Strip(r.b, FALSE)) [] OTHER -> Ok(Strip(r.b, TRUE))
      [] OTHER ->
            LET fns == Fns(leaf.k) p == Find(fns, id) IN
            IF p = 0 THEN No
            ELSE IF Len(args) < fns[p].lo \/ Len(args) > fns[p].hi THEN Err ELSE Pure(fns[p].n, args)
LeafMacro(leaf, id, body, top) ==
    CASE leaf.k = "error" -> Err
      [] leaf.k = "test" ->
            LET q == {i \in DOMAIN leaf.m : leaf.m[i].id = id} IN
            IF q = {} THEN No
            ELSE LET m == leaf.m[CHOOSE i \in q : \A j \in q : i <= j] IN
                 CASE m.r = "no" -> No [] m.r = "err" -> Err [] OTHER -> Ok(<<48 + m.tag>> \o Show(body))
      [] leaf.k = "space" /\ id \in {<<>>, B("~")} ->
            LET v == EvalL(top, body)
                p == OfList(IF id = <<>> THEN v.l ELSE SelectSeq(v.l, LAMBDA x : x.b # <<>>))
            IN IF v.k = "ok" /\ p.ok THEN Ok(EncSpace(p.l)) ELSE Err
      [] leaf.k = "logic" /\ id = B("or") ->
            LET parts == SplitAt(body, LAMBDA n : IsC(n, COLON)) IN
            IF parts[1] # <<>> THEN Err ELSE OrFirst(top, Tail(parts))
      [] leaf.k = "encode" /\ id = B("e") ->
            IF body = <<>> \/ ~IsC(body[1], COLON) THEN Err
            ELSE LET v == EvalL(top, Tail(body)) IN IF v.k = "ok" THEN Ok(Concat(v.l)) ELSE Err
      [] leaf.k = "encode" /\ id \in {B("?"), B("~?")} ->
            IF body = <<>> \/ ~IsC(body[1], COLON) THEN Err
            ELSE LET p == FirstPos(body, LAMBDA n : IsC(n, SLASH))
                     subj == IF p = 0 THEN Tail(body) ELSE SubSeq(body, 2, p - 1)
                     opts == IF p = 0 THEN <<>> ELSE From(body, p + 1)
                     v == EvalL(top, subj)
                 IN IF v.k # "ok" THEN Err ELSE EncodeAbe(top, Concat(v.l), opts, id = B("~?"))
      [] OTHER -> No
OrFirst(sc, parts) == IF parts = <<>> THEN Err
    ELSE LET v == EvalL(sc, parts[1]) IN IF v.k = "ok" THEN Ok(Concat(v.l)) ELSE OrFirst(sc, Tail(parts))
-----------------------------------------------------------------------------
Leaf(k) == [k |-> k, c |-> <<>>, v |-> <<>>, f |-> <<>>, m |-> <<>>]
All(c) == [k |-> "all", c |-> c, v |-> <<>>, f |-> <<>>, m |-> <<>>]
Basic == All(<<Leaf("bytes"), Leaf("uint"), Leaf("base"), Leaf("comment"), Leaf("logic"), Leaf("encode")>>)
SpaceText(txt) == LET p == Parse(txt) v == IF p.ok /\ SpaceShape(p.l) THEN EvalL(Basic, p.l) ELSE EL("err", <<>>) IN
    IF v.k = "ok" THEN OfList(v.l) ELSE SBad
RECURSIVE Expand(_)
Expand(t) == IF t.k = "basic" THEN Basic ELSE IF t.k = "spacy" THEN All(<<Basic, Leaf("space")>>) ELSE [t EXCEPT !.c = Now([i \in DOMAIN t.c |-> Expand(t.c[i])])]
EvalTxt(sc, txt) == LET p == Parse(txt) IN IF ~p.ok THEN EL("err", <<>>) ELSE EvalL(sc, p.l)
=============================================================================
