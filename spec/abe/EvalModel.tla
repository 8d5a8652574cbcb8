------------------------------ MODULE EvalModel ------------------------------
(* Every short expression in several scopes, and every short byte string with  *)
(* every list of encoders.                                                     *)
EXTENDS Eval
CONSTANTS Size, Bytes_, BSize
Fn(id, init, lo, hi, r, tag, enc) == [id |-> B(id), init |-> init, lo |-> lo, hi |-> hi, r |-> r, tag |-> tag, enc |-> enc]
Mc(id, r, tag) == [id |-> B(id), r |-> r, tag |-> tag]
Tst(f, m) == [Leaf("test") EXCEPT !.f = f, !.m = m]
A1 == Tst(<<Fn("f", 0, 0, 2, "args", 1, "ok")>>, <<>>)
A2 == Tst(<<Fn("f", 0, 0, 2, "args", 2, "ok"), Fn("g", 1, 0, 1, "args", 2, "no")>>, <<Mc("g", "ok", 2)>>)
A3 == Tst(<<Fn("f", 0, 0, 0, "no", 3, "none"), Fn("g", 2, 1, 2, "args", 3, "err")>>, <<Mc("g", "no", 3), Mc("f", "ok", 3)>>)
A4 == Tst(<<Fn("g", 0, 0, 3, "err", 4, "ok"), Fn("", 0, 0, 3, "args", 4, "ok")>>, <<Mc("f", "err", 4)>>)
Trees == {A1, All(<<A1, A2>>), All(<<A2, A1>>), All(<<A3, All(<<A1, A2>>)>>), All(<<All(<<A3, A2>>), A4>>), All(<<All(<<>>), All(<<A4, All(<<A3, A1>>)>>)>>)}
Vocab == {B("["), B("]"), B(":"), B("/"), B("f"), B("g")}
Opts == {B(":"), B("u8"), B("u16"), B("a"), B("b"), B("b:1"), B("b:1:2"), B("b2"), B("b16:2"), B("b16"), B("bs"), B("u8/u16"), B("u8/"), B("u8/u16/a"),
         B("b16/b2/b:3/"), B("b2:1:2/:"), B(""), B("nosuch"), B("nosuch/a"), B("/u8"), B("b:x/"), B("b16:x/a"), B("[u8]"), B("u8:1/a"), B("??")}
VARIABLES mode, tree, txt, opt
vars == <<mode, tree, txt, opt>>
Init == \/ mode = "eval" /\ tree \in Trees /\ txt = <<>> /\ opt = <<>>
        \/ mode = "encode" /\ tree = Basic /\ txt = <<>> /\ opt \in Opts
Next == \/ mode = "eval" /\ Len(txt) < Size /\ (\E c \in Vocab : txt' = txt \o c) /\ UNCHANGED <<mode, tree, opt>>
        \/ mode = "encode" /\ Len(txt) < BSize /\ (\E c \in Bytes_ : txt' = Append(txt, c)) /\ UNCHANGED <<mode, tree, opt>>
Spec == Init /\ [][Next]_vars
(* A04: how scopes are grouped does not matter, and empty scopes do not either *)
Flat_ == All(Flatten(tree))
GroupingIrrelevant == mode = "eval" => EvalTxt(tree, txt) = EvalTxt(Flat_, txt)
EmptyScopesIrrelevant == mode = "eval" => EvalTxt(tree, txt) = EvalTxt(All(<<Leaf("none"), tree, All(<<>>)>>), txt)
(* only names that nobody knows before get to a scope put behind *)
LaterScopesOnlyAdd == mode = "eval" => LET v == EvalTxt(tree, txt) IN v.k = "ok" => EvalTxt(All(<<tree, Tst(<<Fn("f", 0, 0, 9, "args", 9, "ok"), Fn("g", 0, 0, 9, "args", 9, "ok")>>, <<>>)>>), txt) = v
(* a failing scope in front fails every call *)
ErrorFirst == mode = "eval" => LET v == EvalTxt(All(<<Leaf("error"), tree>>), txt) p == Parse(txt) IN
    v.k = "ok" => p.ok /\ v = EvalTxt(All(<<>>), txt)
(* every part on its own: parts only meet by being joined *)
PartsCompose == mode = "eval" => LET p == Parse(txt) IN p.ok =>
    EvalL(tree, p.l).k = (IF \A i \in DOMAIN p.l : p.l[i].t = "c" \/ EvalL(tree, <<p.l[i]>>).k = "ok" THEN "ok" ELSE "err")
(* A06 *)
Back(ignore) == LET e == EncodeTxt(tree, txt, opt, ignore) IN e.k = "ok" => LET v == EvalTxt(tree, e.b) IN v.k = "ok" /\ Exact(v.l) /\ ExactB(v.l) = txt
EncodeEvaluatesBack == mode = "encode" => Back(TRUE) /\ Back(FALSE)
IgnoringOnlyHelps == mode = "encode" => LET e == EncodeTxt(tree, txt, opt, FALSE) IN e.k = "ok" => EncodeTxt(tree, txt, opt, TRUE) = e
(* an empty option at the end always applies *)
FallbackAlways == mode = "encode" /\ opt # <<>> /\ opt[Len(opt)] = SLASH => EncodeTxt(tree, txt, opt, TRUE).k = "ok"
-----------------------------------------------------------------------------
(* wrong on purpose *)
RECURSIVE CallLast(_, _, _, _, _)
CallLast(t, id, args, init, top) ==
    IF t.k # "all" THEN LeafCall(t, id, args, init, top)
    ELSE IF t.c = <<>> THEN No
    ELSE LET r == CallLast(t.c[Len(t.c)], id, args, init, top) IN
         IF r.k # "no" THEN r ELSE CallLast([t EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)], id, args, init, top)
(* an error is passed on to the next scope *)
CallSkip(t, id, args, init, top) ==
    LET q == Flatten(t) rs == Now([i \in DOMAIN q |-> LeafCall(q[i], id, args, init, top)])
        p == FirstPos(rs, LAMBDA r : r.k = "ok") IN IF p # 0 THEN rs[p] ELSE IF rs = <<>> THEN No ELSE Err
EscNone(s) == s
=============================================================================
