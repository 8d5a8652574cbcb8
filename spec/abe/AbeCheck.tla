------------------------------ MODULE AbeCheck -------------------------------
(* What the code answered, against the meaning of expressions.                *)
EXTENDS Eval, Records
Range_(s) == {s[j] : j \in DOMAIN s}
Yes(c, why) == IF c THEN "" ELSE why
(* an answer that is bytes, against a specified result *)
SameB(r, e) == IF e.k # "ok" THEN Yes(r.k # "ok", "accepted, should be refused")
               ELSE IF r.k # "ok" THEN "refused, should be accepted" ELSE Yes(r.b = e.b, "wrong bytes")
SameL(r, ok, l) == IF ~ok THEN Yes(r.k # "ok", "accepted, should be refused")
               ELSE IF r.k # "ok" THEN "refused, should be accepted" ELSE Yes(r.l = l, "wrong result")
ToB(p) == IF p.ok THEN Ok(p.v) ELSE Err
(* the exact kind of a single function call's answer matters too *)
SameK(r, e) == IF r.k # e.k THEN "answers " \o r.k \o ", should be " \o e.k ELSE Yes(r.k # "ok" \/ r.b = e.b, "wrong bytes")
ConcatR(v) == IF v.k = "ok" THEN Ok(Concat(v.l)) ELSE Err
AsText(v) == IF v.k = "ok" /\ Exact(v.l) /\ IsUtf8(ExactB(v.l)) THEN Ok(ExactB(v.l)) ELSE Err
WhyAbe(x) ==
    LET r == x.r IN
    CASE x.op = "enc" -> SameB(r, Ok(Enc(x.in)))
      [] x.op = "esc" -> SameB(r, Ok(Enc(x.in)))
      [] x.op = "dec" -> SameB(r, ToB(Decode(x.in, x.max)))
      [] x.op = "print" -> SameB(r, Ok(Show(x.ast)))
      [] x.op = "parse" ->
            LET p == ParseX(x.in, x.lax = 1) IN
            IF p.ok /\ r.k = "ok" THEN (IF r.l # p.l THEN "wrong expression" ELSE Yes(r.b = Show(p.l), "wrong printed form"))
            ELSE Yes(p.ok = (r.k = "ok"), IF p.ok THEN "refused, should be accepted" ELSE "accepted, should be refused")
      [] x.op = "deep" -> LET p == ParseX(x.in, x.lax = 1) IN SameB(r, IF p.ok THEN Ok(Show(p.l)) ELSE Err)
      [] x.op = "tok" -> LET p == Tokenize(x.in, Range_(x.plain), Range_(x.err)) IN SameL(r, p.ok, p.l)
      [] x.op = "replace" -> SameL(r, TRUE, Replace(x.ast, x.pat, x.new))
      [] x.op \in {"eval", "evalast"} ->
            LET v == IF x.op = "eval" THEN EvalTxt(Expand(x.sc), x.in) ELSE EvalL(Expand(x.sc), x.ast)
                w == SameL(r, v.k = "ok", v.l)
            IN IF w # "" \/ v.k # "ok" THEN w ELSE Yes(r.b = PrintList(v.l), "wrong printed form")
      [] x.op = "bytes" -> SameB(r, ConcatR(EvalTxt(Expand(x.sc), x.in)))
      [] x.op = "string" ->
            LET p == Parse(x.in) IN SameB(r, IF p.ok /\ Len(p.l) = 1 THEN AsText(EvalL(Expand(x.sc), p.l)) ELSE Err)
      [] x.op = "encode" ->
            LET sc == Expand(x.sc)
                e == EncodeTxt(sc, x.in, x.opts, x.ignore = 1)
                v == IF e.k = "ok" THEN EvalTxt(sc, e.b) ELSE EL("ok", <<>>)
                back == e.k # "ok" \/ (v.k = "ok" /\ Exact(v.l) /\ ExactB(v.l) = x.in)
            \* A scope whose encoder is hidden behind an equally named function of an earlier scope is
            \* not a scope one can encode in.
            IN IF back THEN SameB(r, e) ELSE IF x.sc.k = "basic" THEN "does not evaluate back" ELSE "outside"
      [] x.op = "call" -> SameK(r, CallIn(Basic, x.fn, x.args, TRUE, Basic))
      [] OTHER -> "unknown record"
=============================================================================
