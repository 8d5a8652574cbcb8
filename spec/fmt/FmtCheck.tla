------------------------------ MODULE FmtCheck -------------------------------
(* What the code answered, against the meaning of values.                     *)
EXTENDS Fmt, Records
Yes(c, why) == IF c THEN "" ELSE why
SameB(r, e) == IF e.k # "ok" THEN Yes(r.k # "ok", "accepted, should be refused")
               ELSE IF r.k # "ok" THEN "refused, should be accepted" ELSE Yes(r.b = e.b, "wrong bytes")
Is(r, b) == SameB(r, Ok(b))
Eq(v, b) == v.k = "ok" /\ Exact(v.l) /\ ExactB(v.l) = b
WhyFmt(x) ==
    LET r == x.r IN
    CASE x.op = "same" -> Is(r, x.in)
      [] x.op = "cut" -> Is(r, CutPrefix(x.in, 0))
      [] x.op = "abdisp" -> Is(r, Enc(x.in))
      [] x.op = "abcut" -> Is(r, Enc(CutPrefix(x.in, 0)))
      [] x.op = "utf8" -> LET c == CutPrefix(x.in, 0) IN SameB(r, IF IsUtf8(c) THEN Ok(c) ELSE Err)
      [] x.op = "tryutf8" -> LET c == CutPrefix(x.in, 0) IN Is(r, IF IsUtf8(c) THEN c ELSE Enc(c))
      [] x.op = "abetxt" -> Yes(r.k = "ok" /\ Eq(EvalTxt(Basic, r.b), x.in), "the expression means other bytes")
      [] x.op = "abeast" -> Yes(r.k = "ok" /\ Eq(EvalL(Basic, r.l), x.in), "the expression means other bytes")
      [] x.op = "luabe" -> Yes(r.k = "ok" /\ Eq(EvalL(Basic, r.l), CutEnd(x.in, 0)), "the expression means other bytes")
      [] x.op = "asitem" -> Yes(r.k = "ok" /\ Exact(r.l) /\ ExactB(r.l) = x.in, "wrong list")
      [] x.op = "uitem" -> Yes(r.k = "ok" /\ Exact(r.l) /\ ExactB(r.l) = (IF x.le = 1 THEN CutEnd(x.in, 0) ELSE x.in), "wrong list")
      [] x.op = "cmp" -> Is(r, <<Order(Num_(x, x.in), Num_(x, x.in2))>>)
      [] x.op = "ueq" -> Is(r, <<IF x.in = x.in2 THEN 1 ELSE 0>>)
      [] x.op = "fit" -> SameB(r, Fit(x.in, x.n, x.fill))
      [] x.op = "fitexact" -> SameB(r, Same(x.in, x.n))
      [] x.op = "fitfront" -> SameB(r, FitEnd(x.in, x.n))
      [] x.op = "abstr" -> LET d == Decode(x.in, x.n) IN SameB(r, IF d.ok THEN Fit(d.v, x.n, 0) ELSE Err)
      [] x.op = "dec" -> SameB(r, OfParse(Decode(x.in, x.max)))
      [] x.op = "ablist" -> SameB(r, FromList(x.l, LAMBDA b : Fit(b, x.n, 0)))
      [] x.op = "b64" -> Is(r, B64(x.in))
      [] x.op = "mini" -> Is(r, MiniB64(x.in))
      [] x.op = "b64parse" -> SameB(r, B64N(x.in, x.n))
      [] x.op = "b64fit" -> SameB(r, B64Fit(x.in, x.n))
      [] x.op = "b64vec" -> SameB(r, OfParse(UnB64(x.in)))
      [] x.op = "b64list" -> SameB(r, FromList(x.l, LAMBDA b : B64Fit(b, x.n)))
      [] x.op = "xor" -> Is(r, Per(x.in, x.in2, "xor"))
      [] x.op = "dec10" -> Is(r, Decimal(x.in))
      [] x.op = "unew" -> LET v == ParseU(x.in, x.n) IN SameB(r, IF v.ok THEN Ok(Num_(x, v.v)) ELSE Err)
      [] x.op = "ustr" -> LET v == ParseU(x.in, x.n) IN SameB(r, IF v.ok THEN Ok(Num_(x, v.v)) ELSE Err)
      [] x.op = "uget" -> Is(r, Decimal(Num_(x, x.in)))
      [] x.op = "uop" -> Is(r, IF x.what = "rev" THEN Reverse_(x.in) ELSE Num_(x, UOp(x)))
      [] x.op = "ubin" -> Is(r, B("0b") \o Flat([i \in DOMAIN x.in |-> <<95>> \o BinByte(x.in[i])]))
      [] x.op = "ulist" -> SameB(r, FromList(x.l, LAMBDA b : IF x.le = 1 THEN FitEnd(b, x.n) ELSE Same(b, x.n)))
      [] OTHER -> "unknown record"
=============================================================================
