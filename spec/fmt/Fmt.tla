--------------------------------- MODULE Fmt ---------------------------------
(* Fixed size byte values and integers: a value is its bytes.                 *)
EXTENDS Eval
(* shorter bytes are padded, longer bytes refused *)
Fit(b, n, fill) == IF Len(b) > n THEN Err ELSE Ok(Rep(fill, n - Len(b)) \o b)
FitEnd(b, n) == IF Len(b) > n THEN Err ELSE Ok(b \o Rep(0, n - Len(b)))
Same(b, n) == IF Len(b) = n THEN Ok(b) ELSE Err
FromList(l, Of(_)) == IF Exact(l) THEN Of(ExactB(l)) ELSE Err
B64N(s, n) == IF Len(s) # (4 * n + 2) \div 3 THEN Err ELSE OfParse(UnB64(s))
B64Fit(s, n) == LET r == B64N(s, n) IN IF r.k = "ok" THEN r ELSE Same(s, n)
Order(a, b) == IF a = b THEN 1 ELSE IF LexLt(a, b) THEN 0 ELSE 2
(* the bytes as a big-endian number of the same width, whatever the order they are stored in *)
Num_(x, b) == IF x.le = 1 THEN Reverse_(b) ELSE b
Bit(v, i) == (v \div (2 ^ i)) % 2
Per(a, b, op) == LET one(u, v) == LET bit(i) == LET p == Bit(u, i) q == Bit(v, i) IN
                                        (IF op = "and" THEN p * q ELSE IF op = "or" THEN p + q - p * q ELSE (p + q) % 2) * 2 ^ i
                                 IN bit(0) + bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6) + bit(7)
                 IN Now([i \in DOMAIN a |-> one(a[i], b[i])])
One(n) == Rep(0, n - 1) \o <<1>>
UOp(x) ==
    LET a == Num_(x, x.in) b == Num_(x, x.in2) n == x.n IN
    CASE x.what = "add" -> SatAdd(a, b) [] x.what = "sub" -> SatSub(a, b)
      [] x.what \in {"and", "or"} -> Per(a, b, x.what)
      [] x.what = "not" -> Per(a, Rep(255, n), "xor")
      [] x.what = "incr" -> SatAdd(a, One(n))
      [] x.what = "max" -> Rep(255, n)
      [] x.what = "zero" -> Rep(0, n)
      [] x.what = "rev" -> a
=============================================================================
