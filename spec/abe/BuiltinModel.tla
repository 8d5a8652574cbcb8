----------------------------- MODULE BuiltinModel -----------------------------
(* The built-in functions on every short byte string and number, against what  *)
(* the documentation says they do in terms of ordinary sets and arithmetic.    *)
EXTENDS Eval
CONSTANTS Sample, Longest, Num
VARIABLES subj, other, n1, n2
vars == <<subj, other, n1, n2>>
Init == subj = <<>> /\ other = <<>> /\ n1 \in Num \cup {-4, -1} /\ n2 \in Num \cup {-4, -1}
Next == \/ Len(subj) < Longest /\ (\E x \in Sample : subj' = Append(subj, x)) /\ UNCHANGED <<other, n1, n2>>
        \/ Len(other) < 2 /\ (\E x \in Sample : other' = Append(other, x)) /\ UNCHANGED <<subj, n1, n2>>
Spec == Init /\ [][Next]_vars
Str(n) == IF n < 0 THEN <<45>> \o NatDec(-n) ELSE NatDec(n)
Call(n, args) == CallIn(Basic, B(n), args, TRUE, Basic)
N == Len(subj)
(* positions that a slice with a positive step selects, as a set *)
At(k) == IF k < 0 THEN N + k ELSE k
Chosen(step) == {p \in 0..(N - 1) : p >= At(n1) /\ p < At(n2) /\ (p - MaxOf(At(n1), 0)) % step = 0}
SliceIsASelection == \A step \in 1..3 : LET r == Call("slice", <<subj, Str(n1), Str(n2), Str(step)>>) s == SetToSortSeq(Chosen(step), LAMBDA x, y : x < y)
                     IN r = Ok(Now([k \in DOMAIN s |-> subj[s[k] + 1]]))
SliceBackwards == Call("slice", <<subj, <<>>, <<>>, <<45, 49>>>>) = Ok(Reverse_(subj))
SliceAll == Call("slice", <<subj>>) = Ok(subj) /\ Call("slice", <<subj, <<>>, Str(n1)>>).k = "ok"
SliceJoin == n1 >= 0 => LET x == Call("slice", <<subj, <<>>, Str(n1)>>) y == Call("slice", <<subj, Str(n1)>>) IN x.b \o y.b = subj
PadThenCut == n1 >= 0 => LET l == Call("lpad", <<subj, Str(n1)>>) r == Call("rpad", <<subj, Str(n1)>>) IN
    /\ (l.k = "ok") = (N <= n1) /\ (r.k = "ok") = (N <= n1)
    /\ (l.k = "ok" => Len(l.b) = n1 /\ From(l.b, n1 - N + 1) = subj /\ Call("rcut", <<l.b, Str(N)>>) = Ok(subj))
    /\ (r.k = "ok" => Len(r.b) = n1 /\ SubSeq(r.b, 1, N) = subj /\ Call("lcut", <<r.b, Str(N)>>) = Ok(subj))
    /\ Call("~lpad", <<subj, Str(n1)>>) = (IF l.k = "ok" THEN l ELSE Ok(subj))
    /\ Call("~rpad", <<subj, Str(n1)>>) = (IF r.k = "ok" THEN r ELSE Ok(subj))
FixedIsFixed == n1 >= 0 => Len(Call("lfixed", <<subj, Str(n1)>>).b) = n1 /\ Len(Call("rfixed", <<subj, Str(n1)>>).b) = n1
CutIsPrefix == n1 >= 0 => LET l == Call("lcut", <<subj, Str(n1)>>) IN (l.k = "ok") = (n1 <= N) /\ (l.k = "ok" => l.b = SubSeq(subj, 1, n1))
                         /\ Call("~lcut", <<subj, Str(n1)>>) = Ok(SubSeq(subj, 1, MinOf(n1, N)))
Occurs(x) == \E k \in 1..(N - Len(x) + 1) : SubSeq(subj, k, k + Len(x) - 1) = x
ReplaceRemoves == other # <<>> => LET r == Call("replace", <<subj, other, <<7>>>>) IN r.k = "ok" /\ (~Occurs(other) => r.b = subj) /\ (Occurs(other) => r.b # subj)
                  /\ Call("replace", <<subj, other, other>>) = Ok(subj)
Val(s) == FoldLeft(LAMBDA q, x : q * 256 + x, 0, s)
Sums == N = Len(other) => LET s == Call("+", <<subj, other>>) d == Call("-", <<subj, other>>) IN
    s.k = "ok" /\ Val(s.b) = MinOf(Val(subj) + Val(other), 256 ^ N - 1) /\ Val(d.b) = MaxOf(Val(subj) - Val(other), 0)
SumsRefuse == N # Len(other) => Call("+", <<subj, other>>) = Err
Numbers == n1 >= 0 => /\ Call("u8", <<Str(n1)>>) = (IF n1 < 256 THEN Ok(<<n1>>) ELSE Err)
                     /\ Call("?u", <<Call("u64", <<Str(n1)>>).b>>) = Ok(Str(n1)) /\ Call("?lu", <<Call("lu64", <<Str(n1)>>).b>>) = Ok(Str(n1))
SizeTest == n1 >= 0 => (Call("size?", <<subj, B("="), Str(n1)>>) = IF N = n1 THEN Ok(subj) ELSE Err)
ValTest == (Call("val?", <<subj, B("="), other>>).k = "ok") = (subj = other)
-----------------------------------------------------------------------------
(* wrong on purpose *)
ClampHigh(x, lo, hi) == IF x < lo THEN hi ELSE IF x > hi THEN hi ELSE x
PadShort(p, left, dflt, check, fixed) == LET n == IF Arg(p, 2, <<>>) = <<>> THEN 16 ELSE ParseUsize(p[2]).v f == Rep(dflt, n - Len(p[1])) IN Ok(f \o p[1])
ReplaceFirst(s, from, to) == IF IsPrefix_(from, s) THEN to \o From(s, Len(from) + 1) ELSE s
=============================================================================
