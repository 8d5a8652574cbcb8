------------------------------ MODULE FmtModel -------------------------------
(* Byte strings typed byte by byte, beside the number they stand for and the   *)
(* number that a second one stands for: every text form and every operation is *)
(* compared with ordinary arithmetic.                                          *)
EXTENDS Fmt
CONSTANTS Width, Sample
VARIABLES fst, snd, na, nb
vars == <<fst, snd, na, nb>>
Init == fst = <<>> /\ snd = <<>> /\ na = 0 /\ nb = 0
Next == /\ Len(fst) < Width
        /\ \E x \in Sample, y \in Sample : /\ fst' = Append(fst, x) /\ na' = na * 256 + x
                                          /\ snd' = Append(snd, y) /\ nb' = nb * 256 + y
Spec == Init /\ [][Next]_vars
N == Len(fst)
Top == 256 ^ N - 1
ValueOf(s) == FoldLeft(LAMBDA q, x : q * 256 + x, 0, s)
(* F02 *)
OrderIsNumeric == Order(fst, snd) = (IF na < nb THEN 0 ELSE IF na = nb THEN 1 ELSE 2)
AddIsExact == ValueOf(SatAdd(fst, snd)) = MinOf(na + nb, Top) /\ Len(SatAdd(fst, snd)) = N
SubIsExact == ValueOf(SatSub(fst, snd)) = MaxOf(na - nb, 0) /\ Len(SatSub(fst, snd)) = N
TextIsExact == N = 0 \/ (Decimal(fst) = NatDec(na) /\ ParseU(Decimal(fst), N) = [ok |-> TRUE, v |-> fst] /\ (\A w \in 1..N : ParseU(Decimal(fst), w).ok = (na < 256 ^ w)))
BothOrders == Reverse_(Reverse_(fst)) = fst /\ Num_([le |-> 1], Reverse_(fst)) = fst
Bitwise == /\ ValueOf(Per(fst, snd, "and")) + ValueOf(Per(fst, snd, "or")) = na + nb
           /\ ValueOf(Per(fst, snd, "or")) - ValueOf(Per(fst, snd, "and")) = ValueOf(Per(fst, snd, "xor"))
           /\ Per(Per(fst, snd, "xor"), snd, "xor") = fst
           /\ ValueOf(Per(fst, Rep(255, N), "xor")) = Top - na
(* F01 *)
Base64 == /\ UnB64(B64(fst)) = [ok |-> TRUE, v |-> fst] /\ Len(B64(fst)) = (4 * N + 2) \div 3
          /\ UnB64Std(B64Std(fst)) = [ok |-> TRUE, v |-> fst]
          /\ B64N(B64(fst), N) = Ok(fst) /\ B64N(B64(fst), N + 1) = Err
Injective == (B64(fst) = B64(snd)) = (fst = snd) /\ (Enc(fst) = Enc(snd)) = (fst = snd)
Padding == LET f == Fit(fst, Width, 0) IN f.k = "ok" /\ Len(f.b) = Width /\ CutPrefix(f.b, 0) = CutPrefix(fst, 0) /\ ValueOf(f.b) = na
           /\ (N > 0 => Fit(fst, N - 1, 0) = Err)
PaddingEnd == LET f == FitEnd(fst, Width) IN f.k = "ok" /\ CutEnd(f.b, 0) = CutEnd(fst, 0)
AbText == LET n == Len(fst) d == Decode(Enc(fst), n) IN d.ok /\ d.v = fst /\ LET c == Decode(Enc(CutPrefix(fst, 0)), n) IN Fit(c.v, n, 0) = Ok(fst)
Expressions == LET is(t) == LET v == EvalTxt(Basic, t) IN v.k = "ok" /\ Exact(v.l) /\ ExactB(v.l) = fst IN
    /\ is(Call1(B("b"), B64(fst)))
    /\ is(<<OPEN, 97, COLON>> \o Enc(CutPrefix(fst, 0)) \o <<COLON>> \o NatDec(N) \o <<CLOSE>>)
    /\ (N = 1 => is(Call1(B("u8"), Decimal(fst)))) /\ (N = 2 => is(Call1(B("u16"), Decimal(fst))) /\ is(Call1(B("lu16"), Decimal(Reverse_(fst)))))
-----------------------------------------------------------------------------
(* wrong on purpose *)
LexRev(x, y) == LET u == Reverse_(x) v == Reverse_(y) IN \E i \in DOMAIN u : u[i] < v[i] /\ SubSeq(u, 1, i - 1) = SubSeq(v, 1, i - 1)
AddWrap(x, y) == AddBE(x, y).v
FitLeft(s, n, fill) == IF Len(s) > n THEN Err ELSE Ok(s \o Rep(fill, n - Len(s)))
=============================================================================
