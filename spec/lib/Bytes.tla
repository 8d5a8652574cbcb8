-------------------------------- MODULE Bytes --------------------------------
(* Byte strings are sequences of 0..255.  TLC's integers have 32 bits, so     *)
(* wider numbers are big-endian byte strings of a fixed width.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Byte == 0..255
(* the same function, evaluated once *)
Now(f) == f \o <<>>
Rep(b, n) == Now([i \in 1..n |-> b])
Flat(ss) == FlattenSeq(ss)
IsPrefix_(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
(* literals: B("abc") is the byte string of an ASCII literal                  *)
Ascii == " !\"#$_&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {SubSeq(Ascii, i, i) : i \in 1..95} \ {"_"} |-> 31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c] @@ [c \in {"_"} |-> 95]
B(s) == Now([i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]])
(* positions of the first element satisfying P, 0 if there is none            *)
FirstPos(s, P(_)) == SelectInSeq(s, P)
LastPos(s, P(_)) == SelectLastInSeq(s, P)
CutPrefix(s, b) == LET p == FirstPos(s, LAMBDA x : x # b) IN IF p = 0 THEN <<>> ELSE From(s, p)
CutEnd(s, b) == SubSeq(s, 1, LastPos(s, LAMBDA x : x # b))
(* lexicographic order *)
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLt(Tail(a), Tail(b))
(* split a sequence at the elements satisfying P; n separators give n+1 parts *)
RECURSIVE SplitMask(_, _)
SplitMask(s, m) == LET p == FirstPos(m, LAMBDA x : x) IN
    IF p = 0 THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o SplitMask(From(s, p + 1), From(m, p + 1))
SplitAt(s, P(_)) == SplitMask(s, Now([k \in DOMAIN s |-> P(s[k])]))
-----------------------------------------------------------------------------
(* numbers as big-endian byte strings *)
Reverse_(s) == Now([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
(* v * m + d, with the carry out *)
MulAdd(v, m, d) ==
    LET st == FoldRight(LAMBDA b, acc : LET x == b * m + acc[1] IN <<x \div 256, <<x % 256>> \o acc[2]>>, v, <<d, <<>>>>)
    IN [v |-> st[2], carry |-> st[1]]
(* v div m and v mod m, m < 2^23 *)
DivMod(v, m) ==
    LET st == FoldLeft(LAMBDA acc, b : LET x == acc[1] * 256 + b IN <<x % m, Append(acc[2], x \div m)>>, <<0, <<>>>>, v)
    IN [q |-> st[2], r |-> st[1]]
AddBE(a, b) ==
    LET st == FoldRight(LAMBDA i, acc : LET x == a[i] + b[i] + acc[1] IN <<x \div 256, <<x % 256>> \o acc[2]>>,
                        [i \in 1..Len(a) |-> i], <<0, <<>>>>)
    IN [v |-> st[2], carry |-> st[1]]
SubBE(a, b) ==
    LET st == FoldRight(LAMBDA i, acc : LET x == a[i] - b[i] - acc[1] IN
                            IF x < 0 THEN <<1, <<x + 256>> \o acc[2]>> ELSE <<0, <<x>> \o acc[2]>>,
                        [i \in 1..Len(a) |-> i], <<0, <<>>>>)
    IN [v |-> st[2], borrow |-> st[1]]
SatAdd(a, b) == LET r == AddBE(a, b) IN IF r.carry # 0 THEN Rep(255, Len(a)) ELSE r.v
SatSub(a, b) == LET r == SubBE(a, b) IN IF r.borrow # 0 THEN Rep(0, Len(a)) ELSE r.v
RECURSIVE Dec10(_)
Dec10(v) == LET d == DivMod(v, 10) IN (IF CutPrefix(d.q, 0) = <<>> THEN <<>> ELSE Dec10(d.q)) \o <<48 + d.r>>
Decimal(v) == IF v = <<>> THEN <<48>> ELSE Dec10(v)
RECURSIVE NatDec(_)
NatDec(n) == IF n < 10 THEN <<48 + n>> ELSE NatDec(n \div 10) \o <<48 + (n % 10)>>
DigitVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 99
RECURSIVE Digits(_, _, _)
Digits(s, radix, v) ==
    IF s = <<>> THEN [ok |-> TRUE, v |-> v]
    ELSE LET d == DigitVal(s[1]) IN
         IF d >= radix THEN [ok |-> FALSE, v |-> v]
         ELSE LET r == MulAdd(v, radix, d) IN
              IF r.carry # 0 THEN [ok |-> FALSE, v |-> v] ELSE Digits(Tail(s), radix, r.v)
(* an unsigned number of `width` bytes: an optional plus sign and at least one digit *)
ParseRadix(s, radix, width) ==
    LET t == IF s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s IN
    IF t = <<>> THEN [ok |-> FALSE, v |-> <<>>] ELSE Digits(t, radix, Rep(0, width))
ParseU(s, width) == ParseRadix(s, 10, width)
(* machine sized numbers, capped at Big: every use compares them with small sizes *)
Big == 1073741824
Cap(v) == LET c == CutPrefix(v, 0) IN
    IF Len(c) > 4 \/ (Len(c) = 4 /\ c[1] >= 64) THEN Big
    ELSE FoldLeft(LAMBDA a, b : a * 256 + b, 0, c)
ParseUsize(s) == LET r == ParseU(s, 8) IN [ok |-> r.ok, v |-> IF r.ok THEN Cap(r.v) ELSE 0]
ParseIsize(s) ==
    LET neg == s # <<>> /\ s[1] = 45
        t == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
        r == IF t = <<>> THEN [ok |-> FALSE, v |-> <<>>] ELSE Digits(t, 10, Rep(0, 8))
        inrange == r.ok /\ (r.v[1] < 128 \/ (neg /\ r.v = <<128>> \o Rep(0, 7)))
    IN [ok |-> inrange, v |-> IF ~inrange THEN 0 ELSE IF neg THEN 0 - Cap(r.v) ELSE Cap(r.v)]
-----------------------------------------------------------------------------
(* base 64 *)
UrlAlphabet == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
StdAlphabet == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
InverseOf(al) == [c \in Byte |-> LET p == FirstPos(al, LAMBDA x : x = c) IN p - 1] @@ [c \in {256} |-> -1]
UrlInv == InverseOf(UrlAlphabet)
StdInv == InverseOf(StdAlphabet)
RECURSIVE Enc64(_, _)
Enc64(s, al) ==
    CASE s = <<>> -> <<>>
      [] Len(s) = 1 -> <<al[1 + s[1] \div 4], al[1 + (s[1] % 4) * 16]>>
      [] Len(s) = 2 -> <<al[1 + s[1] \div 4], al[1 + (s[1] % 4) * 16 + s[2] \div 16], al[1 + (s[2] % 16) * 4]>>
      [] OTHER -> <<al[1 + s[1] \div 4], al[1 + (s[1] % 4) * 16 + s[2] \div 16],
                    al[1 + (s[2] % 16) * 4 + s[3] \div 64], al[1 + (s[3] % 64)]>> \o Enc64(From(s, 4), al)
RECURSIVE Dec64(_, _, _)
Dec64(s, inv, acc) ==
    LET x(i) == inv[s[i]] IN
    IF s = <<>> THEN [ok |-> TRUE, v |-> acc]
    ELSE IF Len(s) = 1 \/ \E i \in 1..MinOf(4, Len(s)) : x(i) < 0 THEN [ok |-> FALSE, v |-> <<>>]
    ELSE IF Len(s) = 2 THEN [ok |-> x(2) % 16 = 0, v |-> acc \o <<x(1) * 4 + x(2) \div 16>>]
    ELSE IF Len(s) = 3 THEN [ok |-> x(3) % 4 = 0, v |-> acc \o <<x(1) * 4 + x(2) \div 16, (x(2) % 16) * 16 + x(3) \div 4>>]
    ELSE Dec64(From(s, 5), inv, acc \o <<x(1) * 4 + x(2) \div 16, (x(2) % 16) * 16 + x(3) \div 4, (x(3) % 4) * 64 + x(4)>>)
B64(s) == Enc64(s, UrlAlphabet)
UnB64(s) == Dec64(s, UrlInv, <<>>)
B64Std(s) == LET e == Enc64(s, StdAlphabet) IN e \o Rep(61, (4 - (Len(e) % 4)) % 4)
UnB64Std(s) ==
    LET n == Len(s)
        pad == IF n > 0 /\ s[n] = 61 THEN (IF n > 1 /\ s[n - 1] = 61 THEN 2 ELSE 1) ELSE 0
    IN IF n % 4 # 0 THEN [ok |-> FALSE, v |-> <<>>] ELSE Dec64(SubSeq(s, 1, n - pad), StdInv, <<>>)
MiniB64(s) ==
    LET st == B64(s) pads == Len(s) \div 8 IN
    IF Len(s) <= 12 THEN st
    ELSE SubSeq(st, 1, 6) \o Rep(58, pads \div 2) \o Rep(46, pads % 2) \o From(st, Len(st) - 1)
-----------------------------------------------------------------------------
(* UTF-8: how many bytes from i on are a (possibly unfinished) valid character *)
CharLen(b) == CASE b < 128 -> 1 [] b \in 194..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..244 -> 4 [] OTHER -> 0
SecondOk(a, b) == CASE a = 224 -> b \in 160..191 [] a = 237 -> b \in 128..159
                    [] a = 240 -> b \in 144..191 [] a = 244 -> b \in 128..143 [] OTHER -> b \in 128..191
RECURSIVE Cont(_, _, _)
Cont(s, i, k) == IF k = 0 \/ i > Len(s) \/ s[i] \notin 128..191 THEN 0 ELSE 1 + Cont(s, i + 1, k - 1)
Matched(s, i) == LET n == CharLen(s[i]) IN
    IF n <= 1 THEN 1
    ELSE IF i + 1 > Len(s) \/ ~SecondOk(s[i], s[i + 1]) THEN 1
    ELSE 2 + Cont(s, i + 2, n - 2)
RECURSIVE Lossy(_, _)
Lossy(s, i) == IF i > Len(s) THEN <<>>
    ELSE LET m == Matched(s, i) IN
         (IF m = CharLen(s[i]) THEN SubSeq(s, i, i + m - 1) ELSE <<239, 191, 189>>) \o Lossy(s, i + m)
RECURSIVE Utf8From(_, _)
Utf8From(s, i) == i > Len(s) \/ (Matched(s, i) = CharLen(s[i]) /\ Utf8From(s, i + Matched(s, i)))
IsUtf8(s) == Utf8From(s, 1)
=============================================================================
