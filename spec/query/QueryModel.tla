----------------------------- MODULE QueryModel ------------------------------
(* The rules about one number, given one after the other, beside what the      *)
(* implementation keeps of them: the least and the greatest number and the bits *)
(* that may and that must be one.  Numbers have few bits here, so everything    *)
(* is compared with every number.                                              *)
EXTENDS Pred
CONSTANTS Bits, Rules
TwoDigits == 2
OneBit == 1
Top == 2 ^ Bits - 1
BitsFor(n) == Now([i \in 1..Bits |-> (n \div 2 ^ (Bits - i)) % 2])
VARIABLES rules, low, high, ones, zeros, refused
vars == <<rules, low, high, ones, zeros, refused>>
Init == rules = <<>> /\ low = 0 /\ high = Top /\ ones = 0 /\ zeros = Top /\ refused = FALSE
(* bound and mask, as numbers *)
Wrong(v, on, ze) == ((Top - ze) & v) | (on & (Top - v))
HighestBit(x) == CHOOSE k \in 0..Bits - 1 : x \div 2 ^ k = 1
LowestBit(x) == CHOOSE k \in 0..Bits - 1 : x % 2 ^ (k + 1) = 2 ^ k
UpTo(k) == 2 ^ k - 1
NextOfMask(v, on, ze) ==
    LET w == Wrong(v, on, ze)
        free == (Top - v) & ze & (Top - UpTo(HighestBit(w)))
        p == LowestBit(free)
    IN IF (on & ze) # on THEN -1
       ELSE IF w = 0 THEN v ELSE IF free = 0 THEN -1
       ELSE (v & (Top - UpTo(p))) | 2 ^ p | (on & UpTo(p))
From_(v, lo, hi, on, ze) ==
    IF v > hi \/ lo > hi THEN -1 ELSE LET n == NextOfMask(MaxOf(v, lo), on, ze) IN IF n > hi THEN -1 ELSE n
Low(op, v) == CASE op = EQ -> v [] op = GT -> v + 1 [] OTHER -> 0
High(op, v) == CASE op = EQ -> v [] op = LT -> v - 1 [] OTHER -> Top
Add(op, v) ==
    LET on == IF op = M1 THEN ones | v ELSE ones
        ze == IF op = M0 THEN zeros & v ELSE zeros
        lo == MaxOf(low, Low(op, v))
        hi == MinOf(high, High(op, v))
    IN /\ low' = lo /\ high' = hi /\ ones' = on /\ zeros' = ze
       /\ refused' = (From_(0, lo, hi, on, ze) = -1)
(* >= and <= are > and < of the neighbour, a head is a pair of masks *)
Words == [op : PlainOps \cup {GE, LE}, v : 0..Top]
Plain(s) == CASE s.op = GE -> (IF s.v = 0 THEN [op |-> NOP, v |-> 0] ELSE [op |-> GT, v |-> s.v - 1])
              [] s.op = LE -> (IF s.v = Top THEN [op |-> NOP, v |-> 0] ELSE [op |-> LT, v |-> s.v + 1])
              [] OTHER -> s
Next == /\ ~refused /\ Len(rules) < Rules
        /\ \E s \in Words : /\ Add(Plain(s).op, Plain(s).v)
                            /\ rules' = Append(rules, [op |-> s.op, v |-> BitsFor(s.v)])
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Is(v) == Member(rules, BitsFor(v))
Set == {v \in 0..Top : Is(v)}
Contradictions == refused = (Set = {}) /\ Satisfiable(rules, Bits) = (Set # {})
ImplTest(v) == v >= low /\ v <= high /\ Wrong(v, ones, zeros) = 0
Members == ~refused => \A v \in 0..Top : ImplTest(v) = Is(v)
(* the next member: by trying, as the contract computes it, and as the implementation does *)
Smallest(v) == LET s == {x \in Set : x >= v} IN IF s = {} THEN -1 ELSE CHOOSE x \in s : \A y \in s : x <= y
NextMember == \A v \in 0..Top :
    LET c == SmallestFrom(rules, BitsFor(v)) IN
    /\ c.k = (Smallest(v) # -1) /\ (c.k => c.v = BitsFor(Smallest(v)))
    /\ ~refused => From_(v, low, high, ones, zeros) = Smallest(v)
(* bounds that leave a single number are what is taken for an equality *)
Single == Set # {} => Pinned(rules, Bits) = (low = high)
(* what is printed, read again, says the same *)
Printed == (IF low = high THEN <<[op |-> EQ, v |-> low]>>
            ELSE (IF high = Top THEN <<>> ELSE <<[op |-> LT, v |-> high + 1]>>) \o (IF low = 0 THEN <<>> ELSE <<[op |-> GT, v |-> low - 1]>>))
           \o (IF ones = 0 THEN <<>> ELSE <<[op |-> M1, v |-> ones]>>) \o (IF zeros = Top THEN <<>> ELSE <<[op |-> M0, v |-> zeros]>>)
Reread == ~refused => \A v \in 0..Top : Member([i \in DOMAIN Printed |-> [op |-> Printed[i].op, v |-> BitsFor(Printed[i].v)]], BitsFor(v)) = Is(v)
(* the order of rules does not matter *)
Commutes == Len(rules) > 1 => Set = {v \in 0..Top : Member(<<rules[Len(rules)]>> \o SubSeq(rules, 1, Len(rules) - 1), BitsFor(v))}
-----------------------------------------------------------------------------
(* wrong on purpose *)
NextCarry(v, on, ze) ==   \* what is missing is added, what is too much carried on without a second look
    LET w == Wrong(v, on, ze) IN IF (on & ze) # on THEN -1 ELSE IF w = 0 THEN v ELSE IF (v | on) = v THEN -1 ELSE v | on
PlainStrict(s) == CASE s.op = GE -> [op |-> GT, v |-> s.v] [] s.op = LE -> [op |-> LT, v |-> s.v] [] OTHER -> s
PrintBounds == IF low = high THEN <<[op |-> EQ, v |-> low]>>
            ELSE (IF high = Top THEN <<>> ELSE <<[op |-> LT, v |-> high + 1]>>) \o (IF low = 0 THEN <<>> ELSE <<[op |-> GT, v |-> low - 1]>>)
=============================================================================
