------------------------------ MODULE TreeModel ------------------------------
(* The walk over the tree index: keys are (group, depth, space, public key) in  *)
(* one string of digits, each with its entries by creation stamp.  The walk     *)
(* leaps over the keys that cannot match, and counts what it finds; it is       *)
(* compared with what is to be found.                                           *)
EXTENDS Space
CONSTANTS Groups, Spaces_, Keys, Stamps, Attrs, Entries,
          GroupSets, DepthSets, Prefixes_, KeySets, Ranges, AttrSets, BranchSets, DbSets, IndexSets, Starts
Inf == 99
VARIABLES db, rule, asc, at, phase, nb, nd, ni, out
vars == <<db, rule, asc, at, phase, nb, nd, ni, out>>
AllEntries == {[g |-> g, sp |-> sp, k |-> k, c |-> c, a |-> a] : g \in Groups, sp \in Spaces_, k \in Keys, c \in Stamps, a \in Attrs}
KeyOf(e) == <<e.g, Len(e.sp)>> \o e.sp \o <<e.k>>
Nothing == [g |-> Inf, sp |-> <<>>, k |-> 0, c |-> 0, a |-> 0]
Depths == {Len(sp) : sp \in Spaces_}
StartsWith(sp, p) == Len(p) <= Len(sp) /\ SubSeq(sp, 1, Len(p)) = p
Min_(s) == IF s = {} THEN Inf ELSE CHOOSE x \in s : \A y \in s : x <= y
Most(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : y <= x
FromOn(s, x) == Min_({y \in s : y >= x})        \* the member that is x or the next
-----------------------------------------------------------------------------
(* what is to be found *)
Matches(e) == e.g \in rule.g /\ Len(e.sp) \in rule.d /\ StartsWith(e.sp, rule.p) /\ e.k \in rule.k /\ e.c \in rule.c /\ e.a \in rule.a
(* tie broken by the attribute, as the hash does *)
Precedes(e, f) == IF KeyOf(e) = KeyOf(f) THEN (IF asc THEN LexLt(<<e.c, e.a>>, <<f.c, f.a>>) ELSE LexLt(<<f.c, f.a>>, <<e.c, e.a>>)) ELSE LexLt(KeyOf(e), KeyOf(f))
RECURSIVE InOrder(_)
InOrder(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE x \in s : \A y \in s : y = x \/ Precedes(x, y) IN <<e>> \o InOrder(s \ {e})
Only_(l, P(_)) == LET s == SelectSeq(Now([i \in DOMAIN l |-> <<l[i], P(i)>>]), LAMBDA x : x[2]) IN Now([i \in DOMAIN s |-> s[i][1]])
InBranch(l, i) == Cardinality({j \in 1..i - 1 : KeyOf(l[j]) = KeyOf(l[i])})
Wanted == LET l == InOrder({e \in db : Matches(e)})
              m == Only_(l, LAMBDA i : InBranch(l, i) \in rule.b)
              n == Only_(m, LAMBDA i : i - 1 \in rule.n)
          IN Only_(n, LAMBDA i : rule.s + i - 1 \in rule.i)
-----------------------------------------------------------------------------
(* the cursor *)
First(k) == LET s == {e \in db : KeyOf(e) = k} IN CHOOSE e \in s : \A f \in s : f = e \/ Precedes(e, f)
SetRange(x) == LET ks == {KeyOf(e) : e \in {e \in db : ~LexLt(KeyOf(e), x)}} IN
    IF ks = {} THEN Nothing ELSE First(CHOOSE k \in ks : \A o \in ks : o = k \/ LexLt(k, o))
After(k) == SetRange(k \o <<0>>)
NextDup(e) == LET s == {f \in db : KeyOf(f) = KeyOf(e) /\ Precedes(e, f)} IN IF s = {} THEN Nothing ELSE CHOOSE f \in s : \A x \in s : x = f \/ Precedes(f, x)
-----------------------------------------------------------------------------
(* the walk *)
LowestFrom == <<FromOn(rule.g, 0), FromOn(rule.d, 0)>> \o rule.p
Fill(j) == j \o From(LowestFrom, Len(j) + 1)
DepthJump(e, d) == <<e.g, FromOn(rule.d, d)>>
PrefixJump(e) == LET j == <<e.g, Len(e.sp)>> \o rule.p IN IF LexLt(KeyOf(e), j) THEN j ELSE <<e.g, FromOn(rule.d, Len(e.sp) + 1)>>
KeyJump(e) == <<e.g, Len(e.sp)>> \o e.sp \o <<FromOn(rule.k, e.k)>>
KeyMatches(e) == e.g \in rule.g /\ Len(e.sp) \in rule.d /\ StartsWith(e.sp, rule.p) /\ e.k \in rule.k
Jump(e) ==
    Fill(IF e.g \notin rule.g THEN <<FromOn(rule.g, e.g)>>
         ELSE IF Len(e.sp) \notin rule.d THEN DepthJump(e, Len(e.sp))
         ELSE IF ~StartsWith(e.sp, rule.p) THEN PrefixJump(e)
         ELSE KeyJump(e))
Early(c) == IF asc THEN c < Min_(rule.c) ELSE c > Most(rule.c)
RECURSIVE SkipEarly(_)
SkipEarly(e) == IF e = Nothing \/ e.c \in rule.c \/ ~Early(e.c) THEN e ELSE SkipEarly(NextDup(e))
Rules == [g : GroupSets, d : DepthSets, p : Prefixes_, k : KeySets, c : Ranges, a : AttrSets, b : BranchSets, n : DbSets, i : IndexSets, s : Starts]
Init ==
    /\ db = {} /\ rule \in Rules /\ asc \in BOOLEAN
    /\ at = Nothing /\ phase = "fill" /\ nb = 0 /\ nd = 0 /\ ni = rule.s /\ out = <<>>
Add == /\ phase = "fill" /\ Cardinality(db) < Entries
       /\ \E e \in AllEntries \ db : db' = db \cup {e}
       /\ UNCHANGED <<rule, asc, at, phase, nb, nd, ni, out>>
Begin == /\ phase = "fill" /\ phase' = "key" /\ at' = SetRange(LowestFrom)
         /\ UNCHANGED <<db, rule, asc, nb, nd, ni, out>>
Leave == UNCHANGED <<db, rule, asc>>
Restart(n) == 0      \* every branch is counted for itself
(* look at a key: leap on, or begin with its entries *)
OnKey ==
    /\ phase = "key" /\ Leave
    /\ LET e == SkipEarly(at) IN
       IF at = Nothing THEN phase' = "end" /\ UNCHANGED <<at, nb, nd, ni, out>>
       ELSE IF ~KeyMatches(at) THEN at' = SetRange(Jump(at)) /\ UNCHANGED <<phase, nb, nd, ni, out>>
       ELSE IF e = Nothing \/ e.c \notin rule.c THEN at' = After(KeyOf(at)) /\ UNCHANGED <<phase, nb, nd, ni, out>>
       ELSE at' = e /\ phase' = "entry" /\ nb' = Restart(nb) /\ UNCHANGED <<nd, ni, out>>
Counts(e) == e.a \in rule.a
Stays(e) == e # Nothing /\ e.c \in rule.c
OnEntry ==
    /\ phase = "entry" /\ Leave
    /\ LET fit == at.a \in rule.a
           yield == fit /\ nb \in rule.b
           n == IF Counts(at) THEN nb + 1 ELSE nb
           next == NextDup(at)
           more == n <= Most(rule.b) /\ Stays(next)
           stop == yield /\ (nd > Most(rule.n) \/ (nd \in rule.n /\ ni > Most(rule.i)))
       IN /\ nb' = n
          /\ nd' = IF yield THEN nd + 1 ELSE nd
          /\ ni' = IF yield /\ nd \in rule.n /\ ~stop THEN ni + 1 ELSE ni
          /\ out' = IF yield /\ nd \in rule.n /\ ni \in rule.i THEN Append(out, at) ELSE out
          /\ phase' = IF stop THEN "end" ELSE IF more THEN "entry" ELSE "key"
          /\ at' = IF more THEN next ELSE After(KeyOf(at))
Next == Add \/ Begin \/ OnKey \/ OnEntry
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Complete == phase = "end" => out = Wanted
NeverBack == phase = "key" /\ at # Nothing /\ ~KeyMatches(at) => LexLt(KeyOf(at), Jump(at))
OnTheWay == Len(out) <= Len(Wanted) /\ \A i \in DOMAIN out : out[i] = Wanted[i]
-----------------------------------------------------------------------------
(* wrong on purpose *)
LowestWithKey == <<FromOn(rule.g, 0), FromOn(rule.d, 0)>> \o rule.p \o <<FromOn(rule.k, 0)>>
DepthBeyond(e, d) == <<e.g, FromOn(rule.d, FromOn(rule.d, d) + 1)>>
PrefixBeyond(e) == <<e.g, FromOn(rule.d, Len(e.sp) + 1)>>
EarlyAsc(c) == IF asc \/ Cardinality(rule.c) = 1 THEN c < Min_(rule.c) ELSE c > Most(rule.c)
CountsAll(e) == TRUE
GoesOn(n) == n
NotStays(e) == e # Nothing
-----------------------------------------------------------------------------
(* constants that a configuration cannot spell *)
ManySpaces == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
FewSpaces == {<<>>, <<1>>, <<2>>, <<1, 2>>}
NoSpace == {<<>>}
SomePrefixes == {<<>>, <<1>>, <<2>>}
NoPrefix == {<<>>}
AllDepths == (SUBSET (0..2)) \ {{}}
All == 0..50
JustAll == {All}
OneOrAll == {All, {0}, {1}, {0, 2}, {}}
LowOrAll == {All, {0}, {1, 2}}
=============================================================================
