----------------------------- MODULE SpaceModel ------------------------------
(* Spaces grown and shrunk component by component, two of them side by side:   *)
(* every form gives the list back, and prefix, order and limits are those of   *)
(* the list.                                                                   *)
EXTENDS Eval
CONSTANTS Sample, Junk
VARIABLES fst, snd
vars == <<fst, snd>>
Init == fst = <<>> /\ snd = <<>>
Grow(l) == {m \in {Append(l, x) : x \in Sample} : ValidSpace(m)}
Next == \/ fst' \in Grow(fst) /\ UNCHANGED snd
        \/ snd' \in Grow(snd) /\ UNCHANGED fst
Spec == Init /\ [][Next]_vars
IsPre(p, l) == Len(p) <= Len(l) /\ \A i \in DOMAIN p : p[i] = l[i]
Lossless == DecSpace(EncSpace(fst)) = SOk(fst) /\ DecRooted(RootOf(fst)) = SOk(fst)
Canonical == (EncSpace(fst) = EncSpace(snd)) = (fst = snd) /\ (RootOf(fst) = RootOf(snd)) = (fst = snd)
PrefixIsComponents == IsPrefix_(EncSpace(snd), EncSpace(fst)) = IsPre(snd, fst)
OrderIsComponents == LET q == SpaceOrder(fst, snd) IN
    /\ q = (IF fst = snd THEN 1 ELSE IF LexLt(EncSpace(fst), EncSpace(snd)) THEN 0 ELSE 2)
    /\ (IsPre(fst, snd) => q < 2)
(* no other bytes are read as this space *)
Strict ==
    LET e == EncSpace(fst) r == RootOf(fst) IN
    /\ \A i \in DOMAIN e : \A x \in Junk : LET d == DecSpace([e EXCEPT ![i] = x]) IN ~d.ok \/ EncSpace(d.l) = [e EXCEPT ![i] = x]
    /\ \A i \in 1..MinOf(Len(r), MaxDepth) : \A x \in Junk : x # r[i] => ~DecRooted([r EXCEPT ![i] = x]).ok
    /\ \A i \in 1..(Len(e) - 1) : LET d == DecSpace(SubSeq(e, 1, i)) IN d.ok => EncSpace(d.l) = SubSeq(e, 1, i)
Limits == \A x \in Sample \cup {<<>>} : OfComps(Append(fst, x)).ok = (x # <<>> /\ Len(x) <= MaxComp /\ Len(fst) < MaxDepth /\ Len(EncSpace(fst)) + Len(x) + 1 <= MaxSpace)
Texts == LET t == SpaceText(ShowSpace(fst)) IN t.ok /\ t.l = fst
Expressions == LET v == EvalTxt(All(<<Basic, Leaf("space")>>), <<OPEN, SLASH>> \o (IF fst = <<>> THEN <<SLASH>> ELSE ShowSpace(fst)) \o <<CLOSE>>) IN
    v.k = "ok" /\ Exact(v.l) /\ ExactB(v.l) = EncSpace(fst)
-----------------------------------------------------------------------------
(* wrong on purpose *)
EncBare(l) == Flat([i \in DOMAIN l |-> <<SLASH>> \o l[i]])
DecLoose(b) == IF b = <<>> \/ Len(b) < MaxDepth THEN SOk(<<>>) ELSE DecSpace(From(b, MaxDepth + 1))
OrderBare(l, m) == IF l = m THEN 1 ELSE IF LexLt(Flat(l), Flat(m)) THEN 0 ELSE 2
SmallDepth == 3
SmallComp == 4
SmallSpace == 9
LargeSpace == 11
Hash_ == Rep(200, 32)
SampleSet == {<<1>>, <<1, 1>>, <<0>>, <<47>>, B("abcde"), <<255, 2>>}
LongSet == {<<1>>, Rep(0, 16), <<255>> \o Rep(1, 15), Rep(97, 16), Hash_}
BigDepth == 3
=============================================================================
