-------------------------------- MODULE Space --------------------------------
(* A space is a list of components; its forms are the byte form (components    *)
(* with their length in front), the rooted form (a table of where components   *)
(* end in front of that) and a text.                                           *)
EXTENDS Ast
MaxDepth == 8
MaxComp == 200
MaxSpace == 242
SOk(l) == [ok |-> TRUE, l |-> l]
SBad == [ok |-> FALSE, l |-> <<>>]
EncSpace(l) == Flat([i \in DOMAIN l |-> <<Len(l[i])>> \o l[i]])
CompOk(c) == Len(c) \in 1..MaxComp
ValidSpace(l) == Len(l) <= MaxDepth /\ (\A i \in DOMAIN l : CompOk(l[i])) /\ Len(EncSpace(l)) <= MaxSpace
OfComps(l) == IF ValidSpace(l) THEN SOk(l) ELSE SBad
RECURSIVE DecComps(_)
DecComps(b) ==
    IF b = <<>> THEN SOk(<<>>)
    ELSE IF b[1] = 0 \/ Len(b) <= b[1] THEN SBad
    ELSE LET r == DecComps(From(b, b[1] + 2)) IN IF r.ok THEN SOk(<<SubSeq(b, 2, b[1] + 1)>> \o r.l) ELSE SBad
DecSpace(b) == LET r == DecComps(b) IN IF r.ok /\ ValidSpace(r.l) THEN r ELSE SBad
Ends(l) == Now([i \in 1..MaxDepth - 1 |-> Len(EncSpace(SubSeq(l, 1, MinOf(i, Len(l)))))])
RootOf(l) == IF l = <<>> THEN <<>> ELSE <<Len(l)>> \o Ends(l) \o EncSpace(l)
(* the empty space may also have a table *)
DecRooted(b) ==
    IF b = <<>> \/ b = Rep(0, MaxDepth) THEN SOk(<<>>)
    ELSE IF Len(b) < MaxDepth THEN SBad
    ELSE LET r == DecSpace(From(b, MaxDepth + 1)) IN IF r.ok /\ r.l # <<>> /\ RootOf(r.l) = b THEN r ELSE SBad
CompLt(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLt(a, b))
(* 0 before, 1 same, 2 after *)
RECURSIVE SpaceOrder(_, _)
SpaceOrder(l, m) == IF l = m THEN 1 ELSE IF l = <<>> THEN 0 ELSE IF m = <<>> THEN 2
    ELSE IF l[1] = m[1] THEN SpaceOrder(Tail(l), Tail(m)) ELSE IF CompLt(l[1], m[1]) THEN 0 ELSE 2
Range_0(l, a, z) == SubSeq(l, MinOf(a, Len(l)) + 1, MinOf(z, Len(l)))
-----------------------------------------------------------------------------
(* the list of (separator, bytes) that an expression evaluates to, as a space *)
OfList(lst) ==
    LET a == IF lst # <<>> /\ lst[1].c # SLASH /\ lst[1].b = <<>> THEN Tail(lst) ELSE lst IN
    IF a = <<>> THEN SOk(<<>>)
    ELSE IF Len(a) = 1 /\ a[1].c = 0 THEN DecSpace(a[1].b)
    ELSE IF \E i \in DOMAIN a : a[i].c # SLASH THEN SBad
    ELSE LET n == SelectSeq(a, LAMBDA x : x.b # <<>>) IN OfComps(Now([i \in DOMAIN n |-> n[i].b]))
(* expressions that may stand for a space: one value, or values with a slash before each *)
SpaceShape(l) ==
    \/ Len(l) = 1 /\ l[1].t # "c"
    \/ Len(l) % 2 = 0 /\ \A i \in DOMAIN l : IF i % 2 = 1 THEN IsC(l[i], SLASH) ELSE l[i].t # "c"
ShowComp(c) ==
    IF Len(c) = 32 THEN B("[b:") \o B64(c) \o <<CLOSE>>
    ELSE IF Len(c) = 16 /\ Enc(c) # c THEN
        (IF c[1] = 255 THEN B("[f:") \o Enc(CutPrefix(c, 255)) ELSE B("[a:") \o Enc(CutPrefix(c, 0))) \o <<CLOSE>>
    ELSE Enc(c)
ShowSpace(l) == Flat([i \in DOMAIN l |-> <<SLASH>> \o ShowComp(l[i])])
=============================================================================
