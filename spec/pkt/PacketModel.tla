----------------------------- MODULE PacketModel -----------------------------
(* A packet on the wire: routing headers change on the way, bytes get altered, *)
(* cut off or added; alterations may be sealed again with a right hash.        *)
(* Hash and signature are ideal.                                               *)
EXTENDS Packet
CONSTANTS Faults, Skip, Values
G(n) == Rep(n, 32)
Ideal == Rep(250, 32)
Sig == Rep(251, 64)
P0 == [kind |-> "data", data |-> <<>>, group |-> G(0), domain |-> Rep(0, 16), stamp |-> Rep(0, 8), links |-> <<>>, space |-> <<>>, pubkey |-> G(0)]
L1 == [tag |-> Rep(1, 16), ptr |-> G(2)]
Packets == {
    P0,
    [P0 EXCEPT !.data = <<1, 2, 255>>],
    [P0 EXCEPT !.kind = "error", !.data = <<9>>],
    [P0 EXCEPT !.kind = "link", !.data = Rep(0, 9)],
    [P0 EXCEPT !.kind = "link", !.data = <<255, 1>>, !.links = <<L1>>, !.space = <<<<97>>>>],
    [P0 EXCEPT !.kind = "key", !.data = <<5>>, !.space = <<<<1>>, <<2, 1>>>>, !.pubkey = G(3), !.group = G(1)],
    [P0 EXCEPT !.kind = "key", !.links = <<L1, L1>>, !.pubkey = G(3)]}
Header0 == B("LK1") \o <<0, 0, 0, 0, 254>> \o Rep(255, 8) \o Rep(0, 16)
VARIABLES pk, wire, faults, sealed
vars == <<pk, wire, faults, sealed>>
Init == /\ pk \in Packets
        /\ wire = Header0 \o Ideal \o EncPoint(pk, Sig)
        /\ faults = 0 /\ sealed = FALSE
Honest == Ideal \o EncPoint(pk, Sig)
Place == {1, 4, 33, 96} \cup 65..76 \cup 129..152 \cup (Len(wire) - 9..Len(wire)) \cup (Len(wire) - 105..Len(wire) - 94)
Flip == faults < Faults /\ \E i \in Place \cap DOMAIN wire, v \in Values :
            wire' = SetAt(wire, i, <<(wire[i] + v) % 256>>) /\ faults' = faults + 1 /\ UNCHANGED <<pk, sealed>>
Cut == faults < Faults /\ \E n \in {1, 8, 16} : Len(wire) > n /\ wire' = SubSeq(wire, 1, Len(wire) - n) /\ faults' = faults + 1 /\ UNCHANGED <<pk, sealed>>
Grow == faults < Faults /\ \E n \in {1, 8} : wire' = wire \o Rep(255, n) /\ faults' = faults + 1 /\ UNCHANGED <<pk, sealed>>
(* whoever altered it also puts the right hash and signature on it *)
Seal == faults > 0 /\ ~sealed /\ sealed' = TRUE /\ UNCHANGED <<pk, wire, faults>>
Hop == Len(wire) >= 32 /\ wire[8] # 1 /\ wire' = HopHeader(SubSeq(wire, 1, 32)) \o From(wire, 33) /\ UNCHANGED <<pk, faults, sealed>>
Flags == Len(wire) >= 32 /\ wire[4] = 0 /\ wire' = FlagHeader(SubSeq(wire, 1, 32), 1, 8) \o From(wire, 33) /\ UNCHANGED <<pk, faults, sealed>>
Next == Flip \/ Cut \/ Grow \/ Seal \/ Hop \/ Flags
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Whole == Len(wire) >= MinPacket /\ HeadOk(wire) /\ Len(wire) >= 64 + Padded(Of16(wire, 67))
HashIs == IF ~Whole THEN <<>> ELSE IF sealed THEN SubSeq(wire, 33, 64) ELSE IF Point_(wire) = EncPoint(pk, Sig) THEN Ideal ELSE Rep(7, 32)
SigIs == Whole /\ (sealed \/ (pk.kind = "key" /\ Point_(wire) = EncPoint(pk, Sig)))
Answer == Read(wire, Skip, HashIs, SigIs)
(* only what was made is accepted, unless someone else made it *)
OnlyHonest == ~sealed => ((Answer.k = "ok") <=> (Len(wire) >= 32 + Len(Honest) /\ SubSeq(wire, 33, 32 + Len(Honest)) = Honest))
Unchanged == (~sealed /\ Answer.k = "ok") => Answer.v = ViewOf(pk, IF pk.kind = "key" THEN Sig ELSE Rep(0, 64))
(* whatever is accepted has exactly one spelling: its fields give its bytes back *)
Fields(v) == [kind |-> v.kind, data |-> v.data, group |-> v.group, domain |-> v.domain, stamp |-> v.stamp, links |-> v.links, space |-> v.space, pubkey |-> v.pubkey]
TableOfNone(pt) == Spaced(KindOf(pt[2])) /\ Of16(pt, 7) = Of16(pt, 5) + MaxDepth /\ SubSeq(pt, Of16(pt, 5) + 1, Of16(pt, 7)) = Rep(0, MaxDepth)
OneSpelling == Answer.k = "ok" =>
    LET pt == Point_(wire) IN TableOfNone(pt) \/ (EncPoint(Fields(Answer.v), Answer.v.sig) = pt /\ ValidSpace(Answer.v.space) /\ SizeF(Fields(Answer.v)) <= MaxPoint)
(* a reader of a stream asks for exactly what is missing *)
Asks == \A n \in {0, 67, 68, 70, Len(wire) - 1} :
    LET e == Read(Honest, TRUE, <<>>, FALSE)
        w == Header0 \o Honest
    IN n < Len(w) => LET a == Read(SubSeq(w, 1, n), FALSE, Ideal, TRUE) IN a.k = "more" /\ a.n > n /\ (n >= MinPacket => a.n = Len(w))
(* the order of packets is total and is the byte order of their index entries *)
Stamps == {Rep(0, 8), Rep(0, 7) \o <<1>>}
Spaces == {<<>>, <<<<97>>>>, <<<<98>>>>, <<<<97, 97>>>>, <<<<97>>, <<97>>>>, <<<<97, 97>>, <<1>>>>}
Small == {[P0 EXCEPT !.kind = k, !.group = g, !.space = s, !.stamp = t, !.pubkey = IF k = "key" THEN G(3) ELSE G(0)] :
            k \in {"data", "link", "key"}, g \in {G(0), G(1)}, s \in Spaces, t \in Stamps}
Entry(p, h) == TreeKey(p) \o p.stamp \o h
Ordered == \A p \in Small, q \in {x \in Small : x.kind # "data"} :
    /\ p.kind # "data" => Order(p, G(1), q, G(1)) = Lex3(Entry(p, G(1)), Entry(q, G(1)))
    /\ Order(p, G(1), q, G(2)) # 1
    /\ Order(p, G(1), q, G(2)) = 2 - Order(q, G(2), p, G(1))
    /\ (Core(p) = Core(q)) <=> (EncPoint(p, Sig) = EncPoint(q, Sig))
OrderIsEntryOrder == (faults = 0 /\ pk = P0 /\ wire[8] = 0 /\ wire[4] = 0) => Ordered
(* variants that must not do *)
NoPadding(pt) ==
    LET kind == KindOf(pt[2]) end == Of16(pt, 3) - (IF kind = "key" THEN SignSize ELSE 0) IN
    Spaced(kind) => LET sp == Of16(pt, 5) dt == Of16(pt, 7) IN
        HeadSize + LinkHeadSize <= sp /\ sp <= dt /\ dt <= end /\ (sp - HeadSize - LinkHeadSize) % LinkSize = 0 /\ DecRooted(SubSeq(pt, sp + 1, dt)).ok
NoLinkSize(pt) ==
    LET kind == KindOf(pt[2]) size == Of16(pt, 3) end == size - (IF kind = "key" THEN SignSize ELSE 0) IN
    /\ \A i \in end + 1..end + RoomOf(size) : pt[i] = 255
    /\ Spaced(kind) => LET sp == Of16(pt, 5) dt == Of16(pt, 7) IN HeadSize + LinkHeadSize <= sp /\ sp <= dt /\ dt <= end /\ DecRooted(SubSeq(pt, sp + 1, dt)).ok
ByBytes(l, m) == IF l = m THEN 1 ELSE IF LexLt(Flat(l), Flat(m)) THEN 0 ELSE 2
=============================================================================
