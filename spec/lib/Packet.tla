------------------------------- MODULE Packet --------------------------------
(* A point is a record of fields; a packet is its routing header, the hash of *)
(* the point's bytes and those bytes.                                         *)
(*   kind "data" "error"   data                                               *)
(*        "link" "key"     also group, domain, stamp, links, space            *)
(*        "key"            also pubkey                                        *)
EXTENDS Space
MaxPoint == 65024
HeadSize == 4
LinkHeadSize == 60
LinkSize == 48
SignSize == 96
MinPacket == 68
U16(n) == <<n \div 256, n % 256>>
Of16(b, i) == b[i] * 256 + b[i + 1]
TypeOf(kind) == CASE kind = "data" -> 1 [] kind = "link" -> 3 [] kind = "key" -> 7 [] kind = "error" -> 128
KindOf(t) == CASE t = 1 -> "data" [] t = 3 -> "link" [] t = 7 -> "key" [] t = 128 -> "error" [] OTHER -> "none"
Spaced(kind) == kind \in {"link", "key"}
RoomOf(n) == (8 - (n % 8)) % 8
Padded(n) == n + RoomOf(n)
(* size of a point, without its padding *)
SpaceSize(l) == IF l = <<>> THEN 0 ELSE MaxDepth + Len(EncSpace(l))
SizeOf(kind, nlinks, space, ndata) ==
    HeadSize + ndata + (IF Spaced(kind) THEN LinkHeadSize + LinkSize * nlinks + SpaceSize(space) ELSE 0)
    + (IF kind = "key" THEN SignSize ELSE 0)
PacketSize(kind, nlinks, space, ndata) == 64 + Padded(SizeOf(kind, nlinks, space, ndata))
Fits(kind, nlinks, space, ndata) == SizeOf(kind, nlinks, space, ndata) <= MaxPoint
Free(kind, nlinks, space, ndata) == MaxPoint - SizeOf(kind, nlinks, space, ndata)
SizeF(p) == SizeOf(p.kind, Len(p.links), p.space, Len(p.data))
LinkBytes(ls) == Flat([i \in DOMAIN ls |-> ls[i].tag \o ls[i].ptr])
(* what is signed, and (without a signature) what is hashed *)
Unsigned(p) ==
    LET size == SizeF(p)
        at == HeadSize + LinkHeadSize + LinkSize * Len(p.links)
        mid == IF Spaced(p.kind)
               THEN U16(at) \o U16(at + SpaceSize(p.space)) \o p.stamp \o p.group \o p.domain \o LinkBytes(p.links) \o RootOf(p.space)
               ELSE <<>>
    IN <<0, TypeOf(p.kind)>> \o U16(size) \o mid \o p.data \o Rep(255, RoomOf(size))
EncPoint(p, sig) == Unsigned(p) \o (IF p.kind = "key" THEN p.pubkey \o sig ELSE <<>>)
(* what its accessors say about a point *)
ViewOf(p, sig) ==
    LET sp == Spaced(p.kind) IN
    [kind |-> p.kind, data |-> p.data,
     group |-> IF sp THEN p.group ELSE Rep(0, 32), domain |-> IF sp THEN p.domain ELSE Rep(0, 16),
     stamp |-> IF sp THEN p.stamp ELSE Rep(0, 8), links |-> IF sp THEN p.links ELSE <<>>, space |-> IF sp THEN p.space ELSE <<>>,
     depth |-> IF sp THEN Len(p.space) ELSE 0, pubkey |-> IF p.kind = "key" THEN p.pubkey ELSE Rep(0, 32), sig |-> sig,
     size |-> 64 + Padded(SizeF(p)), pad |-> Rep(255, RoomOf(SizeF(p)))]
-----------------------------------------------------------------------------
(* Reading: the answer about the first bytes of b is "more" (and how many are  *)
(* needed), "no", or the packet.  `hash` and `sigok` say what hashing the point *)
(* bytes gives and whether the signature at their end verifies.               *)
More(n) == [k |-> "more", n |-> n]
No == [k |-> "err"]
HeadOk(b) ==
    LET size == Of16(b, 67) kind == KindOf(b[66]) IN
    /\ b[65] = 0 /\ kind # "none"
    /\ size >= HeadSize + (IF Spaced(kind) THEN LinkHeadSize ELSE 0) + (IF kind = "key" THEN SignSize ELSE 0)
    /\ size <= MaxPoint
Point_(b) == SubSeq(b, 65, 64 + Padded(Of16(b, 67)))
BodyOk(pt) ==
    LET kind == KindOf(pt[2])
        size == Of16(pt, 3)
        signed == IF kind = "key" THEN SignSize ELSE 0
        end == size - signed
    IN /\ \A i \in end + 1..end + RoomOf(size) : pt[i] = 255
       /\ Spaced(kind) =>
            LET sp == Of16(pt, 5) dt == Of16(pt, 7) IN
            /\ HeadSize + LinkHeadSize <= sp /\ sp <= dt /\ dt <= end
            /\ (sp - HeadSize - LinkHeadSize) % LinkSize = 0
            /\ DecRooted(SubSeq(pt, sp + 1, dt)).ok
ViewPoint(pt) ==
    LET kind == KindOf(pt[2])
        size == Of16(pt, 3)
        signed == IF kind = "key" THEN SignSize ELSE 0
        end == size - signed
        sp == Of16(pt, 5)
        dt == Of16(pt, 7)
        n == Len(pt)
        nl == (sp - HeadSize - LinkHeadSize) \div LinkSize
        space == DecRooted(SubSeq(pt, sp + 1, dt)).l
        pad == Rep(255, RoomOf(size))
    IN IF ~Spaced(kind)
       THEN [kind |-> kind, data |-> SubSeq(pt, 5, end), group |-> Rep(0, 32), domain |-> Rep(0, 16), stamp |-> Rep(0, 8), links |-> <<>>,
             space |-> <<>>, depth |-> 0, pubkey |-> Rep(0, 32), sig |-> Rep(0, 64), size |-> 64 + n, pad |-> pad]
       ELSE [kind |-> kind, data |-> SubSeq(pt, dt + 1, end), stamp |-> SubSeq(pt, 9, 16), group |-> SubSeq(pt, 17, 48), domain |-> SubSeq(pt, 49, 64),
             links |-> Now([i \in 1..nl |-> LET o == 64 + LinkSize * (i - 1) IN [tag |-> SubSeq(pt, o + 1, o + 16), ptr |-> SubSeq(pt, o + 17, o + 48)]]),
             space |-> space, depth |-> Len(space),
             pubkey |-> IF kind = "key" THEN SubSeq(pt, n - 95, n - 64) ELSE Rep(0, 32),
             sig |-> IF kind = "key" THEN SubSeq(pt, n - 63, n) ELSE Rep(0, 64), size |-> 64 + n, pad |-> pad]
Read(b, skip, hash, sigok) ==
    IF Len(b) < MinPacket THEN More(MinPacket)
    ELSE IF ~HeadOk(b) THEN No
    ELSE LET n == 64 + Padded(Of16(b, 67)) IN
         IF Len(b) < n THEN More(n)
         ELSE LET pt == Point_(b) IN
              IF ~BodyOk(pt) THEN No
              ELSE IF ~skip /\ (hash # SubSeq(b, 33, 64) \/ (KindOf(pt[2]) = "key" /\ ~sigok)) THEN No
              ELSE [k |-> "ok", b |-> SubSeq(b, 1, n), v |-> ViewPoint(pt)]
-----------------------------------------------------------------------------
(* order: group, domain, depth, space, key, stamp, hash; packets without a space after those, by hash *)
Lex3(a, b) == IF a = b THEN 1 ELSE IF LexLt(a, b) THEN 0 ELSE 2
Depth3(l, m) == IF Len(l) = Len(m) THEN 1 ELSE IF Len(l) < Len(m) THEN 0 ELSE 2
RECURSIVE First3(_)
First3(cs) == IF cs = <<>> THEN 1 ELSE IF cs[1] # 1 THEN cs[1] ELSE First3(Tail(cs))
KeyOf(p) == IF p.kind = "key" THEN p.pubkey ELSE Rep(0, 32)
Order(p, ph, q, qh) ==
    IF Spaced(p.kind) # Spaced(q.kind) THEN (IF Spaced(p.kind) THEN 0 ELSE 2)
    ELSE IF ~Spaced(p.kind) THEN Lex3(ph, qh)
    ELSE First3(<<Lex3(p.group, q.group), Lex3(p.domain, q.domain), Depth3(p.space, q.space), SpaceOrder(p.space, q.space),
                  Lex3(KeyOf(p), KeyOf(q)), Lex3(p.stamp, q.stamp), Lex3(ph, qh)>>)
TreeKey(p) == p.group \o p.domain \o <<Len(p.space)>> \o EncSpace(p.space) \o KeyOf(p)
(* the fields that make a point *)
Core(p) == [kind |-> p.kind, data |-> p.data] @@
           IF Spaced(p.kind) THEN [group |-> p.group, domain |-> p.domain, stamp |-> p.stamp, links |-> p.links, space |-> p.space, pubkey |-> KeyOf(p)]
           ELSE [x \in {} |-> 0]
-----------------------------------------------------------------------------
(* the routing header: prefix 3, flags 1, hop 4, stamp 8, bits 16 *)
Bit(x, k) == (x \div 2 ^ k) % 2
Bits(f(_)) == f(0) + 2 * f(1) + 4 * f(2) + 8 * f(3) + 16 * f(4) + 32 * f(5) + 64 * f(6) + 128 * f(7)
FlagsMinus(x, y) == Bits(LAMBDA k : IF Bit(y, k) = 1 THEN 0 ELSE Bit(x, k))
FlagsPlus(x, y) == Bits(LAMBDA k : IF Bit(y, k) = 1 THEN 1 ELSE Bit(x, k))
SetAt(b, i, v) == SubSeq(b, 1, i - 1) \o v \o From(b, i + Len(v))
HopHeader(h) == SetAt(SetAt(h, 5, SatAdd(SubSeq(h, 5, 8), <<0, 0, 0, 1>>)), 4, <<FlagsMinus(h[4], 128)>>)
FlagHeader(h, rem, ins) == SetAt(h, 4, <<FlagsPlus(FlagsMinus(h[4], rem), ins)>>)
=============================================================================
