----------------------------- MODULE PacketCheck -----------------------------
(* What the code answered about packets.                                      *)
EXTENDS Packet, Records
Yes(c, why) == IF c THEN "" ELSE why
SameV(v, w) == \A k \in DOMAIN w : v[k] = w[k]
Only(l, w) == Len(l) = 1 /\ SameV(l[1], w)
(* copies and header changes, one after another: the state is what form the packet has and its bytes *)
Mutable == {"box", "rebox", "re"}
Becomes(form, op) ==
    CASE op \in {"box", "read", "rawbox", "serde"} -> "box"
      [] op \in {"arc", "parts", "readodd", "rawarc"} -> "arc"
      [] op = "reroute" -> IF form = "box" THEN "rebox" ELSE "re"
      [] op = "reshare" -> "re"
      [] op \in {"recv", "share"} -> "fixed"
      [] OTHER -> form
AfterForm(form, s) == IF s.op = "dyn" THEN (IF s.ins % 2 = 0 THEN "box" ELSE "arc") ELSE Becomes(form, s.op)
AfterHead(h, s) == CASE s.op = "set" -> s.h [] s.op = "hop" -> HopHeader(h) [] s.op = "flags" -> FlagHeader(h, s.rem, s.ins) [] OTHER -> h
RECURSIVE Forms(_, _, _, _, _, _)
Forms(x, form, head, rest, i, view) ==
    IF i > Len(x.steps) THEN ""
    ELSE LET s == x.steps[i]
             o == x.r.l[i]
             f == AfterForm(form, s)
             \* which forms let their header be changed is the code's choice, but it says so
             h == IF o.can = 1 THEN AfterHead(head, s) ELSE head
         IN IF f \in Mutable /\ o.can # 1 THEN "the header cannot be changed"
            ELSE IF o.out # h \o rest THEN "the bytes are other ones"
            ELSE IF o.hash # SubSeq(rest, 1, 32) THEN "the hash is another one"
            ELSE IF ~SameV(o.f, view) THEN "the fields are other ones"
            ELSE Forms(x, f, h, rest, i + 1, view)
SigOf(b, p) == IF p.kind = "key" THEN From(b, Len(b) - 63) ELSE Rep(0, 64)
WhyPacket(x) ==
    LET r == x.r IN
    CASE x.op = "build" ->
            IF ~Fits(x.f.kind, Len(x.f.links), x.f.space, Len(x.f.data)) THEN Yes(r.k # "ok", "accepted, should be refused")
            ELSE IF r.k # "ok" THEN "refused, should be accepted"
            ELSE LET sig == SigOf(r.b, x.f) IN
                 IF r.b # x.h \o x.hash \o EncPoint(x.f, sig) THEN "wrong bytes"
                 ELSE IF x.f.kind = "key" /\ x.sig # 1 THEN "the signature does not verify"
                 ELSE Yes(Only(r.l, ViewOf(x.f, sig)), "wrong fields")
      [] x.op = "forms" ->
            IF r.k # "ok" \/ Len(r.l) # Len(x.steps) THEN "no answer"
            ELSE Forms(x, "box", SubSeq(x.in, 1, 32), From(x.in, 33), 1, ViewOf(x.f, SigOf(x.in, x.f)))
      [] x.op = "read" ->
            LET e == Read(x.in, x.skip = 1, x.hash, x.sig = 1) IN
            IF e.k = "more" THEN (IF r.k # "more" THEN "should ask for more bytes" ELSE Yes(r.b = U16(e.n), "asks for another number of bytes"))
            ELSE IF e.k # r.k THEN (IF e.k = "ok" THEN "refused, should be accepted" ELSE "accepted, should be refused")
            ELSE IF e.k # "ok" THEN ""
            ELSE IF r.b # e.b THEN "wrong bytes" ELSE Yes(Only(r.l, e.v), "wrong fields")
      [] x.op = "cmp" -> Yes(r.k = "ok" /\ r.b = <<Order(x.f, x.fh, x.g, x.gh)>>, "wrong order")
      [] x.op = "same" ->
            IF r.k # "ok" THEN "no answer"
            ELSE IF (Core(x.f) = Core(x.g)) # (x.fh = x.gh) THEN "the hash does not tell the contents"
            ELSE Yes(r.b = <<IF x.fh = x.gh THEN 1 ELSE 0>>, "wrong equality")
      [] x.op = "entry" ->
            IF ~Spaced(x.f.kind) THEN Yes(r.k = "no", "it has no space")
            ELSE IF r.k # "ok" THEN "it has a space"
            ELSE IF r.b # TreeKey(x.f) THEN "wrong key"
            ELSE Yes(Only(r.l, [group |-> x.f.group, domain |-> x.f.domain, depth |-> Len(x.f.space), space |-> x.f.space, pubkey |-> KeyOf(x.f),
                     stamp |-> x.f.stamp, hash |-> x.hash, ptr |-> x.ptr, nlinks |-> Len(x.f.links), ndata |-> Len(x.f.data)]), "wrong entry")
      [] x.op = "fits" ->
            IF ~Fits(x.kind, x.nlinks, x.space, x.ndata) THEN Yes(r.k # "ok", "accepted, should be refused")
            ELSE Yes(r.k = "ok" /\ r.b = U16(PacketSize(x.kind, x.nlinks, x.space, x.ndata)), "refused or of wrong size")
      [] x.op = "free" -> Yes(r.k = "ok" /\ r.l = <<Free(x.kind, x.nlinks, x.space, x.ndata)>>, "wrong free space")
      [] OTHER -> "unknown record"
=============================================================================
