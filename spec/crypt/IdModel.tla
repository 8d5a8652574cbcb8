------------------------------- MODULE IdModel -------------------------------
(* Encrypted identities and signatures over ideal cryptography: keys, public   *)
(* keys and digests are terms, and xor cancels equal terms only.  An intruder  *)
(* may change every field of every text, mix fields of several texts, and try  *)
(* every password; a signature may be moved to any key and any content.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, Pws, Costs, MaxTexts
Secrets == {<<"sec", n>> : n \in Names}
Pub(s) == <<"pub", s>>
Digest(pw, cost, salt) == <<"digest", pw, cost, salt>>
(* mask xor secret; taking the mask off again with another one leaves junk *)
Mask(d, s) == <<"xor", d, s>>
Unmask(d, h) == IF h[1] = "xor" /\ h[2] = d THEN h[3] ELSE <<"junk", d, h>>
IsSecret(s) == s \in Secrets
VARIABLES texts, honest, sigs
vars == <<texts, honest, sigs>>
Text(cost, salt, hash) == [cost |-> cost, salt |-> salt, hash |-> hash]
Encrypt(s, pw, cost) == Text(cost, Pub(s), Mask(Digest(pw, cost, Pub(s)), s))
Refused == <<"refused">>
(* junk is, with overwhelming probability, the secret of some other public key *)
KeyOf(s) == IF IsSecret(s) THEN Pub(s) ELSE <<"pub", s>>
Open(t, pw) == LET s == Unmask(Digest(pw, t.cost, t.salt), t.hash) IN IF KeyOf(s) = t.salt THEN s ELSE Refused
Init == texts = {} /\ honest = {} /\ sigs = {}
Make == \E s \in Secrets, pw \in Pws, c \in Costs :
    /\ Cardinality(texts) < MaxTexts
    /\ texts' = texts \cup {Encrypt(s, pw, c)}
    /\ honest' = honest \cup {<<Encrypt(s, pw, c), pw, s>>}
    /\ UNCHANGED sigs
Mix == \E t \in texts, u \in texts, v \in texts, c \in Costs :
    /\ Cardinality(texts) < MaxTexts
    /\ texts' = texts \cup {Text(c, u.salt, v.hash)}
    /\ UNCHANGED <<honest, sigs>>
Sign == \E s \in Secrets, h \in {"h1", "h2"} : sigs' = sigs \cup {<<"sig", s, h>>} /\ UNCHANGED <<texts, honest>>
Next == Make \/ Mix \/ Sign
Spec == Init /\ [][Next]_vars
Verify(p, h, sg) == sg[1] = "sig" /\ KeyOf(sg[2]) = p /\ sg[3] = h
(* K02 *)
OpensToItsKey == \A x \in honest : Open(x[1], x[2]) = x[3] /\ x[1].salt = Pub(x[3])
NothingElseOpens == \A t \in texts, pw \in Pws : Open(t, pw) # Refused => <<t, pw, Open(t, pw)>> \in honest
(* K01 *)
OnlyMadeSignatures == \A s \in Secrets, h \in {"h1", "h2"}, g \in sigs : Verify(Pub(s), h, g) => g = <<"sig", s, h>>
-----------------------------------------------------------------------------
(* wrong on purpose: the public key is not compared / costs are not hashed *)
OpenUnchecked(t, pw) == Unmask(Digest(pw, t.cost, t.salt), t.hash)
DigestNoSalt(pw, cost, salt) == <<"digest", pw, salt>>
VerifyAnyHash(p, h, sg) == sg[1] = "sig" /\ KeyOf(sg[2]) = p
=============================================================================
