----------------------------- MODULE CryptCheck ------------------------------
(* Hashes, signatures and identities are judged by the whole history of calls: *)
(* a hash stands for one content, a signature for one (key, hash), and an      *)
(* encrypted text for one (key, password).  The cryptography itself is taken   *)
(* to be ideal: what was never made is never accepted.                         *)
EXTENDS Bytes, Records
Yes(c, why) == IF c THEN "" ELSE why
Of(op) == {i \in 1..Num : Recs[i].op = op}
Ans(op) == {i \in Of(op) : Recs[i].r.k = "ok"}
-----------------------------------------------------------------------------
(* contents are given as runs <<byte, count>>, cut into segments *)
Normal(segs) ==
    FoldLeft(LAMBDA acc, run :
        IF run[2] = 0 THEN acc
        ELSE IF acc # <<>> /\ acc[Len(acc)][1] = run[1] THEN [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + run[2]>>]
        ELSE Append(acc, run), <<>>, Flat(segs))
Hashed == {<<Normal(Recs[i].segs), Recs[i].r.b>> : i \in Of("hash")}
HashOk == Cardinality(Hashed) = Cardinality({h[1] : h \in Hashed}) /\ Cardinality(Hashed) = Cardinality({h[2] : h \in Hashed})
EmptyHash == <<175, 19, 73, 185, 245, 249, 161, 166, 160, 64, 77, 234, 54, 220, 201, 73, 155, 203, 37, 201, 173, 193, 18, 183, 204, 154, 147, 202, 228, 31, 50, 98>>
(* the number of points of the curve, in 32 bytes *)
N0 == Rep(255, 15) \o <<254, 186, 174, 220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65>>
ValidSecret(s) == LexLt(s, N0) /\ CutPrefix(s, 0) # <<>>
Opposite(a, b) == LET s == AddBE(a, b) IN s.carry = 0 /\ s.v = N0
Keys == {<<Recs[i].in, Recs[i].r.b>> : i \in Ans("key")}
Signed == {<<Recs[i].pub, Recs[i].hash, Recs[i].r.b>> : i \in Ans("sign")}
-----------------------------------------------------------------------------
(* $argon2d$v=19$m=M,t=T,p=P$salt$hash *)
Prefix == B("$argon2d") \o B("$v=19$")
Num4(s, name) == IF Len(s) < 3 \/ SubSeq(s, 1, 2) # name \o <<61>> THEN [ok |-> FALSE, v |-> <<>>] ELSE ParseU(From(s, 3), 4)
Fields(t) ==
    LET parts == SplitAt(From(t, Len(Prefix) + 1), LAMBDA c : c = 36)
        opts == SplitAt(parts[1], LAMBDA c : c = 44)
        m == Num4(opts[1], B("m")) tt == Num4(opts[2], B("t")) p == Num4(opts[3], B("p"))
        salt == Dec64(parts[2], StdInv, <<>>) hash == Dec64(parts[3], StdInv, <<>>)
    IN IF ~IsPrefix_(Prefix, t) THEN [k |-> "bad"]
       ELSE IF Len(parts) < 3 THEN [k |-> "bad"]
       ELSE IF ~salt.ok \/ ~hash.ok \/ Len(hash.v) # 32 THEN [k |-> "bad"]
       ELSE IF Len(parts) # 3 \/ Len(opts) # 3 THEN [k |-> "odd"]
       ELSE IF ~m.ok \/ ~tt.ok \/ ~p.ok THEN [k |-> "odd"]
       ELSE [k |-> "ok", f |-> <<m.v, tt.v, p.v, salt.v, hash.v>>, salt |-> salt.v, cost |-> <<Cap(m.v), Cap(tt.v), Cap(p.v)>>]
Made == {<<Fields(Recs[i].r.b).f, Recs[i].pw, Recs[i].sec>> : i \in {j \in Ans("encrypt") : Fields(Recs[j].r.b).k = "ok"}}
-----------------------------------------------------------------------------
WhyCrypt(x) ==
    LET r == x.r IN
    CASE x.op = "hash" ->
            LET c == Normal(x.segs) IN
            IF r.k # "ok" \/ Len(r.b) # 32 THEN "no hash"
            ELSE IF c = <<>> /\ r.b # EmptyHash THEN "not the hash of the empty content"
            ELSE IF HashOk THEN ""
            ELSE IF \E h \in Hashed : h[1] = c /\ h[2] # r.b THEN "the same content has another hash"
            ELSE Yes(~\E h \in Hashed : h[1] # c /\ h[2] = r.b, "another content has the same hash")
      [] x.op = "key" ->
            IF (r.k = "ok") # ValidSecret(x.in) THEN (IF r.k = "ok" THEN "accepts an invalid secret" ELSE "refuses a valid secret")
            ELSE IF r.k # "ok" THEN ""
            ELSE Yes(\A k \in Keys : (k[2] = r.b) = (k[1] = x.in \/ Opposite(k[1], x.in)), "public keys do not tell secrets apart")
      [] x.op = "sign" -> Yes(r.k = "ok", "does not sign")
      [] x.op = "verify" ->
            LET made == <<x.pub, x.hash, x.sig>> \in Signed IN
            IF made = (r.k = "ok") THEN "" ELSE IF made THEN "refuses a signature that was made" ELSE "accepts a signature that was never made"
      [] x.op = "encrypt" ->
            IF r.k # "ok" THEN "does not encrypt"
            ELSE LET f == Fields(r.b) IN
                 Yes(f.k = "ok" /\ f.salt = x.pub /\ f.cost = x.cost, "not an identity of this key with these costs")
      [] x.op = "open" ->
            LET f == Fields(x.in) IN
            CASE f.k = "bad" -> Yes(r.k # "ok", "opens a malformed text")
              [] f.k = "odd" -> Yes(r.k # "ok" \/ \E e \in Made : e[2] = x.pw /\ e[3] = r.b, "opens to a different key")
              [] OTHER -> LET m == {e \in Made : e[1] = f.f /\ e[2] = x.pw} IN
                          IF m = {} THEN Yes(r.k # "ok", "opens with another password or altered fields")
                          ELSE IF r.k # "ok" THEN "does not open" ELSE Yes(\A e \in m : e[3] = r.b, "opens to a different key")
      [] x.op = "public" ->
            LET f == Fields(x.in) IN
            CASE f.k = "bad" -> Yes(r.k # "ok", "reads a malformed text")
              [] f.k = "odd" -> ""
              [] OTHER -> IF Len(f.salt) # 32 THEN Yes(r.k # "ok", "reads a malformed text")
                          ELSE Yes(r.k = "ok" /\ r.b = f.salt, "wrong public key")
      [] OTHER -> "unknown record"
=============================================================================
