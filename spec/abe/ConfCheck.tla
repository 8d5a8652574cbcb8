------------------------------ MODULE ConfCheck ------------------------------
(* What the code answered, against the meaning of configuration lists.        *)
EXTENDS Conf, Records
Yes(c, why) == IF c THEN "" ELSE why
WhyConf(x) ==
    LET r == x.r IN
    CASE x.op = "look" /\ x.kind = "all" ->
            LET h == Hits(x.ents, x.keys) IN
            Yes(r.k = "ok" /\ r.l = Now([i \in DOMAIN h |-> Hit(h[i], x.keys)]), "wrong entries")
      [] x.op = "look" ->
            LET h == Hits(x.ents, x.keys) IN
            IF h = <<>> THEN Yes(r.k = "no", "finds an absent key")
            ELSE IF x.kind = "one" THEN LET e == Hit(h[1], x.keys) IN Yes(r.k = e.k /\ r.l = e.l, "wrong entry")
            ELSE LET v == Value(h[1], x.keys) IN
                 IF r.k # v.k THEN "answers " \o r.k \o ", should be " \o v.k ELSE Yes(r.b = v.b /\ r.l = v.l, "wrong value")
      [] x.op = "reparse" ->
            IF r.k # "ok" THEN "the printed form is refused"
            ELSE LET p == ParseConf(r.b) IN
                 IF ~p.ok THEN "the printed form is not a configuration"
                 ELSE Yes(p.l = <<<<>>>> \o x.ents, "the printed form means other entries")
      [] x.op = "cparse" ->
            LET p == ParseConf(x.in) IN
            IF p.ok # (r.k = "ok") THEN (IF p.ok THEN "refused, should be accepted" ELSE "accepted, should be refused")
            ELSE IF ~p.ok THEN ""
            ELSE Yes(r.b = PrintConf(p.l), "wrong entries")
      [] OTHER -> "unknown record"
=============================================================================
