-------------------------------- MODULE Conf ---------------------------------
(* Configuration lists: a sequence of entries, oldest first.                  *)
EXTENDS Eval
Newest(ents) == Now([i \in DOMAIN ents |-> ents[Len(ents) + 1 - i]])
(* does the entry start with these components? *)
Matches(e, keys) == LET cs == Components(e) IN Len(cs) >= Len(keys) /\ SubSeq(cs, 1, Len(keys)) = keys
(* a key may not be reached through a slash *)
Slashed(e, n) == \E i \in 1..MinOf(n, Len(e)) : e[i].c = SLASH
Hits(ents, keys) == SelectSeq(Newest(ents), LAMBDA e : Matches(e, keys))
Hit(e, keys) == [k |-> IF Slashed(e, Len(keys)) THEN "err" ELSE "ok", l |-> e]
(* what follows the key: nothing, one value, or something else *)
Value(e, keys) ==
    LET implied == IF e # <<>> /\ e[1].c # 0 THEN 1 ELSE 0
        rest == From(e, Len(keys) - implied + 1)
    IN IF Slashed(e, Len(keys)) THEN [k |-> "err", b |-> <<>>, l |-> <<>>]
       ELSE IF rest = <<>> THEN [k |-> "ok", b |-> <<>>, l |-> <<>>]
       ELSE IF Len(rest) = 1 /\ rest[1].c = COLON THEN [k |-> "ok", b |-> rest[1].b, l |-> <<1>>]
       ELSE [k |-> "err", b |-> <<>>, l |-> <<>>]
-----------------------------------------------------------------------------
(* the text form: one line per entry, the newest first; an optional first line names the format *)
Mark == <<COLON, 37>>
Header == Mark \o B("abctxt") \o <<NL>>
Line(e) == PrintList(e) \o <<NL>>
PrintConf(ents) ==
    LET t == Flat([i \in DOMAIN ents |-> Line(Newest(ents)[i])])
    IN IF IsPrefix_(Mark, t) THEN Header \o t ELSE t
Entry(s) ==
    LET p == Parse(s) IN
    IF ~p.ok \/ \E i \in DOMAIN p.l : p.l[i].t = "l" THEN [ok |-> FALSE, l |-> <<>>]
    ELSE [ok |-> TRUE, l |-> FoldLeft(LAMBDA a, n : IF n.t = "c" THEN PushCtr(a, n.b[1]) ELSE PushBytes(a, n.b), <<>>, p.l)]
ParseConf(s) ==
    LET marked == IsPrefix_(Mark, s)
        t == IF IsPrefix_(Header, s) THEN From(s, Len(Header) + 1) ELSE s
        ls == SplitAt(t, LAMBDA c : c = NL)
        es == Now([i \in DOMAIN ls |-> Entry(ls[i])])
    IN IF (marked /\ ~IsPrefix_(Header, s)) \/ \E i \in DOMAIN es : ~es[i].ok THEN [ok |-> FALSE, l |-> <<>>]
       ELSE [ok |-> TRUE, l |-> Now([i \in DOMAIN es |-> es[Len(es) + 1 - i].l])]
=============================================================================
