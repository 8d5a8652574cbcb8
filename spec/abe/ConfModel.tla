------------------------------ MODULE ConfModel ------------------------------
(* Configurations grown entry by entry, printed and read again at any moment.  *)
EXTENDS Conf
CONSTANTS Entries
Texts == {B(""), B("a"), B(":"), B("a:b"), B("a:"), B("a/b"), B(":a"), B("a:b:a"), B("/a"), <<58, 37>>, <<58, 37, 58>> \o B("a"), B("b:a")}
Keys == {<<B("a")>>, <<B("a"), B("b")>>, <<B(""), B("a")>>, <<B("")>>, <<<<37>>>>, <<B("b")>>}
VARIABLES ents, printed
vars == <<ents, printed>>
Init == ents = <<>> /\ printed = PrintConf(<<>>)
Push(t) == /\ Len(ents) < Entries
           /\ ents' = Append(ents, Entry(t).l)
           /\ printed' = PrintConf(ents')
Reload == /\ ents # <<>> /\ ents[1] # <<>>
          /\ ents' = ParseConf(printed).l /\ printed' = PrintConf(ents')
Next == (\E t \in Texts : Push(t)) \/ Reload
Spec == Init /\ [][Next]_vars
Look(es, k) == LET h == Hits(es, k) IN IF h = <<>> THEN [k |-> "no"] ELSE Value(h[1], k)
(* A07 *)
PrintedMeansTheSame == LET p == ParseConf(printed) IN p.ok /\ p.l = <<<<>>>> \o ents
ReloadKeepsLookups == [][ents' = <<<<>>>> \o ents => \A k \in Keys : Look(ents', k) = Look(ents, k)]_vars
NewestWins == [][\A t \in Texts : (Len(ents') = Len(ents) + 1 /\ ents' = Append(ents, Entry(t).l)) =>
                  \A k \in Keys : IF Matches(Entry(t).l, k) THEN Look(ents', k) = Value(Entry(t).l, k) ELSE Look(ents', k) = Look(ents, k)]_vars
ValueIsTold == \A k \in Keys : LET v == Look(ents, k) IN v.k \in {"no", "ok", "err"} /\ (v.k = "ok" /\ v.l = <<>> => v.b = <<>>)
-----------------------------------------------------------------------------
(* wrong on purpose *)
PrintNoHeader(es) == Flat([i \in DOMAIN es |-> Line(Newest(es)[i])])
HitsOldest(es, keys) == SelectSeq(es, LAMBDA e : Matches(e, keys))
PrintOldest(es) == Flat([i \in DOMAIN es |-> Line(es[i])])
=============================================================================
