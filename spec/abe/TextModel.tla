------------------------------ MODULE TextModel ------------------------------
(* Every text over an alphabet, typed one character at a time, next to a       *)
(* reader that sees the characters one by one and only keeps a nesting depth.  *)
EXTENDS Eval
CONSTANTS Size, Letters
VARIABLES txt, rd
vars == <<txt, rd>>
(* reader: depth, pending escape ("no", "esc", "hex1", "hex2"), broken? *)
Start == [depth |-> 0, esc |-> "no", bad |-> FALSE]
IsHex(c) == c \in 48..57 \cup 65..70 \cup 97..102
Read(q, c) ==
    CASE q.bad -> q
      [] q.esc = "esc" -> IF c = 120 THEN [q EXCEPT !.esc = "hex1"]
                          ELSE IF c \in {48, 102, 110, 116, 114, 92, 47, 58, 91, 93} THEN [q EXCEPT !.esc = "no"]
                          ELSE [q EXCEPT !.bad = TRUE]
      [] q.esc = "hex1" -> IF IsHex(c) THEN [q EXCEPT !.esc = "hex2"] ELSE [q EXCEPT !.bad = TRUE]
      [] q.esc = "hex2" -> IF IsHex(c) THEN [q EXCEPT !.esc = "no"] ELSE [q EXCEPT !.bad = TRUE]
      [] c = 92 -> [q EXCEPT !.esc = "esc"]
      [] c = 91 -> [q EXCEPT !.depth = @ + 1]
      [] c = 93 -> IF q.depth = 0 THEN [q EXCEPT !.bad = TRUE] ELSE [q EXCEPT !.depth = @ - 1]
      [] c \in 32..126 -> q
      [] OTHER -> [q EXCEPT !.bad = TRUE]
Init == txt = <<>> /\ rd = Start
Next == /\ Len(txt) < Size
        /\ \E c \in Letters : txt' = Append(txt, c) /\ rd' = Read(rd, c)
Spec == Init /\ [][Next]_vars
P == Parse(txt)
Fine == ~rd.bad /\ rd.depth = 0 /\ rd.esc = "no"
(* A03 *)
ReadsExactlyTheBalanced == P.ok = Fine
PrintThenRead == P.ok => Normal(P.l) /\ Parse(Show(P.l)) = P
LaxAddsOnly == P.ok => ParseX(txt, TRUE) = P
(* A01 *)
EscapeThenRead == Decode(Enc(txt), Len(txt)) = [ok |-> TRUE, v |-> txt] /\ \A n \in 0..(Len(txt) - 1) : ~Decode(Enc(txt), n).ok
EscapedIsPlain == LET e == Parse(Enc(txt)) IN e.ok /\ e.l = (IF txt = <<>> THEN <<>> ELSE <<BNode(txt)>>)
DecodesItsOwn == LET d == Decode(txt, 100) IN d.ok => Decode(Enc(d.v), 100) = d
DecodeIsOnePart == Decode(txt, 100).ok = (P.ok /\ (P.l = <<>> \/ (Len(P.l) = 1 /\ P.l[1].t = "b")))
(* A02 *)
T == Tokenize(txt, {}, {NL})
Joined == Flat([i \in DOMAIN T.l |-> CtrB(T.l[i].c) \o T.l[i].s])
ComponentsCover == T.ok = P.ok /\ (T.ok => \/ Joined = txt
                                           \/ txt # <<>> /\ txt[Len(txt)] \in {COLON, SLASH} /\ Joined = SubSeq(txt, 1, Len(txt) - 1))
ComponentsAreFlat == T.ok => \A i \in DOMAIN T.l :
    LET q == Parse(T.l[i].s) IN q.ok /\ (\A j \in DOMAIN q.l : q.l[j].t # "c") /\ (T.l[i].w = 1) = (\E j \in DOMAIN q.l : q.l[j].t = "l")
(* A04: a value printed and read again is the value *)
V == EvalTxt(Basic, txt)
ValuesPrint == V.k = "ok" => LET w == EvalTxt(Basic, PrintList(V.l)) IN
    /\ w.k = "ok" /\ PrintList(w.l) = PrintList(V.l) /\ Concat(w.l) = Concat(V.l)
    /\ (Components(w.l) = Components(V.l) \/ Concat(V.l) = <<>>)
-----------------------------------------------------------------------------
(* wrong on purpose: each of these has to be told apart by an invariant above *)
EncUnescapedClose(b) == IF b = CLOSE THEN <<b>> ELSE IF b \in {SLASH, COLON, OPEN, ESC} THEN <<ESC, b>> ELSE IF b \in 32..126 THEN <<b>>
                        ELSE <<ESC, 120, HexDigits[1 + b \div 16], HexDigits[1 + (b % 16)]>>
ShowRaw(l) == Flat([i \in DOMAIN l |-> IF l[i].t = "l" THEN <<OPEN>> \o Show(l[i].l) \o <<CLOSE>> ELSE l[i].b])
TokLoose(s, i, plain, err) == IF i > Len(s) THEN Tk("end", 0, i) ELSE IF s[i] \in Ctrs \ {NL} THEN Tk("ctr", s[i], i + 1) ELSE Tk("byte", s[i], i + 1)
=============================================================================
