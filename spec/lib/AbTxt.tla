-------------------------------- MODULE AbTxt --------------------------------
(* The text form of byte strings and its tokens.                              *)
EXTENDS Bytes
SLASH == 47
COLON == 58
OPEN == 91
CLOSE == 93
NL == 10
ESC == 92
Ctrs == {SLASH, COLON, OPEN, CLOSE, NL}
HexDigits == B("0123456789abcdef")
Enc1(b) == CASE b = 0 -> <<ESC, 48>> [] b = 255 -> <<ESC, 102>> [] b = 10 -> <<ESC, 110>> [] b = 9 -> <<ESC, 116>>
             [] b = 13 -> <<ESC, 114>> [] b \in {SLASH, COLON, OPEN, CLOSE, ESC} -> <<ESC, b>>
             [] b \in 32..126 -> <<b>>
             [] OTHER -> <<ESC, 120, HexDigits[1 + b \div 16], HexDigits[1 + (b % 16)]>>
EncTab == [b \in Byte |-> Enc1(b)] @@ [b \in {256} |-> <<>>]
Enc(bs) == Flat([i \in DOMAIN bs |-> EncTab[bs[i]]])
(* what follows a backslash; x is treated apart *)
EscTab == [c \in Byte |-> CASE c = 48 -> 0 [] c = 102 -> 255 [] c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13
                            [] c \in {SLASH, COLON, OPEN, CLOSE, ESC} -> c [] OTHER -> -1] @@ [c \in {256} |-> -1]
Tk(k, v, n) == [k |-> k, v |-> v, n |-> n]
(* The token at position i: a byte, a control character, the end, or a mistake.  Controls in    *)
(* `plain` are ordinary bytes and those in `err` are mistakes.                                   *)
Tok(s, i, plain, err) ==
    IF i > Len(s) THEN Tk("end", 0, i)
    ELSE LET c == s[i] IN
      CASE c = ESC ->
            IF i = Len(s) THEN Tk("bad", ESC, i + 1)
            ELSE IF s[i + 1] = 120 THEN
                 IF i + 3 > Len(s) \/ DigitVal(s[i + 2]) > 15 \/ DigitVal(s[i + 3]) > 15 THEN Tk("badhex", 0, i)
                 ELSE Tk("byte", 16 * DigitVal(s[i + 2]) + DigitVal(s[i + 3]), i + 4)
            ELSE IF EscTab[s[i + 1]] >= 0 THEN Tk("byte", EscTab[s[i + 1]], i + 2)
            ELSE Tk("bad", ESC, i + 1)
        [] c \in Ctrs -> IF c \in err THEN Tk("bad", c, i + 1) ELSE IF c \in plain THEN Tk("byte", c, i + 1) ELSE Tk("ctr", c, i + 1)
        [] c \in 32..126 -> Tk("byte", c, i + 1)
        [] OTHER -> Tk("bad", c, i + 1)
RECURSIVE DecFrom(_, _, _, _)
DecFrom(s, i, max, acc) ==
    LET t == Tok(s, i, {}, {NL}) IN
    CASE t.k = "end" -> [ok |-> TRUE, v |-> acc]
      [] t.k = "byte" /\ Len(acc) < max -> DecFrom(s, t.n, max, Append(acc, t.v))
      [] OTHER -> [ok |-> FALSE, v |-> <<>>]
Decode(s, max) == DecFrom(s, 1, max, <<>>)
=============================================================================
