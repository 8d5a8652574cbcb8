--------------------------------- MODULE Ast ---------------------------------
(* Expressions: a sequence of byte strings, separators and bracketed lists.   *)
EXTENDS AbTxt
BNode(b) == [t |-> "b", b |-> b, l |-> <<>>]
CNode(c) == [t |-> "c", b |-> <<c>>, l |-> <<>>]
LNode(l) == [t |-> "l", b |-> <<>>, l |-> l]
IsC(n, c) == n.t = "c" /\ n.b = <<c>>
Bad0 == [ok |-> FALSE, l |-> <<>>]
(* The parser is a push-down machine: `stack` holds the lists still open, innermost last, and   *)
(* `cur` the bytes of the plain part being read.  With `lax`, bytes that are mistakes are read   *)
(* as they are.                                                                                  *)
RECURSIVE PStep(_, _, _, _, _)
PStep(s, i, lax, stack, cur) ==
    LET t == Tok(s, i, {}, {NL})
        d == Len(stack)
        top == IF cur = <<>> THEN stack[d] ELSE Append(stack[d], BNode(cur))
    IN CASE t.k = "end" -> IF d > 1 THEN Bad0 ELSE [ok |-> TRUE, l |-> top]
         [] t.k = "byte" \/ (t.k = "bad" /\ lax) -> PStep(s, t.n, lax, stack, Append(cur, t.v))
         [] t.k \in {"bad", "badhex"} -> Bad0
         [] t.v = OPEN -> PStep(s, t.n, lax, Append([stack EXCEPT ![d] = top], <<>>), <<>>)
         [] t.v = CLOSE /\ d = 1 -> Bad0
         [] t.v = CLOSE -> PStep(s, t.n, lax, [SubSeq(stack, 1, d - 1) EXCEPT ![d - 1] = Append(@, LNode(top))], <<>>)
         [] OTHER -> PStep(s, t.n, lax, [stack EXCEPT ![d] = Append(top, CNode(t.v))], <<>>)
ParseX(s, lax) == PStep(s, 1, lax, <<<<>>>>, <<>>)
Parse(s) == ParseX(s, FALSE)
RECURSIVE Show(_)
Show(l) == Flat([i \in DOMAIN l |-> CASE l[i].t = "b" -> Enc(l[i].b) [] l[i].t = "c" -> l[i].b
                                       [] OTHER -> <<OPEN>> \o Show(l[i].l) \o <<CLOSE>>])
(* expressions that a text can denote: no empty and no adjacent plain parts *)
RECURSIVE Normal(_)
Normal(l) == /\ \A i \in DOMAIN l : CASE l[i].t = "b" -> l[i].b # <<>> [] l[i].t = "l" -> Normal(l[i].l) [] OTHER -> TRUE
             /\ \A i \in 1..(Len(l) - 1) : ~(l[i].t = "b" /\ l[i + 1].t = "b")
-----------------------------------------------------------------------------
(* Components of a text: <<separator before it (0 for the first), does it contain brackets or  *)
(* nested separators, text>>.  A separator that ends the text starts no component.              *)
RECURSIVE TScan(_, _, _, _, _, _, _, _, _)
TBegin(s, i, plain, err, head, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, l |-> acc] ELSE TScan(s, i, plain, err, head, i, 0, 0, acc)
TScan(s, i, plain, err, head, start, depth, inner, acc) ==
    LET t == Tok(s, i, plain, err)
        comp == [c |-> head, w |-> inner, s |-> SubSeq(s, start, i - 1)]
    IN CASE t.k = "end" -> IF depth # 0 THEN Bad0 ELSE [ok |-> TRUE, l |-> Append(acc, comp)]
         [] t.k = "byte" -> TScan(s, t.n, plain, err, head, start, depth, inner, acc)
         [] t.k \in {"bad", "badhex"} -> Bad0
         [] t.v = OPEN -> TScan(s, t.n, plain, err, head, start, depth + 1, 1, acc)
         [] t.v = CLOSE -> IF depth = 0 THEN Bad0 ELSE TScan(s, t.n, plain, err, head, start, depth - 1, 1, acc)
         [] depth > 0 -> TScan(s, t.n, plain, err, head, start, depth, 1, acc)
         [] OTHER -> TBegin(s, t.n, plain, err, t.v, Append(acc, comp))
Tokenize(s, plain, err) == TBegin(s, 1, plain, err, 0, <<>>)
-----------------------------------------------------------------------------
(* replace every non overlapping occurrence of pat, inner lists first *)
RECURSIVE ReplaceScan(_, _, _)
ReplaceScan(l, pat, new) ==
    IF Len(l) < Len(pat) THEN l
    ELSE IF SubSeq(l, 1, Len(pat)) = pat THEN new \o ReplaceScan(From(l, Len(pat) + 1), pat, new)
    ELSE <<l[1]>> \o ReplaceScan(Tail(l), pat, new)
RECURSIVE Replace(_, _, _)
Replace(l, pat, new) ==
    ReplaceScan(Now([i \in DOMAIN l |-> IF l[i].t = "l" THEN LNode(Replace(l[i].l, pat, new)) ELSE l[i]]), pat, new)
=============================================================================
