CONSTANTS
 Which = "pair"
 Variant = "ok"
 Losses = 1
 Dups = 0
 C <- C_
 Prog <- Prog_
 Junk <- Junk_
SPECIFICATION Spec
INVARIANTS B01 B02 B03 NoStuck Agree
PROPERTY Monotone
CHECK_DEADLOCK FALSE
