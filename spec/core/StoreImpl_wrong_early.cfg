INIT Init
NEXT Next
CONSTANTS Writers = 2 Hs = 2 MaxBatch = 2 Saves = 2 Times = {1, 2} Faults = 1 Looks = 2 Variant = "early"
INVARIANT Good
CHECK_DEADLOCK FALSE
