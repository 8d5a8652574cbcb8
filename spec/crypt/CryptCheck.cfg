INIT Init
NEXT Next
CONSTANT Why <- WhyCrypt
CHECK_DEADLOCK FALSE
