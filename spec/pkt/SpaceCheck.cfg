INIT Init
NEXT Next
CONSTANT Why <- WhySpace
CHECK_DEADLOCK FALSE
