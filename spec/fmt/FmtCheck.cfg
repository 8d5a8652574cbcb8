INIT Init
NEXT Next
CONSTANT Why <- WhyFmt
CHECK_DEADLOCK FALSE
