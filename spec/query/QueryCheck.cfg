INIT Init
NEXT Next
CONSTANT Why <- WhyRecord
CHECK_DEADLOCK FALSE
