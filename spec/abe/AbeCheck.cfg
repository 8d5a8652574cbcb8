INIT Init
NEXT Next
CONSTANT Why <- WhyAbe
CHECK_DEADLOCK FALSE
