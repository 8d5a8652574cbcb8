INIT Init
NEXT Next
CONSTANT Why <- WhyConf
CHECK_DEADLOCK FALSE
