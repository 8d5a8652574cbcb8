INIT Init
NEXT Next
CONSTANT Why <- WhyPacket
CHECK_DEADLOCK FALSE
