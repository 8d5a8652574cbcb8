CONSTANTS
 Threads = 3
 Ids = {1, 2, 3}
 Calls = 2
 Crashes = 1
 Variant = "unlocked"
SPECIFICATION Spec
INVARIANTS B04
CHECK_DEADLOCK FALSE
