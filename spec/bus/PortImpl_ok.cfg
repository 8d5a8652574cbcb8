CONSTANTS
 Threads = 3
 Ids = {1, 2, 3}
 Calls = 2
 Crashes = 1
 Variant = "ok"
SPECIFICATION Spec
INVARIANTS B04 Kept
CHECK_DEADLOCK FALSE
