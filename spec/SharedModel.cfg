CONSTANTS
  Threads = {t1, t2, t3, t4}
  Calls = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS S_Type S_OneFills S_Ready S_Pure
PROPERTIES S_Once S_Live
CHECK_DEADLOCK FALSE
