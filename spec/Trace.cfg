CONSTANT Run <- RunFile
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
