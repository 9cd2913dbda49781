SPECIFICATION Spec
CONSTANT Dummy = 0
CHECK_DEADLOCK FALSE
