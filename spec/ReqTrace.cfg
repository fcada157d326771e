SPECIFICATION Spec
CONSTANT DigOf <- TraceDig
CHECK_DEADLOCK FALSE
