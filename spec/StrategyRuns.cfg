SPECIFICATION Spec
PROPERTIES Safe Implements
CHECK_DEADLOCK FALSE
