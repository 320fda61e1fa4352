SPECIFICATION Spec
INVARIANT Inv
PROPERTY Sticky
PROPERTY NoCodeAfterError
CHECK_DEADLOCK FALSE
