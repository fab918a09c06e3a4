SPECIFICATION TSpec
CONSTRAINT Consumed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
VIEW Place
