INIT Init
NEXT Next
INVARIANTS Bounded Closed MetricOK
CHECK_DEADLOCK FALSE
