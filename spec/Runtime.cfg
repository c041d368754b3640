SPECIFICATION Spec
CONSTANT Schema <- OneStruct
INVARIANTS RoundTrip NeverLarger Forms
    Closed NoOverread
CHECK_DEADLOCK FALSE
