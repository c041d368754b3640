CONSTANT Schema <- SchemaFile
SPECIFICATION Spec
INVARIANTS RoundTrip Total NoOverread Canonical
CHECK_DEADLOCK FALSE
