SPECIFICATION Spec
CONSTANT Schema <- SchemaFile
INVARIANTS Bits01 Lossless
CHECK_DEADLOCK FALSE
