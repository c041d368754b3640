SPECIFICATION Spec
CONSTANT Schema <- SchemaFile
INVARIANTS InType EnumLaw MaskLaw
CHECK_DEADLOCK FALSE
