SPECIFICATION Spec
CONSTANTS
  MaxObj = 4
  MaxLen = 5
  InPlace = TRUE
  Warm = 0
  Dump = FALSE
  Classes = {"point", "local", "path", "convert", "delta", "unit", "set", "reask", "arith", "number", "again", "spoil"}
INVARIANTS TypeOK
PROPERTY Frame
CHECK_DEADLOCK FALSE
