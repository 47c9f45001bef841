SPECIFICATION Spec
CONSTANTS
  MaxObj = 40
  MaxLen = 48
  InPlace = FALSE
  Warm = 12
  Dump = TRUE
  Classes = {"point", "local", "path", "pvector", "convert", "delta", "change", "back", "displace", "interp",
             "intersect", "closest", "mean", "arith", "unit", "set", "reask", "dist", "pathpoint", "path1", "local1", "polar", "latlon", "geodesic", "eq", "repr", "func", "again", "spoil"}
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
