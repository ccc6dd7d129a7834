CONSTANTS Chars = {0, 1, 2, 3, 4, 5}  MaxIns = 3  MaxLen = 12  Depth = 8  MaxJoin = 3  Emitting = TRUE
CONSTANT Pick <- PickOne
SPECIFICATION GenSpec
INVARIANTS SameText SavedLineIsUnchanged SavedOrder SavedNotAhead
CHECK_DEADLOCK FALSE
