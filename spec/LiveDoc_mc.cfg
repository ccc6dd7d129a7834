CONSTANTS Chars = {0, 2, 5}  MaxIns = 2  MaxLen = 4  Depth = 3  MaxJoin = 2  Emitting = FALSE
CONSTANT Pick <- PickAll
SPECIFICATION Spec
INVARIANTS SameText SavedLineIsUnchanged SavedOrder SavedNotAhead
CHECK_DEADLOCK FALSE
