CONSTANTS Mods = {1, 2, 3} MaxSaves = 2 MaxCloses = 1 Remember = TRUE Restart = TRUE Scoped = TRUE Ordered = TRUE
CONSTANT Up <- UpA
SPECIFICATION Spec
PROPERTY Settles
CHECK_DEADLOCK FALSE
