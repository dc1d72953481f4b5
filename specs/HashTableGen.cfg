SPECIFICATION Spec
CONSTANTS NKeys = 4
 NPut = 3
 Emit = TRUE
INVARIANTS TypeOK Once Finds RoomLeft Stopped
CHECK_DEADLOCK FALSE
