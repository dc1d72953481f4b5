SPECIFICATION Spec
CONSTANTS NKeys = 5
 NPut = 4
 Emit = TRUE
INVARIANTS TypeOK Once Finds RoomLeft Stopped
CHECK_DEADLOCK FALSE
