SPECIFICATION Spec
CONSTANTS NKeys = 5
 NPut = 5
 Emit = FALSE
INVARIANTS TypeOK Once Finds RoomLeft Stopped
CHECK_DEADLOCK FALSE
