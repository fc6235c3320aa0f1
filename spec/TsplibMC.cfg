SPECIFICATION Spec
CONSTANT MaxM = 7
INVARIANTS CursorOK EndOK Complete
