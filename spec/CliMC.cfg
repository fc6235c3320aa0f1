SPECIFICATION Spec
CONSTANTS
 NF = 2
 NA = 2
INVARIANTS OneResultEach InOrder OnlyItsOutcome FailuresAreInfinite StopsAtInterrupt MadeOK BestIsMin Names
PROPERTY Terminates
