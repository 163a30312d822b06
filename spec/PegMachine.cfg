SPECIFICATION Spec
INVARIANTS PositionsOk ReportOk MarksOrdered RecognizerIsSilent NoDataOnFailure PredicatesAreSilent LoopsProgress Bounded EndsRight Stuck
PROPERTY Monotonic Terminates
CHECK_DEADLOCK FALSE
