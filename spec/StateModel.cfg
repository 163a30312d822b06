INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
INVARIANT FarthestKept
INVARIANT ItemsKept
INVARIANT DataOnlyOnSuccess
INVARIANT InText
INVARIANT Classified
INVARIANT Export
PROPERTY ReportMoves
CHECK_DEADLOCK FALSE
