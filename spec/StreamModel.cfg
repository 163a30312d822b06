INIT Init
NEXT Next
VIEW View
INVARIANT Faithful
INVARIANT InText
INVARIANT EndIsEnd
INVARIANT Ordered
INVARIANT Export
PROPERTY Independent
PROPERTY Forward
CHECK_DEADLOCK FALSE
