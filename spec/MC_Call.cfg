SPECIFICATION Spec
INVARIANTS RoundTrip Exceptions KorW ThreeLetter Linked NoSign OnlyOnes
CHECK_DEADLOCK FALSE
