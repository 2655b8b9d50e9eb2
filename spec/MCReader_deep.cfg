SPECIFICATION Spec
CONSTANTS Streams = {1, 2, 3, 4, 5, 6, 7, 8}
 Most = 5
INVARIANTS OnlyBytesMatter Complete
CHECK_DEADLOCK FALSE
