SPECIFICATION Spec
CONSTANTS Streams = {1, 2, 4, 5, 8}
 Most = 4
INVARIANTS OnlyBytesMatter Complete
CHECK_DEADLOCK FALSE
