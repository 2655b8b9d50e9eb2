SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Json JsonClosed Xml Plain Csv Necessary AlwaysQuoted BinaryIs
CHECK_DEADLOCK FALSE
