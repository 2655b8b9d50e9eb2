SPECIFICATION USpec
VIEW UView
CHECK_DEADLOCK FALSE
