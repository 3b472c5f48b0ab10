SPECIFICATION SpecBuild
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Export
