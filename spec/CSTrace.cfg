SPECIFICATION Spec
INVARIANT DefaultsValid ConfigsValid
CHECK_DEADLOCK FALSE
