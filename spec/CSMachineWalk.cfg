SPECIFICATION SpecProgram
CHECK_DEADLOCK FALSE
INVARIANTS
  WellFormed
  DefaultSound
  ConfigValid
  ExportEnd
