SPECIFICATION SpecBuild
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  WellFormed
  ActivityUnique
  ValidityAgrees
  SamplingSound
  AssignmentSound
  OrderIrrelevant
  AdditionAtomic
  DefaultSound
  ExchangesSound
  NeighboursSound
  GridSound
  DeactivationSound
  ImputationSound
  NestingSound
  NoPriorsSound
  SizeSound
  TermsLocal
  EqualityExact
