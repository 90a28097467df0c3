SPECIFICATION MCSpec
INVARIANTS
  Repeatable
  Kinds
PROPERTIES
  Isolation
  Observing
  MovedFrom
  Gone
  Copies
  CopiesAll
  SameEnd
