SPECIFICATION Spec
VIEW View
INVARIANTS
  C01_EveryWordOnce
  C01_SpellingIrrelevant
  C02_FlagsSelect
  C02_OrderIrrelevant
  C03_Shared
  C03_History
  C04_Distributed
  C05_AfterStop
  C05_Stops
  C06_Outcome
  C06_Reason
  C06_NeverResumes
  C07_Tree
  C07_Siblings
  C08_Once
  C09_Unprocessed
  C09_FromWords
  C09_Filters
  C10_AllAtOnce
  C17_Exits
  C18_ReadsAlike
  C11_AnyOrder
  C13_Numbers
  C14_Splits
  C15_Lists
  C16_LaysOut
  C19_Named
PROPERTIES
  Progress
  NodesStay
  StaysDone
