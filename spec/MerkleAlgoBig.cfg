SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "c"}
  MaxVer = 6
  Width = 3
INVARIANTS RootCanonical AlwaysCanonical LookupCanonical
CHECK_DEADLOCK FALSE
