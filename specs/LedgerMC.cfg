SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxTxs = 1
 MaxBlks = 3
 MaxSteps = 3
 MaxBad = 0
 Defects = {}
 WithRestart = FALSE
 Emit = FALSE
 Fill = FALSE
INVARIANTS Conservation NoDoubleSpend Signed StateIsFold PendingPartition InventoryClosed HeadValid KnownPending
PROPERTIES OnlyHeavier AdoptsExactly RefusalIsQuiet PendingKept Inventory
