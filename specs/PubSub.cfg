SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Pubs = {p1, p2}
 NPub = 1
 Batch = 2
 Plain = {a}
 Chans = {c}
INVARIANTS OnceInOrder Complete NotBefore MapHoldsOpen
PROPERTIES ClosesEnd PublishersEnd Delivered
