SPECIFICATION Spec
CONSTANTS Senders = {"p1", "p2"}
 Listeners = {"l1", "l2"}
 NSend = 1
 Bugs = {}
INVARIANTS NothingAfterClose Once SenderOrder Reaches
PROPERTIES SendsEnd Closes
CHECK_DEADLOCK FALSE
