SPECIFICATION Spec
CONSTANTS Senders = {"p1", "p2"}
 Listeners = {"l1"}
 NSend = 2
 Bugs = {}
INVARIANTS NothingAfterClose Once SenderOrder Reaches
PROPERTIES SendsEnd Closes
CHECK_DEADLOCK FALSE
