SPECIFICATION Spec
CONSTANTS N = 3
 K = 5
 Me = 1
 Peer <- Peers
 Conn <- Conns
INVARIANTS Attributed Apart Refused
PROPERTIES Stays Complete
CHECK_DEADLOCK FALSE
