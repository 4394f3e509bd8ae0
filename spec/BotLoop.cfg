SPECIFICATION LSpec
CONSTANTS Chans = {1, 2}
          MaxEv = 2
INVARIANT NoStray
PROPERTIES Refines AllAnswered
CHECK_DEADLOCK FALSE
