SPECIFICATION LSpec
CONSTANTS Chans = {1}
          MaxEv = 4
INVARIANT NoStray
PROPERTIES Refines AllAnswered
CHECK_DEADLOCK FALSE
