SPECIFICATION MSpec
CONSTANTS NWords = 2
          MaxReq = 4
          Resets = {"act", "node", "fail"}
INVARIANT FreshAnswers
CHECK_DEADLOCK FALSE
