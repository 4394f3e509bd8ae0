SPECIFICATION MSpec
CONSTANTS NWords = 3
          MaxReq = 4
          Resets = {"act", "node", "fail"}
INVARIANT FreshAnswers
CHECK_DEADLOCK FALSE
