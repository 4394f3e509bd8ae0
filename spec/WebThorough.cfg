SPECIFICATION WSpec
CONSTANTS Reqs = {1, 2, 3}
          Methods = {"GET", "POST", "PUT"}
          Bodies = {1, 2, 3, 4}
INVARIANTS Independent Alive NoEarly
PROPERTY Answered
CHECK_DEADLOCK FALSE
