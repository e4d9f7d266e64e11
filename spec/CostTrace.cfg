SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Strict = 1000
          Deposit = 800
          Ceiling = 30
          Linear = 600
