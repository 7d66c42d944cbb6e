SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3}
          MaxQ = 4
          DEFER = TRUE
INVARIANTS HostSafe NoDangling
CHECK_DEADLOCK FALSE
