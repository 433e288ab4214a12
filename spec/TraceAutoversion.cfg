SPECIFICATION TSpec
CONSTANTS Ranges = {}
          MaxRelease = 0
INVARIANT Allowed
CHECK_DEADLOCK FALSE
