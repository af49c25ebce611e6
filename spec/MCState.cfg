SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Heights = {1, 2, 3}
  Storms = 3
  Bug = ""
PROPERTIES MonitorsHold NeverDown
CHECK_DEADLOCK FALSE
