SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Lengths = {7}
  Kept = {FALSE}
  MaxOps = 0
  Ops = {}
  NodeDrop = FALSE
  Emit = FALSE
INVARIANTS Fine Shows KeptShows Released Bounded
CHECK_DEADLOCK FALSE
