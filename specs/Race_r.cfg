SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Lengths = {2}
  Kept = {FALSE}
  MaxOps = 2
  Ops = {"pop", "push", "reverse"}
  NodeDrop = TRUE
  Emit = TRUE
INVARIANTS Fine Shows KeptShows Released Bounded
CHECK_DEADLOCK FALSE
