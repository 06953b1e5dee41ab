SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Lengths = {1, 2, 3}
  Kept = {TRUE, FALSE}
  MaxOps = 1
  Ops = {"pop", "push", "clone", "reverse"}
  NodeDrop = TRUE
  Emit = TRUE
INVARIANTS Fine Shows KeptShows Released Bounded
CHECK_DEADLOCK FALSE
