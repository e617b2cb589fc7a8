CONSTANTS
  Threads = {t1, t2}
  Ops = 2
  WriterLock = "W"
  Early = FALSE
  Bare = {"near"}
  NearOrder <- BaseFirst
SPECIFICATION Spec
INVARIANTS Sound Kept Alone NeverStuck
CHECK_DEADLOCK FALSE
