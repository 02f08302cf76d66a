SPECIFICATION Spec
CONSTANTS
  BufSize = 1
  BlkSize = 2
  NEnc = 2
  QSize = 2
  Faulty = FALSE
  Shape = "singles"
INVARIANTS BufferBounded NothingHeldInVain DiskSorted DiskBlocks DiskPrefix NothingInvented OkComplete ErrExactly ErrIfBroken
PROPERTY Terminates
CHECK_DEADLOCK FALSE
