----------------------------- MODULE MemoryMC -----------------------------
EXTENDS Memory
=============================================================================
