---------------------------- MODULE ResourcesMC ----------------------------
EXTENDS Resources
=============================================================================
