-------------------------- MODULE MC_OffloadImpl --------------------------
EXTENDS OffloadImpl
=============================================================================
