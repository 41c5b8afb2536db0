-------------------------- MODULE MC_PipelineImpl --------------------------
EXTENDS PipelineImpl
=============================================================================
