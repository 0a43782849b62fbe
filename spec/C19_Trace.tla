----------------------------- MODULE C19_Trace -----------------------------
(* C19: sequences of classes; judged by the operators of C18_Trace.         *)
EXTENDS C18_Trace
============================================================================
