------------------------------- MODULE TraceFile -------------------------------
(* The recorded behaviours to judge, read once.                                    *)
EXTENDS Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
================================================================================
