----------------------------- MODULE TraceBase -----------------------------
(* Recorded executions of the Go code.  The file named by the environment   *)
(* variable TRACE has one JSON record per line; see harness/.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* report a disagreement between the specification and the recorded
\* execution; the runner (../check) collects these lines
Report(rec) == PrintT("@BAD@" \o ToJson(rec))

\* a fact worth counting in the evidence
Note(rec) == PrintT("@NOTE@" \o ToJson(rec))
=============================================================================
