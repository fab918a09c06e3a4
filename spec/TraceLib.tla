------------------------------ MODULE TraceLib ------------------------------
(* Scaffolding shared by all trace specifications: the recorded trace, and  *)
(* the reporting of events that the specification does not allow.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

\* one record per line of the recorded trace
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* Always TRUE; names the offending line.  The specification then goes on
\* with the value it allows, so that the rest of the trace is checked too.
Report(l, ok, want) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, ToString(want)>>)

\* the whole trace was consumed
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
