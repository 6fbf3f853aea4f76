------------------------------ MODULE TraceLog ------------------------------
(* Trace validation: the log of calls made to the real code, one event per line.
   Every trace specification extends this module; `l` is the next event to be explained. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Ev == Log[l]
Is(name) == /\ l <= Len(Log)
            /\ Log[l].op = name
            /\ l' = l + 1

(* Every line was consumed by an action and the driver reached its end *)
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Log)
                 /\ Log[Len(Log)].op = "end"
=============================================================================
