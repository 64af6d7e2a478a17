----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation.  Trace is the JSON record of an execution of the real *)
(* code; Judge(st, e) compares event e with what the specification allows  *)
(* in state st, and is total: it returns the next specification state and  *)
(* the set of names of the clauses that the event breaks.  One step of     *)
(* this state machine consumes one event.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Judge(_, _), Start

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, bad

Init == l = 1 /\ st = Start /\ bad = <<>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET j == Judge(st, Trace[l])
           IN  /\ st' = j.st
               /\ bad' = IF j.bad = {} THEN bad
                         ELSE Append(bad, << l, j.bad >>)
        /\ l = Len(Trace) => JsonSerialize(IOEnv.OUT, bad')

(* Every event was consumed                                                *)
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
