------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Reads a recording of the real code (one JSON object per line) and steps  *)
(* through it.  Verdict(r) gives, for one recorded call, the set of names   *)
(* of specification obligations the record breaks ("bad") and what the      *)
(* record exercised ("tags").  The recording is accepted when bad is empty  *)
(* in every step.  Lines are dealt to Chunks independent chains so that TLC *)
(* can check them in parallel.                                              *)
(***************************************************************************)
EXTENDS Geom, Json, IOUtils

CONSTANT Chunks
Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)

(* OVERRIDDEN: v, except that where evaluating it fails (a recorded result so *)
(* far off that its distances leave the integer range) the record is bad    *)
Guard(v) == v

VARIABLES l, bad

TraceInit == l \in 1..Min2(Chunks, NT) /\ bad = {}
TraceNext(Verdict(_)) ==
    /\ l <= NT
    /\ LET r == Trace[l]
           v == TLCEval(IF r.ok = 1 THEN Guard(Verdict(r)) ELSE [bad |-> {r.why}, tags |-> {}])
       IN  /\ bad' = v.bad
           /\ PrintT("REC " \o ToJson([n |-> r.n, bad |-> v.bad, tags |-> v.tags]))
    /\ l' = l + Chunks
(* every line was consumed                                                  *)
TraceDone == TLCGet("distinct") = NT + Min2(Chunks, NT)

=============================================================================
