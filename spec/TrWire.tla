--------------------------------- MODULE TrWire ---------------------------------
(***************************************************************************)
(* Recorded writes and reads of values (C25).                               *)
(***************************************************************************)
EXTENDS TraceBase, Wire

Verdict(r) ==
    LET k == r.in.kind
        v == r.in.val
        o == r.out
        d == { i \in DOMAIN o.rt : o.rt[i].ok = 0 }
        w == { i \in DOMAIN o.rt : o.rt[i].ok = 1 /\ (o.rt[i].val # v \/ o.rt[i].same = 0) }
    IN  [ bad |-> If(o.wrote = 0, "cannot be written")
                  \cup If(o.wrote = 1 /\ ~WellFormed(o.tok), "declares another number of parts than it writes")
                  \cup If(o.wrote = 1 /\ WellFormed(o.tok) /\ o.tok # Enc(k, v), "layout")
                  \cup { o.rt[i].f \o ": cannot be read back" : i \in d }
                  \cup { o.rt[i].f \o ": reads back as another value" : i \in w },
          tags |-> {k} ]
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
