-------------------------------- MODULE TrTotal --------------------------------
(***************************************************************************)
(* Every operation returns, with finite results, on every finite polyline    *)
(* (C23), and what an operation has to say about a polyline too short to     *)
(* have segments is fixed.                                                   *)
(***************************************************************************)
EXTENDS TraceBase, SequencesExt

(* how many things each query gives for a polyline (-1: not said here)       *)
Segments(p) == LET n == Len(p.v) IN IF n < 2 THEN 0 ELSE IF p.c = 1 THEN n ELSE n - 1
Want(o, p) ==
    CASE o \in { "segments", "segment count", "index", "approx index" } -> Segments(p)
      [] o = "vertexes" -> Len(p.v)
      [] o \in { "last", "closest point" } -> Min2(Len(p.v), 1)
      [] o = "extents" -> Min2(Segments(p), 1)
      [] o \in { "invert", "copy without repeats" } -> 1
      (* with fewer than two vertexes there is nothing to cross or to wind   *)
      [] o \in { "winding number", "self intersects", "local self intersects", "global self intersects" } /\ Len(p.v) < 2 -> 0
      [] o = "orientation" /\ p.c = 0 -> 0
      [] OTHER -> -1
Counts(r) ==
    IF r.in.op # "totq" THEN {}
    ELSE LET o == r.out.r IN
         { o[i].o \o ": wrong number of results for " \o ToString(Len(r.in.p.v)) \o " vertexes" :
             i \in { j \in DOMAIN o : o[j].p = "" /\ Want(o[j].o, r.in.p) \notin {-1, o[j].n} } }

Verdict(r) ==
    LET o == r.out.r
        fails == { i \in DOMAIN o : o[i].p # "" }
        inf == { i \in DOMAIN o : o[i].fin = 0 }
    IN  [ bad |-> { o[i].o \o ": " \o o[i].p : i \in fails } \cup { o[i].o \o ": not finite" : i \in inf } \cup Counts(r),
          tags |-> { o[i].o : i \in DOMAIN o } ]
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
