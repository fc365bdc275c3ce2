------------------------------- MODULE TrOff --------------------------------
(* Recorded parallel offsets (C04 - C07) against the relation of Off.       *)
EXTENDS TraceBase, Off

CONSTANT Prop

Verdict(r) ==
    IF Prop = "C06" THEN Vary(r)
    ELSE LET ss == Segs(r.in.p)
             loops == SegsOf(r.out.r)
             rs == AllSegs(loops)
             ori == Sgn(Area2(ss))
         IN  [ bad |-> CASE Prop = "C04" -> DistBad(ss, rs, r.in.d) 
                         [] Prop = "C05" -> RegionBad(ss, loops, rs, ori, r.in.d)
                         [] Prop = "C07" -> DistBad(ss, rs, r.in.d) \cup CompleteBad(r.in.p, ss, rs, r.in.d)
                                            \cup DirBad(ss, rs, r.in.d)
                                            \cup If(\E i \in DOMAIN r.out.r : Len(r.out.r[i].v) < 2, "offset with fewer than two vertexes"),
               tags |-> Tags(r, loops) ]
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
