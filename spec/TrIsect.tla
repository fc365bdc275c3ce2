------------------------------- MODULE TrIsect -------------------------------
(***************************************************************************)
(* Intersects between two polylines (C09) and within one (C10).             *)
(* A recorded answer: b = basic intersects [i, j, p], o = overlaps          *)
(* [i, j, p, q]; indexes count segments from 1.                             *)
(***************************************************************************)
EXTENDS TraceBase, Contact

CONSTANT Prop
Rng(f) == { f[i] : i \in DOMAIN f }

(* pinned: an existing test fixes the order of the two points of a two-vertex *)
(* closed polyline that runs back over itself                               *)
Whole2(ss, e) == Len(ss) = 2 /\ {e.i, e.j} = {1, 2}
Sound(ss, ts, r, self) ==
    UNION { LET s == ss[e.i]  t == ts[e.j] IN
            If(~OnSeg(s, e.p, 40) \/ ~OnSeg(t, e.p, 40), "reported intersect is not on both segments") : e \in Rng(r.b) }
    \cup UNION { LET s == ss[e.i]  t == ts[e.j] IN
            If(~OnSeg(s, e.p, 40) \/ ~OnSeg(t, e.p, 40) \/ ~OnSeg(s, e.q, 40) \/ ~OnSeg(t, e.q, 40), "reported overlap is not on both segments")
            \cup If(PD(e.p, t.a) > PD(e.q, t.a) + 20 /\ ~(self /\ Whole2(ss, e)), "overlap not ordered along the second polyline") : e \in Rng(r.o) }
IndexOk(r, n, m) == /\ \A e \in Rng(r.b) : e.i \in 1..n /\ e.j \in 1..m
                    /\ \A e \in Rng(r.o) : e.i \in 1..n /\ e.j \in 1..m

(* pair (i, j) runs along a common part: it is reported under those indexes *)
AlongBad(ss, ts, i, j, r, sym) ==
    LET cp == CommonPart(ss[i], ts[j]) IN
    If(~\E e \in Rng(r.o) : /\ (e.i = i /\ e.j = j) \/ (sym /\ e.i = j /\ e.j = i)
                            /\ \A c \in cp : PNear(e.p, c, 40) \/ PNear(e.q, c, 40), "common part not reported")
PointBad(s, t, p, r) ==
    LET tol == LocTol(s, t, p) IN
    If(~(\E e \in Rng(r.b) : PNear(e.p, p, tol)) /\ ~(\E e \in Rng(r.o) : PNear(e.p, p, tol) \/ PNear(e.q, p, tol)),
       "contact not reported")

(* the two intersects of a pair come in the order of the second segment      *)
Ordered(r, ts) ==
    If(\E k \in DOMAIN r.b : \E h \in DOMAIN r.b : k < h /\ r.b[k].i = r.b[h].i /\ r.b[k].j = r.b[h].j
            /\ PD(r.b[k].p, ts[r.b[k].j].a) > PD(r.b[h].p, ts[r.b[k].j].a) + 2, "two intersects of a pair not ordered along the second segment")

V_C09(r) ==
    LET ss == Segs(r.in.p)  ts == Segs(r.in.q)
        n == Len(ss)  m == Len(ts)
        o == r.out.r
        simple == Simple(r.in.p, 100) /\ Simple(r.in.q, 100)
        pairs == { ij \in (1..n) \X (1..m) : BoxesMeet(ss[ij[1]], ts[ij[2]], Far0) }
        fuzzy == TLCEval({ ij \in pairs : Fuzzy(ss[ij[1]], ts[ij[2]]) })
        along == TLCEval({ ij \in pairs \ fuzzy : Along(ss[ij[1]], ts[ij[2]]) })
        lastOk(pl, k, cnt) == pl.c = 0 /\ k = cnt
    IN  IF n = 0 \/ m = 0
        THEN [ bad |-> If(o.b # <<>> \/ o.o # <<>>, "intersects reported without segments"), tags |-> {"no segments"} ]
        ELSE IF ~IndexOk(o, n, m) THEN [ bad |-> {"segment index out of range"}, tags |-> {} ]
        ELSE
        [ bad |-> Sound(ss, ts, o, FALSE)
            \cup UNION { AlongBad(ss, ts, ij[1], ij[2], o, FALSE) : ij \in along }
            \cup UNION { UNION { PointBad(ss[ij[1]], ts[ij[2]], p, o) : p \in Isolated(ss[ij[1]], ts[ij[2]]) } : ij \in pairs \ (fuzzy \cup along) }
            \cup UNION { If((PNear(e.p, ss[e.i].b, 8) /\ ~lastOk(r.in.p, e.i, n)) \/ (PNear(e.p, ts[e.j].b, 8) /\ ~lastOk(r.in.q, e.j, m)),
                            "intersect recorded under the segment that ends there") :
                         e \in { e \in Rng(o.b) : ss[e.i].l > 20 /\ ts[e.j].l > 20 } }
            \cup If(simple /\ \E k \in DOMAIN o.b : \E h \in DOMAIN o.b : k < h /\ PNear(o.b[k].p, o.b[h].p, 8), "place reported twice")
            \cup Ordered(o, ts)
            \cup If(simple /\ \E k \in DOMAIN o.b : \E h \in DOMAIN o.o : PNear(o.b[k].p, o.o[h].p, 8) \/ PNear(o.b[k].p, o.o[h].q, 8),
                    "overlap end also reported as an intersect")
            \cup If(\E k \in DOMAIN o.o : \E h \in DOMAIN o.o : k < h /\ o.o[k].i = o.o[h].i /\ o.o[k].j = o.o[h].j, "overlap reported twice")
            \cup If(\E k \in DOMAIN r.out.same : r.out.same[k] # 1, "answer depends on the spatial index"),
          tags |-> If(along # {}, "overlap") \cup If(fuzzy # {}, "too close to call") \cup If(o.b # <<>>, "crossing or touching")
                   \cup If(simple, "both simple") \cup If(r.in.p.c = 0 \/ r.in.q.c = 0, "open") ]

-----------------------------------------------------------------------------
Adjacent(pl, i, j, n) == j = i + 1 \/ (pl.c = 1 /\ i = 1 /\ j = n)
JointsOf(pl, ss, i, j, n) == (IF j = i + 1 THEN {ss[i].b} ELSE {}) \cup (IF pl.c = 1 /\ i = 1 /\ j = n THEN {ss[i].a} ELSE {})
V_C10(r) ==
    LET ss == Segs(r.in.p)
        n == Len(ss)
        o == r.out.all
        loc == r.out.local  glo == r.out.global
        zero == \E i \in 1..n : ss[i].l <= 20
        pairs == { ij \in (1..n) \X (1..n) : ij[1] < ij[2] /\ BoxesMeet(ss[ij[1]], ss[ij[2]], Far0) }
        fuzzy == TLCEval({ ij \in pairs : Fuzzy(ss[ij[1]], ss[ij[2]]) })
        along == TLCEval({ ij \in pairs \ fuzzy : Along(ss[ij[1]], ss[ij[2]]) })
        adj(i, j) == Adjacent(r.in.p, Min2(i, j), Max2(i, j), n)
        joint(e) == \E q \in JointsOf(r.in.p, ss, Min2(e.i, e.j), Max2(e.i, e.j), n) : PNear(q, e.p, 8)
        all == Rng(o.b) \cup Rng(o.o)
        stops == r.out.stops
    IN  IF n = 0 THEN [ bad |-> If(o.b # <<>> \/ o.o # <<>>, "intersects reported without segments"), tags |-> {"no segments"} ]
        ELSE IF ~IndexOk(o, n, n) THEN [ bad |-> {"segment index out of range"}, tags |-> {} ]
        ELSE
        [ bad |->
            (IF zero THEN {} ELSE
               Sound(ss, ss, o, TRUE)
               \cup If(\E e \in Rng(o.b) : e.i = e.j \/ (adj(e.i, e.j) /\ joint(e)), "ordinary joint reported")
               \cup UNION { AlongBad(ss, ss, ij[1], ij[2], o, TRUE) : ij \in along }
               \cup UNION { LET s == ss[ij[1]]  t == ss[ij[2]]
                                js == JointsOf(r.in.p, ss, ij[1], ij[2], n)
                            IN  UNION { PointBad(s, t, p, o) : p \in { p \in Isolated(s, t) : \A q \in js : ~PNear(p, q, Max2(200, LocTol(s, t, p))) } }
                            : ij \in pairs \ (fuzzy \cup along) })
            \cup If(\E k \in DOMAIN o.b : \E h \in DOMAIN o.b : k < h /\ {o.b[k].i, o.b[k].j} = {o.b[h].i, o.b[h].j} /\ PNear(o.b[k].p, o.b[h].p, 2),
                    "intersect of a pair reported twice")
            \cup (IF zero THEN {} ELSE Ordered(o, ss))
            \cup If(\E e \in Rng(loc.b) \cup Rng(loc.o) : ~adj(e.i, e.j), "local scan reports a non-adjacent pair")
            \cup If(\E e \in Rng(glo.b) \cup Rng(glo.o) : adj(e.i, e.j), "global scan reports an adjacent pair")
            \cup If(loc.b \o glo.b # o.b \/ loc.o \o glo.o # o.o, "local and global do not make up the full scan")
            \cup If(\E k \in DOMAIN stops : LET want == Min2(k, Len(o.b) + Len(o.o)) IN
                       stops[k].calls # want \/ stops[k].ret # (IF k <= Len(o.b) + Len(o.o) THEN k ELSE 0), "scan goes on after being asked to stop")
            \cup If(\E k \in DOMAIN r.out.same : r.out.same[k] # 1, "answer depends on the spatial index"),
          tags |-> If(along # {}, "overlap") \cup If(fuzzy # {}, "too close to call") \cup If(glo.b # <<>>, "crossing or touching")
                   \cup If(loc.b # <<>> \/ loc.o # <<>>, "adjacent pair") \cup If(zero, "zero-length segment") \cup If(o.b = <<>> /\ o.o = <<>>, "none") ]

Verdict(r) == IF Prop = "C09" THEN V_C09(r) ELSE V_C10(r)
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
