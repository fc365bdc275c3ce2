------------------------------- MODULE Contact -------------------------------
(***************************************************************************)
(* How two segments meet: apart, at isolated points, along a common part,   *)
(* or too close to call ("fuzzy").                                          *)
(***************************************************************************)
EXTENDS Sampling

Near0 == 2          \* nearer than this is contact
Far0 == 100         \* farther than this is not

EndsOn(s, t) == { p \in {s.a, s.b} : OnSeg(t, p, Near0) } \cup { p \in {t.a, t.b} : OnSeg(s, p, Near0) }
Gaps(s, t) ==  \* distances that decide whether there is contact
    { SegDist(t, p) : p \in { p \in {s.a, s.b} \ {t.a, t.b} : InBox(t, p, Far0) } }
    \cup { SegDist(s, p) : p \in { p \in {t.a, t.b} \ {s.a, s.b} : InBox(s, p, Far0) } }
    \cup { Max2(SegDist(t, p), SegDist(s, p)) : p \in { p \in CritPts(s, t) : InBox(s, p, Far0) /\ InBox(t, p, Far0) } }
Fuzzy(s, t) == /\ BoxesMeet(s, t, Far0)
               /\ \/ \E d \in Gaps(s, t) : d > 0 /\ d <= Far0
                  \/ (s.l < 2000 \/ t.l < 2000)
SameCircle(s, t) == s.g # 0 /\ t.g # 0 /\ PNear(s.c, t.c, 20) /\ Abs(s.r - t.r) <= 20
(* the middle of the part of circle s between p and q: both candidates      *)
ArcMids(s, p, q) ==
    LET wx == p[1] + q[1] - 2 * s.c[1]  wy == p[2] + q[2] - 2 * s.c[2]
        u == IF Hyp(wx, wy) > 1000 THEN Unit(wx, wy) ELSE Unit(p[2] - q[2], q[1] - p[1])
        ox == DivSum(<< <<u[1], s.r>> >>, << <<U>> >>)  oy == DivSum(<< <<u[2], s.r>> >>, << <<U>> >>)
    IN  { <<s.c[1] + ox, s.c[2] + oy>>, <<s.c[1] - ox, s.c[2] - oy>> }
CommonEnds(s, t) ==   \* the pairs of points that bound a common part
    LET e == EndsOn(s, t) IN
    { pq \in e \X e : /\ PD(pq[1], pq[2]) > Far0
                      /\ IF s.g = 0 THEN TRUE
                         ELSE \E m \in ArcMids(s, pq[1], pq[2]) : OnSeg(s, m, 30) /\ OnSeg(t, m, 30) }
Along(s, t) == /\ (s.g = 0 /\ t.g = 0) \/ SameCircle(s, t)
               /\ BoxesMeet(s, t, Near0)
               /\ CommonEnds(s, t) # {}
(* the two ends of the whole common part (as an unordered set)              *)
CommonPart(s, t) ==
    LET ce == CommonEnds(s, t)
        pq == CHOOSE u \in ce : \A w \in ce : PD(u[1], u[2]) >= PD(w[1], w[2])
    IN  {pq[1], pq[2]}
Isolated(s, t) ==
    IF ~BoxesMeet(s, t, Near0) THEN {}
    ELSE EndsOn(s, t) \cup (IF SameCircle(s, t) THEN {} ELSE Hits(s, t, Near0))
SinAt(s, t, p) ==
    LET u == TanAt(s, p)  w == TanAt(t, p)
    IN  Abs(DivSum(<< <<u[1], w[2]>>, <<-u[2], w[1]>> >>, << <<U>> >>))
(* how precisely an isolated contact is located                             *)
Shallow(s) == IF s.g = 0 \/ s.l = 0 THEN 0 ELSE DivSum(<< <<20, s.r>> >>, << <<s.l>> >>)
LocTol(s, t, p) == LET k == SinAt(s, t, p)  f == Shallow(s) + Shallow(t) IN
                   IF k > U \div 5 THEN 40 + f ELSE IF k > U \div 50 THEN 400 + 10 * f ELSE 6000 + 100 * f
=============================================================================
