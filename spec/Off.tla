--------------------------------- MODULE Off ---------------------------------
(***************************************************************************)
(* Parallel offsets: what a recorded (polyline, distance) -> polylines must *)
(* satisfy.                                                                 *)
(***************************************************************************)
EXTENDS Sampling

DTol == 400         \* the offset distance holds to this (offset_dist_eps is 1e-4)
Margin == 1500      \* points whose distance is this near to d are not judged

SegsOf(ps) == TLCEval([i \in DOMAIN ps |-> Segs(ps[i])])
AllSegs(ss) == FlatSegs(ss)

(* the side of segment s on which p lies: positive left, negative right;    *)
(* past an end it is the side of the tangent there                          *)
SideOf(s, p) ==
    IF s.g = 0 THEN SideAmount(s, p)
    ELSE IF InWedge(s, p) THEN SideAmount(s, p)
    ELSE LET e == IF PD(p, s.a) < PD(p, s.b) THEN s.a ELSE s.b
             t == TanAt(s, e)
         IN  DivSum(<< <<t[1], p[2] - e[2]>>, <<-t[2], p[1] - e[1]>> >>, << <<U>> >>)
(* p is at distance |d| from the path, from a part that has it on d's side  *)
AtOffset(ss, p, d) ==
    /\ Abs(MinDist(ss, p) - Abs(d)) <= DTol
    /\ \E i \in DOMAIN ss : /\ Abs(SegDist(ss[i], p) - Abs(d)) <= 2 * DTol
                            /\ SideOf(ss[i], p) * Sgn(d) >= -DTol

Points(s) == Samples3(s) \cup {s.a, s.b}
DistBad(ss, rs, d) ==
    LET pts == UNION { Points(rs[i]) : i \in DOMAIN rs } IN
    If(\E p \in pts : Abs(MinDist(ss, p) - Abs(d)) > DTol, "offset point not at the distance")
    \cup If(\E p \in pts : Abs(MinDist(ss, p) - Abs(d)) <= DTol /\ ~AtOffset(ss, p, d), "offset point on the wrong side")

-----------------------------------------------------------------------------
(* the offset of the side of a segment / of a joint, as points that must be *)
(* on the result when nothing of the input is nearer                        *)
NormalPt(s, m, k) == LET t == TanAt(s, m) IN
    << m[1] - DivSum(<< <<t[2], k>> >>, << <<U>> >>), m[2] + DivSum(<< <<t[1], k>> >>, << <<U>> >>) >>
SidePts(ss, d) == UNION { { NormalPt(ss[i], m, d) : m \in Samples3(ss[i]) } : i \in DOMAIN ss }
(* at a joint where the path turns away from the side d, the offset goes    *)
(* round the vertex: the bisecting point                                    *)
JointPt(s, t, d) ==
    LET u == TanAt(s, s.b)  w == TanAt(t, t.a)
        x == DivSum(<< <<u[1], w[2]>>, <<-u[2], w[1]>> >>, << <<U>> >>)
        bis == Unit(u[1] + w[1], u[2] + w[2])
    IN  IF x # 0 /\ Sgn(x) = -Sgn(d) /\ Abs(x) > U \div 20
        THEN { << s.b[1] - DivSum(<< <<bis[2], d>> >>, << <<U>> >>), s.b[2] + DivSum(<< <<bis[1], d>> >>, << <<U>> >>) >> }
        ELSE {}
Joints(pl, ss, d) == UNION { IF i < Len(ss) THEN JointPt(ss[i], ss[i + 1], d)
                             ELSE IF pl.c = 1 THEN JointPt(ss[i], ss[1], d) ELSE {} : i \in DOMAIN ss }
(* side points which no part of the path comes nearer to.  A part that is   *)
(* elsewhere must stay clearly farther than |d|.                            *)
Shrinks(s, d) == s.g # 0 /\ Sgn(s.g) = Sgn(d) /\ Abs(s.r - Abs(d)) <= 200     \* to a point
ValidSide(ss, d) ==
    UNION { IF Shrinks(ss[i], d) THEN {} ELSE { q \in { NormalPt(ss[i], m, d) : m \in Samples3(ss[i]) } :
                /\ SegDist(ss[i], q) >= Abs(d) - 20
                /\ \A j \in DOMAIN ss \ {i} : SegDist(ss[j], q) > Abs(d) + Margin } : i \in DOMAIN ss }
ValidJoint(pl, ss, d) ==
    LET n == Len(ss)
        at(i) == IF i < n THEN JointPt(ss[i], ss[i + 1], d) ELSE IF pl.c = 1 THEN JointPt(ss[n], ss[1], d) ELSE {}
        nx(i) == IF i < n THEN i + 1 ELSE 1
    IN  UNION { { q \in at(i) : /\ SegDist(ss[i], q) >= Abs(d) - 20
                                /\ SegDist(ss[nx(i)], q) >= Abs(d) - 20
                                /\ \A j \in DOMAIN ss \ {i, nx(i)} : SegDist(ss[j], q) > Abs(d) + Margin } : i \in DOMAIN ss }
CompleteBad(pl, ss, rs, d) ==
    If(\E q \in ValidSide(ss, d) : ~OnPath(rs, q, DTol), "part of the offset is missing")
    \cup If(\E q \in ValidJoint(pl, ss, d) : ~OnPath(rs, q, DTol), "offset does not go round a vertex")

-----------------------------------------------------------------------------
(* Closed simple input: the region                                          *)
InOffset(in, dist, ori, d) ==       \* d > 0 is left: inward for counter-clockwise
    IF ori * d > 0 THEN in /\ dist > Abs(d) ELSE in \/ dist < Abs(d)
RegionPts(ss, rs, d) ==
    GridOver(ss, 8, Abs(d) + 200000)
    \cup UNION { LET m == Mid(ss[i]) IN { NormalPt(ss[i], m, d + 4000), NormalPt(ss[i], m, d - 4000) } : i \in DOMAIN ss }
    \cup UNION { LET m == Mid(rs[i]) IN { NormalPt(rs[i], m, 4000), NormalPt(rs[i], m, -4000) } : i \in DOMAIN rs }
RECURSIVE WindSum(_, _, _)
WindSum(ls, p, i) == IF i = 0 THEN 0 ELSE Wind(ls[i], p) + WindSum(ls, p, i - 1)
RegionBad(ss, loops, rs, ori, d) ==
    LET wrong == { p \in RegionPts(ss, rs, d) :
                   LET w == Wind(ss, p)
                       dist == MinDist(ss, p)
                   IN  /\ dist > 100
                       /\ Abs(dist - Abs(d)) > Margin
                       /\ WindSum(loops, p, Len(loops)) # ori * (IF InOffset(w # 0, dist, ori, d) THEN 1 ELSE 0) }
    IN  If(wrong # {}, "offset loops do not bound the region")

-----------------------------------------------------------------------------
WellFormedBad(pl, res, loops) ==
    If(pl.c = 1 /\ \E i \in DOMAIN res : res[i].c # 1, "closed input gives an open offset")
    \cup If(\E i \in DOMAIN res : Len(res[i].v) < 2, "offset with fewer than two vertexes")
    \cup If(\E i \in DOMAIN loops : \E k \in DOMAIN loops[i] : PNear(loops[i][k].a, loops[i][k].b, 8), "repeated position in offset")
    \cup If(\E i \in DOMAIN loops : SelfCross(loops[i]), "offset crosses itself")
    \cup If(\E i \in DOMAIN loops : \E j \in DOMAIN loops : i < j /\
              \E k \in DOMAIN loops[i] : \E m \in DOMAIN loops[j] : ProperCross(loops[i][k], loops[j][m]), "offset results cross each other")

RECURSIVE SumLen(_, _)
SumLen(ls, i) == IF i = 0 THEN 0 ELSE PathLen(ls[i]) + SumLen(ls, i - 1)
Total(ls) == SumLen(ls, Len(ls))

Tags(r, loops) ==
    { (IF r.in.p.c = 1 THEN "closed" ELSE "open") }
    \cup If(loops = <<>>, "vanishes") \cup If(Len(loops) > 1, "several results")
    \cup If(\E i \in DOMAIN r.out.r : r.out.r[i].c # r.in.p.c, "open input, closed result")
(* at an exact tie a residue about as wide as the tolerances may stay or go  *)
Visible(ls) == SelectSeq(ls, LAMBDA seg : PathLen(seg) > 10000)
(* a part at the distance from two places all along is decided by rounding   *)
Tied(pl, ss, rs, d) ==
    LET n == Len(ss)
        near(i, q) == Abs(SegDist(ss[i], q) - Abs(d)) <= DTol
    IN  \E k \in DOMAIN rs : LET q == Mid(rs[k]) IN
          \E i \in 1..n : near(i, q) /\ \E j \in (i + 2)..n : ~(pl.c = 1 /\ i = 1 /\ j = n) /\ near(j, q)
Vary(r) ==
    LET ps == Segs(r.in.p)
        base == Visible(SegsOf(r.out.vs[1].r))
        bs == AllSegs(base)
        one(n) ==
            LET v == r.in.vs[n]
                o == r.out.vs[n].r
                ls == Visible(SegsOf([i \in DOMAIN o |-> MovePl(o[i], -v.dx, -v.dy)]))
                rs == AllSegs(ls)
                tied == Tied(r.in.p, ps, bs, r.in.d) \/ Tied(r.in.p, ps, rs, r.in.d)
                nm == "presentation " \o ToString(n) \o ": "
            IN  { nm \o m : m \in WellFormedBad(v.p, o, SegsOf(o))
                    \cup IF tied THEN {} ELSE If(\E i \in DOMAIN rs : ~OnPath(bs, Mid(rs[i]), DTol + Uncertain(rs[i])), "offset has parts the plain one lacks")
                    \cup If(\E i \in DOMAIN bs : ~OnPath(rs, Mid(bs[i]), DTol + Uncertain(bs[i])), "offset lacks parts the plain one has")
                    \cup If(Len(ls) # Len(base), "number of results differs")
                    \cup If(Abs(Total(ls) - Total(base)) > 4000 + 1000 * Len(rs), "total length differs") }
    IN  [ bad |-> UNION { one(n) : n \in DOMAIN r.in.vs },
          tags |-> { (IF r.in.p.c = 1 THEN "closed" ELSE "open") } \cup If(base = <<>>, "vanishes") \cup If(Tied(r.in.p, ps, bs, r.in.d), "tied all along") \cup If(Len(base) > 1, "several results") ]

(* open results keep the input's direction: near a result's middle the      *)
(* input part it was offset from runs the same way                          *)
DirBad(ss, rs, d) ==
    If(\E i \in DOMAIN rs :
         LET m == Mid(rs[i])  t == TanAt(rs[i], m) IN
         rs[i].l > 20000 /\
         \E k \in DOMAIN ss :
           /\ Abs(SegDist(ss[k], m) - Abs(d)) <= DTol
           /\ \A j \in DOMAIN ss \ {k} : SegDist(ss[j], m) > Abs(d) + Margin
           /\ ss[k].g = 0 \/ InWedge(ss[k], m)
           /\ LET f == IF ss[k].g = 0 THEN Foot(ss[k], m) ELSE m
                  w == TanAt(ss[k], f) IN
              Dot(t[1], t[2], w[1], w[2]) < 0,
       "offset runs against the input")

=============================================================================
