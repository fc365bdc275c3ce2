------------------------------- MODULE TrShape -------------------------------
(***************************************************************************)
(* Shape offsets: the loops of offset(S, d) bound S eroded (d > 0) or       *)
(* dilated (d < 0) by |d|.                                                  *)
(***************************************************************************)
EXTENDS TraceBase, Sampling

Margin == 1500
SegsOf(ps) == TLCEval([i \in DOMAIN ps |-> Segs(ps[i])])
RECURSIVE WindSum(_, _, _)
WindSum(ls, p, i) == IF i = 0 THEN 0 ELSE Wind(ls[i], p) + WindSum(ls, p, i - 1)
NormalPt(s, m, k) == LET t == TanAt(s, m) IN
    << m[1] - DivSum(<< <<t[2], k>> >>, << <<U>> >>), m[2] + DivSum(<< <<t[1], k>> >>, << <<U>> >>) >>
Pts(all, rs, d) ==
    GridOver(all, 10, Abs(d) + 200000)
    \cup UNION { LET m == Mid(all[i]) IN { NormalPt(all[i], m, d + 4000), NormalPt(all[i], m, d - 4000) } : i \in DOMAIN all }
    \cup UNION { LET m == Mid(rs[i]) IN { NormalPt(rs[i], m, 4000), NormalPt(rs[i], m, -4000) } : i \in DOMAIN rs }
Covers(in, dist, d) == IF d > 0 THEN in /\ dist > d ELSE in \/ dist < -d

ResBad(ins, all, o, d, slack, nm) ==
    LET lc == SegsOf(o.ccw)  lw == SegsOf(o.cw)
        ls == TLCEval(lc \o lw)
        rs == FlatSegs(ls)
        wrong == { p \in Pts(all, rs, d) :
                   LET w == WindSum(ins, p, Len(ins))
                       dist == MinDist(all, p)
                   IN  /\ dist > 100
                       /\ Abs(dist - Abs(d)) > Margin * slack
                       /\ WindSum(ls, p, Len(ls)) # (IF Covers(w # 0, dist, d) THEN 1 ELSE 0) }
    IN  { nm \o m : m \in
          If(wrong # {}, "the loops do not bound the offset material")
          \cup If(\E i \in DOMAIN o.ccw : o.ccw[i].c # 1, "open result loop") \cup If(\E i \in DOMAIN o.cw : o.cw[i].c # 1, "open result loop")
          \cup If(\E i \in DOMAIN ls : Len(ls[i]) < 2, "result loop with fewer than two vertexes")
          \cup If(\E i \in DOMAIN lc : Area2(lc[i]) < -200, "clockwise loop among the counter-clockwise")
          \cup If(\E i \in DOMAIN lw : Area2(lw[i]) > 200, "counter-clockwise loop among the clockwise")
          \cup If(\E i \in DOMAIN rs : Abs(MinDist(all, Mid(rs[i])) - Abs(d)) > 400 * slack
                                       \/ Abs(MinDist(all, rs[i].a) - Abs(d)) > 400 * slack, "offset point not at the distance")
          \cup If(\E i \in DOMAIN ls : \E k \in DOMAIN ls[i] : PNear(ls[i][k].a, ls[i][k].b, 8), "repeated position")
          \cup If(\E i \in DOMAIN rs : \E j \in DOMAIN rs : i < j /\ ProperCross(rs[i], rs[j]), "result loops cross")
          \cup If(o.ixn # Len(ls) \/ \E i \in DOMAIN o.ix : o.ix[i] # 1, "the shape's index does not cover a loop") }

Verdict(r) ==
    LET real == SelectSeq(r.in.ps, LAMBDA p : Len(p.v) > 1)
        ins == SegsOf(real)
        all == FlatSegs(ins)
        want(sg) == { real[i] : i \in { i \in DOMAIN ins : Sgn(Area2(ins[i])) = sg } }
        got(ps) == { ps[i] : i \in DOMAIN ps }
    IN  [ bad |-> If(got(r.out.s0.ccw) # want(1) \/ got(r.out.s0.cw) # want(-1), "input classified wrongly")
                  \cup If(r.out.s0.ixn # Len(ins) \/ \E i \in DOMAIN r.out.s0.ix : r.out.s0.ix[i] # 1, "the input shape's index does not cover a loop")
                  \cup ResBad(ins, all, r.out.s1, r.in.d, 1, "")
                  \cup IF r.in.d2 = 0 THEN {} ELSE ResBad(ins, all, r.out.s2, r.in.d + r.in.d2, 2, "second offset: "),
          tags |-> { IF r.in.d > 0 THEN "erode" ELSE "dilate" }
                   \cup If(Len(ins) > 2, "several loops")
                   \cup If(Len(r.out.s1.ccw) + Len(r.out.s1.cw) = 0, "vanishes")
                   \cup If(Len(r.out.s1.ccw) > Len(r.out.s0.ccw), "material splits")
                   \cup If(Len(r.out.s1.cw) < Len(r.out.s0.cw) /\ Len(r.out.s1.ccw) # 0, "holes vanish or merge")
                   \cup If(Len(real) < Len(r.in.ps), "degenerate input polyline") ]
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
