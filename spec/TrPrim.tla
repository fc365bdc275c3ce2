------------------------------- MODULE TrPrim ---------------------------------
(***************************************************************************)
(* Single segments and helpers (C21); line, circle and segment intersection  *)
(* primitives (C22).                                                        *)
(***************************************************************************)
EXTENDS TraceBase, Contact

Steep(s) == IF s.g = 0 \/ s.l = 0 THEN 0 ELSE DivSum(<< <<2, s.r>> >>, << <<s.l>> >>)
RECURSIVE FracPt(_, _, _, _, _)
FracPt(a, b, g, f, depth) ==    \* f: fraction in units of 1/G
    IF depth = 0 \/ g = 0
    THEN << a[1] + DivSum(<< <<b[1] - a[1], f>> >>, << <<G>> >>), a[2] + DivSum(<< <<b[2] - a[2], f>> >>, << <<G>> >>) >>
    ELSE LET m == << DivSum(<< <<a[1] + b[1], G>>, <<b[2] - a[2], g>> >>, << <<2, G>> >>),
                     DivSum(<< <<a[2] + b[2], G>>, <<a[1] - b[1], g>> >>, << <<2, G>> >>) >>
             h == HalfG(g)
         IN  IF f <= G \div 2 THEN FracPt(a, m, h, 2 * f, depth - 1) ELSE FracPt(m, b, h, 2 * (f - G \div 2), depth - 1)
AngOf(s) == Sgn(s.g) * Atan(Abs(s.g))

Slip(s, q) == LET d == PD(q, s.c) IN IF d < 10 THEN 2 * s.r ELSE Min2(2 * s.r, DivSum(<< <<20, U>> >>, << <<d>> >>))
V_Seg(r) ==
    LET i == r.in  o == r.out
        s == MkSeg(i.a, PosOf(i.b))
        ex == s.l \div 50000000         \* the fixed-point arithmetic itself, on long segments
        tol == 5 + 2 * Steep(s) + ex
        arc == s.g # 0
        len == SegLen(s)
        lt == 6 + 4 * Steep(s) + ex + (len \div 100000000) * 2
        bx == SegBox(s)
        split(k) ==
            LET c == o.cuts[k]  p == i.ps[k]  f == i.fs[k]
                s1 == MkSeg(c.us, PosOf(c.sv))  s2 == MkSeg(c.sv, s.b)
                void(z) == z.l <= 20
            IN  If(~PNear(s1.a, s.a, 1) \/ ~PNear(s1.b, p, 1), "split moves a vertex")
                \cup If((void(s1) /\ Abs(s1.g) > 2) \/ (void(s2) /\ Abs(s2.g) > 2), "split leaves a bulge on a part of no length")
                \cup If(Abs((IF void(s1) THEN 0 ELSE SegLen(s1)) + (IF void(s2) THEN 0 ELSE SegLen(s2)) - len) > 3 * lt, "split changes the length")
                \cup If(\/ ~void(s1) /\ (Sgn(s1.g) # Sgn(s.g) \/ ~PNear(Mid(s1), FracPt(s.a, s.b, s.g, f \div 2, 14), 3 * tol + 3 * Steep(s1)))
                        \/ ~void(s2) /\ (Sgn(s2.g) # Sgn(s.g) \/ ~PNear(Mid(s2), FracPt(s.a, s.b, s.g, f + (G - f) \div 2, 14), 3 * tol + 3 * Steep(s2))),
                        "split parts leave the path")
        tang(k) ==
            LET w == TanAt(s, i.ps[k])  t == o.cuts[k].t
                d == 4 + DivSum(<< <<4 * tol, U>> >>, << <<IF arc THEN s.r ELSE s.l>> >>)
            IN  If(~PNear(t, w, d), "tangent does not point along travel")
        near(k) ==
            LET q == i.qs[k]  p == o.near[k] IN
            \* the sweep test's tolerance is an area: near the centre or on a small arc it lets the
            \* point slip along the circle past the end
            If(IF arc THEN Abs(PD(p, s.c) - s.r) > tol \/ ~OnSeg(s, p, tol + Slip(s, q)) ELSE ~OnSeg(s, p, tol), "closest point is not on the segment")
            \cup If(PD(q, p) > SegDist(s, q) + 2 * tol, "a nearer point exists")
    IN  [ bad |->
            (IF ~arc THEN {}
             ELSE If(Abs(o.r - s.r) > tol + Steep(s), "radius")
                  \cup If(~PNear(o.c, s.c, tol + Steep(s)), "centre")
                  \cup If(Abs(PD(o.c, s.a) - o.r) > 3 \/ Abs(PD(o.c, s.b) - o.r) > 3, "radius and centre do not fit the ends"))
            \cup If(~PNear(o.turned, s.b, tol), "turning the start by the sweep does not give the end")
            \cup If(~PNear(o.onc, s.a, 3), "point on the circle at the start's angle")
            \cup If(~PNear(o.mid, Mid(s), tol), "midpoint")
            \cup If(Abs(o.len - len) > lt, "length")
            \cup If(\E k \in 1..4 : Abs(o.box[k] - bx[k]) > tol, "bounding box")
            \cup If(o.abox[1] > bx[1] + tol \/ o.abox[2] > bx[2] + tol \/ o.abox[3] < bx[3] - tol \/ o.abox[4] < bx[4] - tol, "approximate box does not contain the segment")
            \cup UNION { split(k) \cup tang(k) : k \in DOMAIN o.cuts }
            \cup UNION { near(k) : k \in DOMAIN o.near },
          tags |-> { IF arc THEN "arc" ELSE "line" } ]

-----------------------------------------------------------------------------
(* Angle helpers: angles in units of 1e-8 radian                             *)
Tau == 628318531
Pi == 314159265
Norm(a) == a % Tau
NearAng(a, b) == Abs(a - b) <= 8 \/ Abs(Abs(a - b) - Tau) <= 8
Between(t, a, b, eps, sure) ==        \* "yes", "no" or "unsure"; sure: the angles are given, not computed
    LET es == Norm(b - a)  ms == Norm(t - a)
        edge(z) == z < 200 \/ z > Tau - 200
        unsure == (edge(ms) /\ ~(sure /\ t = a)) \/ (edge(es) /\ ~(sure /\ a = b))
    IN  IF unsure \/ Abs(ms - es - eps) < 200 THEN "unsure" ELSE IF ms < es + eps THEN "yes" ELSE "no"
Says(v, w) == w = "unsure" \/ (v = 1) = (w = "yes")
V_Help(r) ==
    LET i == r.in  o == r.out
        a == i.as[1]  b == i.as[2]  t == i.as[3]
        p == i.ps[1]  q == i.ps[2]  z == i.ps[3]
        d0 == Norm(b - a)
        d == IF d0 > Pi + 8 THEN d0 - Tau ELSE d0
        s == MkSeg(p \o <<0>>, q)
        on == << p[1] + ((q[1] - p[1]) * i.k) \div 4, p[2] + ((q[2] - p[2]) * i.k) \div 4 >>
        pd == DivSum(<< <<q[1] - p[1], z[2] - p[2]>>, <<p[2] - q[2], z[1] - p[1]>> >>, << <<U>> >>)
        bool(v, c) == (v = 1) = c
        en == IF b < 0 THEN a + b ELSE a
        sp == IF b < 0 THEN a ELSE a + b
        len == Hyp(p[1], p[2])
    IN  [ bad |->
            If(o.mn # Min2(a, b) \/ o.mx # Max2(a, b), "min_max")
            \cup If(~NearAng(o.norm, Norm(a)) \/ o.norm < 0 \/ o.norm > Tau, "normalize_radians")
            \cup If(~NearAng(o.delta, d) \/ Abs(o.delta) > Pi + 8, "delta_angle")
            \cup If(o.dpos < 0 \/ o.dneg > 0 \/ Abs(Abs(o.dpos) - Abs(o.delta)) > 8 \/ Abs(Abs(o.dneg) - Abs(o.delta)) > 8, "delta_angle_signed")
            \cup If(~Says(o.btw, Between(t, a, b, 0, TRUE)) \/ ~Says(o.btwe, Between(t, a, b, 25000000, TRUE)), "angle_is_between")
            \cup If(~Says(o.swp, Between(t, en, sp, 0, b > 0)) \/ ~Says(o.swpe, Between(t, en, sp, 25000000, b > 0)), "angle_is_within_sweep")
            \cup If(Abs(o.afb - Sgn(i.g) * DivSum(<< <<4, Atan(Abs(i.g))>> >>, << <<10>> >>)) > 8, "angle_from_bulge")
            \cup If(Abs(o.bfa - i.g) > 2, "bulge_from_angle")
            \cup If(Abs(o.d2 - DivSum(<< <<q[1] - p[1], q[1] - p[1]>>, <<q[2] - p[2], q[2] - p[2]>> >>, << <<U>> >>)) > 1, "dist_squared")
            \cup If(~PNear(o.mid, << (p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2 >>, 1), "midpoint")
            \cup If(~PNear(o.on, on, 1) \/ Abs(o.par - 250000 * i.k) > 1, "parametric point")
            \cup If(~OnSeg(s, o.cp, 3) \/ PD(z, o.cp) > SegDist(s, z) + 12, "line_seg_closest_point")
            \cup If(~bool(o.left, pd > 0) \/ ~bool(o.lefteq, pd >= 0), "is_left")
            \cup If(~bool(o.leftco, pd >= 0) \/ ~bool(o.leftcoe, pd > -300000), "is_left_or_coincident")
            \cup If(~bool(o.rightco, pd <= 0) \/ ~bool(o.rightcoe, pd < 300000), "is_right_or_coincident")
            \cup If(o.scale # << i.k * p[1], i.k * p[2] >> \/ o.add # << p[1] + q[1], p[2] + q[2] >> \/ o.sub # << p[1] - q[1], p[2] - q[2] >>
                    \/ o.neg # << -p[1], -p[2] >> \/ o.perp # << -p[2], p[1] >>, "vector arithmetic")
            \cup If(~PNear(o.unit, Unit(p[1], p[2]), 2) \/ ~PNear(o.uperp, Unit(-p[2], p[1]), 2) \/ Abs(o.len - len) > 1, "vector length")
            \cup If(Abs(o.dot - DivSum(<< <<p[1], q[1]>>, <<p[2], q[2]>> >>, << <<U>> >>)) > 1
                    \/ Abs(o.pdot - DivSum(<< <<p[1], q[2]>>, <<-p[2], q[1]>> >>, << <<U>> >>)) > 1, "vector products"),
          tags |-> {"helpers"} ]

-----------------------------------------------------------------------------
(* Two line segments (v1, v2) and (u1, u2)                                   *)
OnLine(p, q, t) == << p[1] + DivSum(<< <<q[1] - p[1], t>> >>, << <<U>> >>), p[2] + DivSum(<< <<q[2] - p[2], t>> >>, << <<U>> >>) >>
V_LL(r) ==
    LET p == r.in.ps  o == r.out
        s == MkSeg(p[1] \o <<0>>, p[2])  t == MkSeg(p[3] \o <<0>>, p[4])
        vx == p[2][1] - p[1][1]  vy == p[2][2] - p[1][2]
        ux == p[4][1] - p[3][1]  uy == p[4][2] - p[3][2]
        wx == p[1][1] - p[3][1]  wy == p[1][2] - p[3][2]
        den == << <<vx, uy>>, <<-vy, ux>> >>
        sin == IF s.l = 0 \/ t.l = 0 THEN 0 ELSE Abs(DivSum(<< <<vx, uy, U>>, <<-vy, ux, U>> >>, << <<s.l, t.l>> >>))
        far == 500 * U
        cap(z) == Max2(-far, Min2(far, z))
        t1 == cap(DivSum(<< <<ux, wy, U>>, <<-uy, wx, U>> >>, den))
        t2 == cap(DivSum(<< <<vx, wy, U>>, <<-vy, wx, U>> >>, den))
        out(z, sl) == LET m == DivSum(<< <<200, U>> >>, << <<Max2(sl, 1)>> >>) IN IF z < -m \/ z > U + m THEN "out" ELSE IF z > m /\ z < U - m THEN "in" ELSE IF Abs(z) <= 5 \/ Abs(z - U) <= 5 THEN "in" ELSE "unsure"
        \* where v's ends lie along u
        par(z) == DivSum(<< <<z[1] - p[3][1], ux, U>>, <<z[2] - p[3][2], uy, U>> >>, << <<t.l, t.l>> >>)
        lo == Min2(par(p[1]), par(p[2]))  hi == Max2(par(p[1]), par(p[2]))
        off == Abs(SideAmount(t, p[1]))
        meet == o.k = "true" /\ PNear(OnLine(p[1], p[2], o.t), OnLine(p[3], p[4], o.u), 6 + (s.l \div 400000) + (t.l \div 400000))
                /\ o.t >= -20 /\ o.t <= U + 20 /\ o.u >= -20 /\ o.u <= U + 20
        case ==
            IF s.l = 0 /\ t.l = 0 THEN IF p[1] = p[3] THEN "point" ELSE "none"
            ELSE IF s.l = 0 THEN IF SegDist(t, p[1]) <= 2 THEN "point" ELSE "none"
            ELSE IF t.l = 0 THEN IF SegDist(s, p[3]) <= 2 THEN "point" ELSE "none"
            ELSE IF sin <= 5
            THEN IF off > 100 THEN "none" ELSE IF off > 3 THEN "unsure"
                 ELSE IF hi < -100 \/ lo > U + 100 THEN "none"
                 ELSE IF Min2(hi, U) - Max2(lo, 0) <= 5 THEN "point"
                 ELSE "over"
            ELSE IF sin < U \div 100 THEN "unsure"
            ELSE IF out(t1, s.l) = "out" \/ out(t2, t.l) = "out" THEN "false"
            ELSE IF out(t1, s.l) = "in" /\ out(t2, t.l) = "in" THEN "true" ELSE "unsure"
    IN  [ bad |->
            CASE case = "none" -> If(o.k # "none", "lines: intersect reported where there is none")
              [] case = "point" -> If(~meet, "lines: end contact")
              [] case = "over" -> If(o.k # "over", "lines: overlap not reported")
                                  \cup If(o.k = "over" /\ (Abs(o.t - Max2(lo, 0)) > 8 \/ Abs(o.u - Min2(hi, U)) > 8), "lines: overlap ends")
              [] case = "true" -> If(o.k # "true", "lines: crossing not reported")
                                  \cup If(o.k = "true" /\ (~meet \/ Abs(o.t - t1) > 4 \/ Abs(o.u - t2) > 4), "lines: crossing point")
              [] case = "false" -> If(o.k # "false", "lines: crossing beyond the ends")
                                   \cup If(o.k = "false" /\ (Abs(o.t - t1) > 4 + Abs(t1) \div 100000 \/ Abs(o.u - t2) > 4 + Abs(t2) \div 100000), "lines: crossing point beyond the ends")
              [] OTHER -> If(o.k = "true" /\ ~PNear(OnLine(p[1], p[2], o.t), OnLine(p[3], p[4], o.u), 200), "lines: crossing point"),
          tags |-> { "lines " \o case } ]

(* A line and a circle                                                       *)
V_LC(r) ==
    LET p == r.in.ps  o == r.out  rad == r.in.r  c == p[3]
        s == MkSeg(p[1] \o <<0>>, p[2])
        f == Foot(s, c)
        h == PD(f, c)
        at(z) == Abs(PD(z, c) - rad)
        case == IF s.l = 0 THEN IF Abs(PD(p[1], c) - rad) <= 1 THEN "point" ELSE IF Abs(PD(p[1], c) - rad) < 100 THEN "unsure" ELSE "none"
                ELSE IF Abs(h - rad) <= 2 THEN "tan" ELSE IF h > rad + 100 THEN "none" ELSE IF h < rad - 100 THEN "two" ELSE "unsure"
        lean(z) == Abs(SideAmount(s, z))        \* off the line
    IN  [ bad |->
            CASE case = "none" -> If(o.k # "none", "line and circle: intersect reported where there is none")
              [] case = "point" -> If(o.k # "tan" \/ o.p # p[1], "line and circle: point on the circle")
              [] case = "tan" -> If(o.k # "tan", "line and circle: tangent not reported")
                                 \cup If(o.k = "tan" /\ ~PNear(o.p, f, 20), "line and circle: tangent point")
              [] case = "two" -> If(o.k # "two", "line and circle: two intersects not reported")
                                 \cup If(o.k = "two" /\ (at(o.p) > 12 \/ at(o.q) > 12 \/ lean(o.p) > 4 \/ lean(o.q) > 4
                                                        \/ ~PNear(<< (o.p[1] + o.q[1]) \div 2, (o.p[2] + o.q[2]) \div 2 >>, f, 12)
                                                        \/ PNear(o.p, o.q, 5)), "line and circle: points")
                                 \cup If(o.k = "two" /\ (o.fwd # 1 \/ Dot(o.q[1] - o.p[1], o.q[2] - o.p[2], p[2][1] - p[1][1], p[2][2] - p[1][2]) <= 0), "line and circle: order of the points")
              [] OTHER -> If(o.k # "none" /\ (at(o.p) > 120 \/ at(o.q) > 120), "line and circle: points"),
          tags |-> { "line and circle " \o case } ]

(* Two circles                                                               *)
V_CC(r) ==
    LET c == r.in.ps[1]  d == r.in.ps[2]  o == r.out  a == r.in.r  b == r.in.s
        dl == PD(c, d)
        gap(z) == Abs(dl - z)
        at(z) == Max2(Abs(PD(z, c) - a), Abs(PD(z, d) - b))
        case == IF dl = 0 THEN IF a = b THEN "over" ELSE "none"
                ELSE IF gap(a + b) <= 1 THEN "tan out" ELSE IF gap(Abs(a - b)) <= 1 THEN "tan in"
                ELSE IF gap(a + b) < 100 \/ gap(Abs(a - b)) < 100 \/ dl < 100 THEN "unsure"
                ELSE IF dl > a + b \/ dl < Abs(a - b) THEN "none" ELSE "two"
        \* the point of tangency, on the line of centres
        k == IF case = "tan out" \/ a > b THEN a ELSE -a
        z0 == << c[1] + DivSum(<< <<k, d[1] - c[1]>> >>, << <<dl>> >>), c[2] + DivSum(<< <<k, d[2] - c[2]>> >>, << <<dl>> >>) >>
    IN  [ bad |->
            CASE case \in {"none", "over"} -> If(o.k # case, "circles: reported as " \o o.k \o " but are " \o case)
              [] case \in {"tan out", "tan in"} ->
                    If(o.k \notin {"tan", "two"}, "circles: tangency missed")
                    \cup If(o.k = "tan" /\ ~PNear(o.p, z0, 20), "circles: tangent point")
                    \cup If(o.k = "two" /\ (PD(o.p, z0) > 8000 \/ PD(o.q, z0) > 8000 \/ at(o.p) > 12 \/ at(o.q) > 12), "circles: tangent point")
                    \cup If(o.k = "two" /\ dl = (IF case = "tan out" THEN a + b ELSE Abs(a - b)) /\ (c[1] = d[1] \/ c[2] = d[2]), "circles: exact tangency reported as two intersects")
              [] case = "two" -> If(o.k # "two", "circles: two intersects not reported")
                                 \cup If(o.k = "two" /\ (at(o.p) > 12 \/ at(o.q) > 12 \/ PNear(o.p, o.q, 20)), "circles: points")
              [] OTHER -> If(o.k \in {"tan", "two"} /\ (at(o.p) > 120 \/ at(o.q) > 120), "circles: points"),
          tags |-> { "circles " \o case } ]

(* Two segments, in both orders and all directions                           *)
LexLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Distinct(I, m) == { p \in I : ~\E q \in I : LexLess(q, p) /\ PNear(p, q, m) }
GapOf(s, t) ==      \* how far from tangent the two curves are
    IF s.g = 0 /\ t.g = 0 THEN U
    ELSE IF s.g = 0 THEN Abs(PD(Foot(s, t.c), t.c) - t.r)
    ELSE IF t.g = 0 THEN Abs(PD(Foot(t, s.c), s.c) - s.r)
    ELSE LET d == PD(s.c, t.c) IN Min2(Abs(d - s.r - t.r), Abs(d - Abs(s.r - t.r)))
OnBoth(s, t, p, m) == OnSeg(s, p, m) /\ OnSeg(t, p, m)
Rng(f) == { f[i] : i \in DOMAIN f }
Judge(s, t, o, nm) ==
    LET fz == Fuzzy(s, t) \/ Steep(s) > 20 \/ Steep(t) > 20
        gap == GapOf(s, t)
        sc == SameCircle(s, t)
        lines == s.g = 0 /\ t.g = 0
        tang == ~lines /\ ~sc /\ gap <= 2
        along == Along(s, t)
        nr == 3 + Steep(s) + Steep(t)
        m == 40 + Steep(s) + Steep(t)
        ends == EndsOn(s, t)
        iso == IF tang THEN ends \cup { p \in CritPts(s, t) : OnBoth(s, t, p, 3) } ELSE IF sc THEN ends ELSE ends \cup Hits(s, t, nr)
        pts == Distinct(iso, IF tang THEN 8000 ELSE 300)
        exact == \A z \in {s.a, s.b, t.a, t.b} : z[1] % 10000 = 0 /\ z[2] % 10000 = 0
        \* positions rounded to a unit are tangent, or end on the other segment, to within a unit only:
        \* the sweep test's tolerance is an area, on a large arc less than that
        vague == fz
                 \/ (~exact /\ (tang \/ (ends # {} /\ Max2(s.r, t.r) > 2 * U)))
                 \/ (~tang /\ ~sc /\ \E p \in CurvePts(s, t, 100) : OnBoth(s, t, p, 100)
                        /\ (~OnBoth(s, t, p, nr) \/ \E q \in {s.a, s.b, t.a, t.b} \ ends : PNear(p, q, 100)))
                 \/ (~tang /\ ~sc /\ ~lines /\ gap <= 100) \/ (\E p \in iso : ~tang /\ ~sc /\ ~along /\ SinAt(s, t, p) < U \div 50)
        ps == Rng(o.ps)
    IN  If(\E p \in ps : ~OnBoth(s, t, p, 2 * m), nm \o "reported point is not on both segments")
        \cup (IF vague THEN {}
              ELSE IF along
              THEN If(o.k # (IF lines THEN "lines" ELSE "arcs"), nm \o "overlap not reported")
                   \cup (IF o.k \in {"lines", "arcs"}
                         THEN LET cp == CommonPart(s, t) IN
                              If(~\A c \in cp : \E p \in ps : PNear(c, p, m), nm \o "overlap ends")
                              \cup If(PD(o.ps[1], t.a) > PD(o.ps[2], t.a), nm \o "overlap not ordered along the second segment")
                         ELSE {})
              ELSE LET n == Cardinality(pts)
                       want == IF n = 0 THEN "none" ELSE IF n = 1 THEN IF tang THEN "tan" ELSE "one" ELSE "two"
                   IN  If(o.k # want, nm \o want \o " expected, reported " \o o.k)
                       \cup If(o.k = want /\ ~\A p \in pts : \E q \in ps : PNear(p, q, IF tang THEN 8000 ELSE LocTol(s, t, p)), nm \o "intersect is elsewhere")
                       \cup If(o.k = "two" /\ PD(o.ps[1], t.a) > PD(o.ps[2], t.a) + 2, nm \o "two intersects not ordered along the second segment"))
V_SS(r) ==
    LET s == MkSeg(r.in.s[1], PosOf(r.in.s[2]))  t == MkSeg(r.in.t[1], PosOf(r.in.t[2]))
        rs == SegRev(s)  rt == SegRev(t)
        o == r.out.rs
        kind(z) == IF z.g = 0 THEN "line" ELSE "arc"
    IN  [ bad |-> Judge(s, t, o[1], "") \cup Judge(rs, t, o[2], "first reversed: ") \cup Judge(s, rt, o[3], "second reversed: ")
                  \cup Judge(rs, rt, o[4], "both reversed: ") \cup Judge(t, s, o[5], "swapped: ") \cup Judge(rt, s, o[6], "swapped, reversed: ")
                  \cup Judge(t, rs, o[7], "swapped, reversed: ") \cup Judge(rt, rs, o[8], "swapped, reversed: "),
          tags |-> { kind(s) \o " and " \o kind(t) \o " " \o o[1].k } ]

(* A segment of no length is a point                                         *)
V_Void(r) ==
    LET p == PosOf(r.in.s[1])  o == r.out
        t == MkSeg(r.in.t[1], PosOf(r.in.t[2]))
        d == SegDist(t, p)
        pt == << p[1], p[2], p[1], p[2] >>
        meet == d <= 3 + Steep(t)
        one(k) == LET w == o.ss.rs[k] IN
                  If(~meet /\ d > 200 /\ w.k # "none", "a segment of no length: intersect reported where there is none")
                  \cup If(w.k # "none" /\ \E i \in DOMAIN w.ps : ~PNear(w.ps[i], p, 200), "a segment of no length: intersect is elsewhere")
                  \cup If(meet /\ Abs(t.g) # 5000000 /\ w.k \notin {"one", "tan"}, "a segment of no length: contact not reported, " \o w.k)
    IN  [ bad |-> If(o.mid # p, "midpoint of a segment of no length")
                  \cup If(o.len # 0, "length of a segment of no length")
                  \cup If(o.box # pt \/ o.abox # pt, "box of a segment of no length")
                  \cup If(PosOf(o.us) # p \/ PosOf(o.sv) # p, "split of a segment of no length")
                  \cup If(\E i \in DOMAIN o.near : o.near[i] # p, "closest point of a segment of no length")
                  \cup UNION { one(k) : k \in DOMAIN o.ss.rs },
          tags |-> { "no length" } ]

Verdict(r) == CASE r.in.op = "void" -> V_Void(r)
                []  r.in.op = "seg" -> V_Seg(r)
                [] r.in.op = "help" -> V_Help(r)
                [] r.in.op = "ll" -> V_LL(r)
                [] r.in.op = "lc" -> V_LC(r)
                [] r.in.op = "cc" -> V_CC(r)
                [] r.in.op = "ss" -> V_SS(r)
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
