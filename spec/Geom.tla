-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Fixed-point plane geometry of polylines made of line and arc segments.   *)
(*                                                                          *)
(* Coordinates and lengths are integers in units of 1/U; bulges are         *)
(* integers in units of 1/G.  A vertex is <<x, y, bulge>>; a polyline is    *)
(* [c |-> 0 or 1 (closed), v |-> sequence of vertexes].  The bulge of a     *)
(* vertex is tan(sweep/4) of the segment that starts there, positive when   *)
(* that arc turns counter-clockwise; |bulge| <= 1.                          *)
(***************************************************************************)
EXTENDS Fix, FiniteSets, TLC

U == 1000000
G == 1000000000

(* addition that saturates *)
Plus(a, b) == DivSum(<< <<a>>, <<b>> >>, << <<1>> >>)
Cross(ax, ay, bx, by) == SgnSum(<< <<ax, by>>, <<-ay, bx>> >>)
Dot(ax, ay, bx, by)   == SgnSum(<< <<ax, bx>>, <<ay, by>> >>)
Hyp(dx, dy) == SqrtSum(<< <<dx, dx>>, <<dy, dy>> >>)
PD(p, q) == Hyp(p[1] - q[1], p[2] - q[2])
(* points within eps of each other                                          *)
PNear(p, q, eps) == /\ Abs(p[1] - q[1]) <= eps
                    /\ Abs(p[2] - q[2]) <= eps
Orient(a, b, p) == Cross(b[1] - a[1], b[2] - a[2], p[1] - a[1], p[2] - a[2])

-----------------------------------------------------------------------------
(* Segments                                                                 *)

ArcC(a, b, g) ==
    << DivSum(<< <<a[1] + b[1], 2, g, G>>, <<a[2] - b[2], G - g, G + g>> >>, << <<4, g, G>> >>),
       DivSum(<< <<a[2] + b[2], 2, g, G>>, <<b[1] - a[1], G - g, G + g>> >>, << <<4, g, G>> >>) >>

MkSeg(v, w) ==
    LET g == IF Abs(v[3]) < 10 THEN 0 ELSE v[3]
        a == <<v[1], v[2]>>
        b == <<w[1], w[2]>>
        l == PD(a, b)
        s == IF g = 0 THEN 0 ELSE DivSum(<< <<l, Abs(g)>> >>, << <<2, G>> >>)
        c == IF g = 0 THEN a ELSE ArcC(a, b, g)
        \* (of a shallow arc a rounded length is magnified)
        r == IF g = 0 THEN 0
             ELSE IF Abs(g) < G \div 4 THEN PD(a, c)
             ELSE DivSum(<< <<l, G, G>>, <<l, g, g>> >>, << <<4, Abs(g), G>> >>)
    IN  TLCEval([ a |-> a, b |-> b, g |-> g, l |-> l, c |-> c, r |-> r,
          x0 |-> Min2(a[1], b[1]) - s, y0 |-> Min2(a[2], b[2]) - s,
          x1 |-> Max2(a[1], b[1]) + s, y1 |-> Max2(a[2], b[2]) + s ])

NSegs(pl) == IF Len(pl.v) < 2 THEN 0 ELSE IF pl.c = 1 THEN Len(pl.v) ELSE Len(pl.v) - 1
NextI(pl, i) == IF i = Len(pl.v) THEN 1 ELSE i + 1
Segs(pl) == TLCEval([i \in 1..NSegs(pl) |-> MkSeg(pl.v[i], pl.v[NextI(pl, i)])])
SegRev(s) == [s EXCEPT !.a = s.b, !.b = s.a, !.g = -s.g]

(* p, not the centre, projects radially into the arc's sweep                *)
InWedge(s, p) ==
    LET cx == s.c[1]  cy == s.c[2]
        u  == Cross(s.a[1] - cx, s.a[2] - cy, p[1] - cx, p[2] - cy)
        w  == Cross(p[1] - cx, p[2] - cy, s.b[1] - cx, s.b[2] - cy)
    IN  IF s.g > 0 THEN u >= 0 /\ w >= 0 ELSE u <= 0 /\ w <= 0

(* distance from a point to a segment                                       *)
SegDist(s, p) ==
    IF s.g = 0
    THEN LET dx == s.b[1] - s.a[1]  dy == s.b[2] - s.a[2]
             ex == p[1] - s.a[1]    ey == p[2] - s.a[2]
         IN  IF s.l = 0 \/ Dot(dx, dy, ex, ey) <= 0 THEN Hyp(ex, ey)
             ELSE IF Dot(dx, dy, s.b[1] - p[1], s.b[2] - p[2]) <= 0 THEN PD(p, s.b)
             ELSE Abs(DivSum(<< <<dx, ey>>, <<-dy, ex>> >>, << <<s.l>> >>))
    ELSE IF InWedge(s, p) THEN Abs(PD(p, s.c) - s.r)
         ELSE Min2(PD(p, s.a), PD(p, s.b))

InBox(s, p, m) == /\ p[1] >= s.x0 - m /\ p[1] <= s.x1 + m
                  /\ p[2] >= s.y0 - m /\ p[2] <= s.y1 + m
BoxesMeet(s, t, m) == /\ s.x0 - m <= t.x1 /\ t.x0 - m <= s.x1
                      /\ s.y0 - m <= t.y1 /\ t.y0 - m <= s.y1

OnSeg(s, p, eps) == InBox(s, p, eps) /\ SegDist(s, p) <= eps

(* p is within eps of / farther than m from a sequence of segments          *)
OnPath(ss, p, eps) == \E i \in DOMAIN ss : OnSeg(ss[i], p, eps)
ClearOf(ss, p, m)  == \A i \in DOMAIN ss : ~OnSeg(ss[i], p, m)

RECURSIVE MinDistR(_, _, _, _)
MinDistR(ss, p, i, m) ==
    IF i = 0 THEN m
    ELSE IF InBox(ss[i], p, m) THEN MinDistR(ss, p, i - 1, Min2(m, SegDist(ss[i], p)))
    ELSE MinDistR(ss, p, i - 1, m)
MinDist(ss, p) == MinDistR(ss, p, Len(ss), MaxInt \div 4)

(* midpoint, and points along a segment.  Points of an arc are found by      *)
(* halving: the half arcs have the same circle.                             *)
Mid(s) ==
    LET mx == (s.a[1] + s.b[1]) \div 2
        my == (s.a[2] + s.b[2]) \div 2
    IN  IF s.g = 0 THEN <<mx, my>>
        ELSE << DivSum(<< <<s.a[1] + s.b[1], G>>, <<s.b[2] - s.a[2], s.g>> >>, << <<2, G>> >>),
                DivSum(<< <<s.a[2] + s.b[2], G>>, <<s.a[1] - s.b[1], s.g>> >>, << <<2, G>> >>) >>
(* bulge of half the sweep: tan(x/2) = (sqrt(1+t^2)-1)/t                    *)
HalfG(g) == IF g = 0 THEN 0
            ELSE LET h == SqrtSum(<< <<G, G>>, <<g, g>> >>)
                 IN  DivSum(<< <<g, G>> >>, << <<G>>, <<h>> >>)
Halve(s) == LET m == Mid(s)
                h == HalfG(s.g)
            IN  << MkSeg(<<s.a[1], s.a[2], h>>, m), MkSeg(<<m[1], m[2], h>>, s.b) >>
(* interior sample points of a segment: 1, 3 or 7 of them                   *)
Samples1(s) == { Mid(s) }
Samples3(s) == LET hh == Halve(s) IN { Mid(s), Mid(hh[1]), Mid(hh[2]) }

-----------------------------------------------------------------------------
(* Winding number of closed polyline segments around p (p off the path):    *)
(* crossings of the chords, plus one turn for every arc whose circular      *)
(* segment (between chord and arc) holds p.                                 *)

(* A point exactly on a chord is taken to lie beside it, displaced by an     *)
(* infinitesimal step right and a smaller one up, as ChordTurn does.        *)
ChordSide(s, p) ==
    LET o == Orient(s.a, s.b, p) IN
    IF o # 0 THEN o
    ELSE IF s.b[2] > s.a[2] THEN -1
    ELSE IF s.b[2] < s.a[2] THEN 1
    ELSE IF s.b[1] > s.a[1] THEN 1 ELSE -1
InLens(s, p) ==
    /\ s.g # 0
    /\ InBox(s, p, 0)
    /\ ChordSide(s, p) = -Sgn(s.g)
    /\ SgnSum(<< <<p[1] - s.c[1], p[1] - s.c[1]>>, <<p[2] - s.c[2], p[2] - s.c[2]>>,
                 <<-s.r, s.r>> >>) < 0

ChordTurn(s, p) ==
    IF s.a[2] <= p[2]
    THEN IF s.b[2] > p[2] /\ Orient(s.a, s.b, p) > 0 THEN 1 ELSE 0
    ELSE IF s.b[2] <= p[2] /\ Orient(s.a, s.b, p) < 0 THEN -1 ELSE 0
(* outside the segment's box the turn is known from the ends alone          *)
SegTurn(s, p) ==
    IF p[2] > s.y1 \/ p[1] > s.x1 \/ p[2] < s.y0 THEN 0
    ELSE IF p[1] < s.x0
    THEN IF s.a[2] <= p[2] THEN IF s.b[2] > p[2] THEN 1 ELSE 0
         ELSE IF s.b[2] <= p[2] THEN -1 ELSE 0
    ELSE ChordTurn(s, p) + (IF s.g # 0 /\ InLens(s, p) THEN Sgn(s.g) ELSE 0)

RECURSIVE WindR(_, _, _)
WindR(ss, p, i) == IF i = 0 THEN 0 ELSE SegTurn(ss[i], p) + WindR(ss, p, i - 1)
Wind(ss, p) == WindR(ss, p, Len(ss))

-----------------------------------------------------------------------------
(* Measures.  Angles are in units of 1/G radians.                           *)

(* atan of t/G for 0 <= t <= G: two half-angle steps, then the series       *)
AtanSmall(t) ==  \* t <= 0.2
    LET t2 == DivSum(<< <<t, t>> >>, << <<G>> >>)
        p3 == DivSum(<< <<t, t2>> >>, << <<G>> >>)
        p5 == DivSum(<< <<p3, t2>> >>, << <<G>> >>)
        p7 == DivSum(<< <<p5, t2>> >>, << <<G>> >>)
        p9 == DivSum(<< <<p7, t2>> >>, << <<G>> >>)
        p11 == DivSum(<< <<p9, t2>> >>, << <<G>> >>)
    IN  t - DivSum(<< <<p3>> >>, << <<3>> >>) + DivSum(<< <<p5>> >>, << <<5>> >>)
          - DivSum(<< <<p7>> >>, << <<7>> >>) + DivSum(<< <<p9>> >>, << <<9>> >>)
          - DivSum(<< <<p11>> >>, << <<11>> >>)
Atan01(t) == 4 * AtanSmall(HalfG(HalfG(t)))
Atan(g) == IF g < 0 THEN -Atan01(-g) ELSE Atan01(g)

(* quarter of the arc's sweep is Atan(|g|), at most pi/4 * G < 2^31         *)
SegLen(s) == IF s.g = 0 THEN s.l
             ELSE DivSum(<< <<4, s.r, Atan(Abs(s.g))>> >>, << <<G>> >>)

RECURSIVE LenR(_, _)
LenR(ss, i) == IF i = 0 THEN 0 ELSE SegLen(ss[i]) + LenR(ss, i - 1)
PathLen(ss) == LenR(ss, Len(ss))

(* twice the signed area under the arc beyond its chord, in units 1/U       *)
(* r^2 (theta - sin theta), sin theta = 4 b (1-b^2) / (1+b^2)^2             *)
(* for a shallow arc by its series, l^2 (2b/3 + 2b^3/15)                     *)
LensArea2(s) ==
    IF s.g = 0 THEN 0
    ELSE IF Abs(s.g) < G \div 25
    THEN LET k == DivSum(<< <<10, s.g, G, G>>, <<2, s.g, s.g, s.g>> >>, << <<15, G, G>> >>)
         IN  DivSum(<< <<s.l, s.l, k>> >>, << <<G, U>> >>)
    ELSE LET g  == Abs(s.g)
             q  == DivSum(<< <<G, G>> , <<g, g>> >>, << <<2, G>> >>) \* (1+b^2)/2
             sn == DivSum(<< <<g, G - g, G + g>> >>, << <<q, q>> >>) \* sin theta
         IN  Sgn(s.g) * DivSum(<< <<s.r, s.r, 4, Atan(g)>>, <<-s.r, s.r, sn>> >>, << <<G, U>> >>)
(* the chord's contribution, seen from o                                    *)
ChordArea2(s, o) == DivSum(<< <<s.a[1] - o[1], s.b[2] - o[2]>>, <<o[2] - s.a[2], s.b[1] - o[1]>> >>, << <<U>> >>)
RECURSIVE Area2R(_, _, _)
Area2R(ss, o, i) == IF i = 0 THEN 0 ELSE ChordArea2(ss[i], o) + LensArea2(ss[i]) + Area2R(ss, o, i - 1)
(* twice the signed area of closed polyline segments, units 1/U             *)
Area2(ss) == IF ss = <<>> THEN 0 ELSE Area2R(ss, ss[1].a, Len(ss))

(* exact bounding box of a segment: the ends and the axis-extreme points    *)
SegBox(s) ==
    LET ex == IF s.g = 0 THEN {}
              ELSE { p \in { <<s.c[1] + s.r, s.c[2]>>, <<s.c[1] - s.r, s.c[2]>>,
                             <<s.c[1], s.c[2] + s.r>>, <<s.c[1], s.c[2] - s.r>> } : InWedge(s, p) }
        pts == ex \cup {s.a, s.b}
    IN  << CHOOSE x \in {p[1] : p \in pts} : \A p \in pts : x <= p[1],
           CHOOSE x \in {p[2] : p \in pts} : \A p \in pts : x <= p[2],
           CHOOSE x \in {p[1] : p \in pts} : \A p \in pts : x >= p[1],
           CHOOSE x \in {p[2] : p \in pts} : \A p \in pts : x >= p[2] >>

-----------------------------------------------------------------------------
(* Curve intersections: the points where the segments' curves (infinite     *)
(* line or whole circle) meet, in fixed point.                              *)

LineLinePts(s, t) ==
    LET rx == s.b[1] - s.a[1]  ry == s.b[2] - s.a[2]
        qx == t.b[1] - t.a[1]  qy == t.b[2] - t.a[2]
        wx == t.a[1] - s.a[1]  wy == t.a[2] - s.a[2]
        den == << <<rx, qy>>, <<-ry, qx>> >>
    IN  IF SgnSum(den) = 0 THEN {}
        ELSE { << Plus(s.a[1], DivSum(<< <<rx, wx, qy>>, <<-rx, wy, qx>> >>, den)),
                  Plus(s.a[2], DivSum(<< <<ry, wx, qy>>, <<-ry, wy, qx>> >>, den)) >> }

(* foot of the perpendicular from p on the line of s                        *)
Foot(s, p) ==
    LET rx == s.b[1] - s.a[1]  ry == s.b[2] - s.a[2]
        ex == p[1] - s.a[1]    ey == p[2] - s.a[2]
        den == << <<rx, rx>>, <<ry, ry>> >>
    IN  IF s.l = 0 THEN s.a
        ELSE << s.a[1] + DivSum(<< <<rx, ex, rx>>, <<rx, ey, ry>> >>, den),
                s.a[2] + DivSum(<< <<ry, ex, rx>>, <<ry, ey, ry>> >>, den) >>

(* tol: a gap this small between curves counts as tangent contact           *)
LineCirclePts(s, c, r, tol) ==
    LET f == Foot(s, c)
        h == PD(f, c)
    IN  IF s.l = 0 \/ h > r + tol THEN {}
        ELSE LET k == SqrtSum(<< <<r, r>>, <<-h, h>> >>)
                 dx == DivSum(<< <<k, s.b[1] - s.a[1]>> >>, << <<s.l>> >>)
                 dy == DivSum(<< <<k, s.b[2] - s.a[2]>> >>, << <<s.l>> >>)
             IN  { <<f[1] + dx, f[2] + dy>>, <<f[1] - dx, f[2] - dy>> }

CircleCirclePts(c1, r1, c2, r2, tol) ==
    LET ex == c2[1] - c1[1]  ey == c2[2] - c1[2]
        d == Hyp(ex, ey)
    IN  IF d <= tol \/ d > r1 + r2 + tol \/ d < Abs(r1 - r2) - tol THEN {}
        ELSE LET \* distance from c1 to the radical line
                 a == DivSum(<< <<r1, r1>>, <<-r2, r2>>, <<d, d>> >>, << <<2, d>> >>)
                 k == SqrtSum(<< <<r1, r1>>, <<-a, a>> >>)
                 mx == c1[1] + DivSum(<< <<a, ex>> >>, << <<d>> >>)
                 my == c1[2] + DivSum(<< <<a, ey>> >>, << <<d>> >>)
                 dx == DivSum(<< <<k, -ey>> >>, << <<d>> >>)
                 dy == DivSum(<< <<k, ex>> >>, << <<d>> >>)
             IN  { <<mx + dx, my + dy>>, <<mx - dx, my - dy>> }

CurvePts(s, t, tol) ==
    IF s.g = 0 /\ t.g = 0 THEN LineLinePts(s, t)
    ELSE IF s.g = 0 THEN LineCirclePts(s, t.c, t.r, tol)
    ELSE IF t.g = 0 THEN LineCirclePts(t, s.c, s.r, tol)
    ELSE CircleCirclePts(s.c, s.r, t.c, t.r, tol)

(* points common to both segments, to within tol                            *)
Hits(s, t, tol) ==
    IF ~BoxesMeet(s, t, tol) THEN {}
    ELSE { p \in CurvePts(s, t, tol) : OnSeg(s, p, tol) /\ OnSeg(t, p, tol) }

(* the points where the distance between two curves can be smallest without *)
(* an intersection and away from the segment ends                           *)
CritPts(s, t) ==
    IF s.g = 0 /\ t.g = 0 THEN {}
    ELSE IF s.g = 0 THEN { Foot(s, t.c) }
    ELSE IF t.g = 0 THEN { Foot(t, s.c) }
    ELSE LET ex == t.c[1] - s.c[1]  ey == t.c[2] - s.c[2]
             d == Hyp(ex, ey)
         IN  IF d < 100 THEN { Mid(s), Mid(t) }
             ELSE LET ux == DivSum(<< <<s.r, ex>> >>, << <<d>> >>)
                      uy == DivSum(<< <<s.r, ey>> >>, << <<d>> >>)
                  IN  { <<s.c[1] + ux, s.c[2] + uy>>, <<s.c[1] - ux, s.c[2] - uy>> }

(* every point where the two segments come within m of each other is near   *)
(* one of these                                                             *)
Contacts(s, t, m) ==
    IF ~BoxesMeet(s, t, m) THEN {}
    ELSE { p \in {s.a, s.b, t.a, t.b} \cup CurvePts(s, t, m) \cup CritPts(s, t) :
             OnSeg(s, p, m) /\ OnSeg(t, p, m) }

(* direction of travel at the start / end of a segment, scaled to length U  *)
Unit(dx, dy) == LET h == Hyp(dx, dy) IN
    IF h = 0 THEN <<0, 0>>
    ELSE << DivSum(<< <<dx, U>> >>, << <<h>> >>), DivSum(<< <<dy, U>> >>, << <<h>> >>) >>
TanAt(s, p) == IF s.g = 0 THEN Unit(s.b[1] - s.a[1], s.b[2] - s.a[2])
               ELSE IF s.g > 0 THEN Unit(s.c[2] - p[2], p[1] - s.c[1])
               ELSE Unit(p[2] - s.c[2], s.c[1] - p[1])

(* two segments do not come within m of each other                          *)
Apart(s, t, m) == Contacts(s, t, m) = {}
(* they only meet at the listed joints (points), and leave them at an angle *)
ApartBut(s, t, js, m) == \A p \in Contacts(s, t, m) : \E q \in js : PNear(p, q, 4 * m)
NoFoldAt(s, t, q) ==   \* s arrives at q, t leaves from q
    LET u == TanAt(s, q)  w == TanAt(t, q)
        x == DivSum(<< <<u[1], w[2]>>, <<-u[2], w[1]>> >>, << <<U>> >>)
    IN  Abs(x) > U \div 20 \/ Dot(u[1], u[2], w[1], w[2]) > 0

(* A robustly simple polyline: no two parts come within m of each other     *)
(* except consecutive segments at their joint, where they do not fold back. *)
SimpleSegs(ss, closed, m) ==
    LET n == Len(ss) IN
    /\ \A i \in 1..n : ss[i].l > 4 * m
    /\ \A i \in 1..n : \A j \in (i + 1)..n :
         LET nx == j = i + 1
             wr == closed /\ i = 1 /\ j = n
             js == (IF nx THEN {ss[i].b} ELSE {}) \cup (IF wr THEN {ss[i].a} ELSE {})
         IN  IF js = {} THEN Apart(ss[i], ss[j], m) ELSE ApartBut(ss[i], ss[j], js, m)
    /\ \A i \in 1..n : 
         IF i < n THEN NoFoldAt(ss[i], ss[i + 1], ss[i].b)
         ELSE ~closed \/ NoFoldAt(ss[n], ss[1], ss[n].b)
Simple(pl, m) == SimpleSegs(Segs(pl), pl.c = 1, m)

-----------------------------------------------------------------------------
(* Whole-polyline transformations                                           *)

RevPl(pl) ==
    LET n == Len(pl.v) IN
    [c |-> pl.c,
     v |-> TLCEval([i \in 1..n |->
             LET k == n + 1 - i             \* vertex now at i
                 p == IF k > 1 THEN k - 1 ELSE n   \* its segment was started by the previous one
             IN  << pl.v[k][1], pl.v[k][2],
                    IF pl.c = 0 /\ i = n THEN -pl.v[n][3] ELSE -pl.v[p][3] >>])]
RotPl(pl, k) == [c |-> pl.c, v |-> TLCEval([i \in 1..Len(pl.v) |-> pl.v[((i - 1 + k) % Len(pl.v)) + 1]])]
MovePl(pl, dx, dy) == [c |-> pl.c, v |-> TLCEval([i \in 1..Len(pl.v) |->
                          <<pl.v[i][1] + dx, pl.v[i][2] + dy, pl.v[i][3]>>])]
(* multiply the plane by the complex number (p + qi)/d                      *)
TurnPl(pl, p, q, d) == [c |-> pl.c, v |-> TLCEval([i \in 1..Len(pl.v) |->
      << DivSum(<< <<pl.v[i][1], p>>, <<-pl.v[i][2], q>> >>, << <<d>> >>),
         DivSum(<< <<pl.v[i][1], q>>, <<pl.v[i][2], p>> >>, << <<d>> >>), pl.v[i][3] >>])]

(* add a redundant vertex in the middle of segment i                        *)
SplitMid(pl, i) ==
    LET s == MkSeg(pl.v[i], pl.v[NextI(pl, i)])
        m == Mid(s)
        h == HalfG(s.g)
    IN  [c |-> pl.c, v |-> SubSeq(pl.v, 1, i - 1) \o << <<pl.v[i][1], pl.v[i][2], h>>, <<m[1], m[2], h>> >>
                           \o SubSeq(pl.v, i + 1, Len(pl.v))]

(* Positions                                                                *)
PosOf(v) == <<v[1], v[2]>>
AllIn(pl, lim) == \A i \in DOMAIN pl.v : Abs(pl.v[i][1]) <= lim /\ Abs(pl.v[i][2]) <= lim
-----------------------------------------------------------------------------
(* obligations: a set of the names of those broken                          *)
If(c, name) == IF c THEN {name} ELSE {}
=============================================================================
