-------------------------------- MODULE TrOne --------------------------------
(***************************************************************************)
(* Queries about one polyline: winding (C11), closest point (C12), measures *)
(* (C13), clean-ups (C15), slices and views (C16), point at length and      *)
(* arcs to lines (C17), spatial indexes (C20).                              *)
(***************************************************************************)
EXTENDS TraceBase, Sampling

CONSTANT Prop
Rng(f) == { f[i] : i \in DOMAIN f }
Steep(s) == IF s.g = 0 \/ s.l = 0 THEN 0 ELSE DivSum(<< <<2, s.r>> >>, << <<s.l>> >>)   \* 1 unit at the ends moves the circle this much
SteepAll(ss) == IF ss = <<>> THEN 0 ELSE LET z == { Steep(ss[i]) : i \in DOMAIN ss } IN CHOOSE m \in z : \A k \in z : k <= m
HasArc(ss) == \E i \in DOMAIN ss : ss[i].g # 0
Kinds(pl, ss) == { (IF pl.c = 1 THEN "closed" ELSE "open") } \cup If(HasArc(ss), "arcs") \cup If(ss = <<>>, "no segments")

-----------------------------------------------------------------------------
V_C11(r) ==
    LET one(k) == LET pl == r.in.vs[k]  ss == Segs(pl) IN
            { i \in DOMAIN r.in.qs :
                /\ ClearOf(ss, r.in.qs[i], 30)
                /\ r.out.ws[k][i] # (IF pl.c = 1 THEN Wind(ss, r.in.qs[i]) ELSE 0) }
        mags == { Abs(r.out.ws[1][i]) : i \in DOMAIN r.in.qs }
    IN  [ bad |-> UNION { If(one(k) # {}, "winding number in form " \o ToString(k)) : k \in DOMAIN r.in.vs },
          tags |-> Kinds(r.in.vs[1], Segs(r.in.vs[1])) \cup If(1 \in mags, "inside") \cup If(\E m \in mags : m > 1, "several turns") ]

-----------------------------------------------------------------------------
V_C12(r) ==
    LET ss == Segs(r.in.p)
        n == Len(r.in.p.v)
        tol == 8 + 2 * SteepAll(ss)
        one(k) ==
            LET q == r.in.qs[k]  o == r.out.rs[k] IN
            IF n = 0 THEN If(o.i # 0, "closest point on an empty polyline")
            ELSE IF o.i = 0 THEN {"no closest point"}
            ELSE IF ss = <<>>
            THEN If(o.i # 1 \/ ~PNear(o.p, PosOf(r.in.p.v[1]), 0) \/ Abs(o.d - PD(q, PosOf(r.in.p.v[1]))) > 2, "single vertex is not the closest point")
            ELSE IF o.i \notin DOMAIN ss THEN {"segment index out of range"}
            ELSE If(~OnSeg(ss[o.i], o.p, tol), "closest point is not on the segment named")
                 \cup If(Abs(o.d - PD(q, o.p)) > 3, "distance is not the distance to the point")
                 \cup If(o.d > MinDist(ss, q) + tol, "a nearer point exists")
    IN  [ bad |-> UNION { one(k) : k \in DOMAIN r.in.qs }, tags |-> Kinds(r.in.p, ss) ]

-----------------------------------------------------------------------------
BoxOf(ss) == << CHOOSE x \in { SegBox(ss[i])[1] : i \in DOMAIN ss } : \A i \in DOMAIN ss : x <= SegBox(ss[i])[1],
                CHOOSE x \in { SegBox(ss[i])[2] : i \in DOMAIN ss } : \A i \in DOMAIN ss : x <= SegBox(ss[i])[2],
                CHOOSE x \in { SegBox(ss[i])[3] : i \in DOMAIN ss } : \A i \in DOMAIN ss : x >= SegBox(ss[i])[3],
                CHOOSE x \in { SegBox(ss[i])[4] : i \in DOMAIN ss } : \A i \in DOMAIN ss : x >= SegBox(ss[i])[4] >>
SameBox(a, b, tol) == \A i \in 1..4 : Abs(a[i] - b[i]) <= tol
(* rounding of the radius and of the angle in the lens areas                *)
RECURSIVE AreaTol(_, _)
AreaTol(ss, i) == IF i = 0 THEN 100
    ELSE 12 + (IF ss[i].g = 0 THEN 0 ELSE 8 * (ss[i].r \div U) + DivSum(<< <<8, ss[i].r, ss[i].r>> >>, << <<G, U>> >>)
                    + DivSum(<< <<2, SegLen(ss[i])>> >>, << <<U>> >>) * 4) + AreaTol(ss, i - 1)
RECURSIVE LenTol(_, _)
LenTol(ss, i) == IF i = 0 THEN 10 ELSE 3 + 3 * Steep(ss[i]) + LenTol(ss, i - 1)
V_C13(r) ==
    LET one(k) ==
            LET pl == r.in.vs[k]  ss == Segs(pl)  m == r.out.ms[k]
                a == IF pl.c = 1 THEN Area2(ss) ELSE 0
                at == AreaTol(ss, Len(ss))
            IN  If(Abs(m.len - PathLen(ss)) > LenTol(ss, Len(ss)), "path length")
                \cup If(pl.c = 0 /\ m.area2 # 0, "area of an open polyline")
                \cup If(Abs(m.area2 - a) > at, "area")
                \cup If(pl.c = 0 /\ m.ori # "open", "orientation of an open polyline")
                \cup If(pl.c = 1 /\ ((a > at /\ m.ori # "ccw") \/ (a < -at /\ m.ori # "cw") \/ m.ori = "open"), "orientation")
                \cup (IF ss = <<>> THEN If(m.ext # <<>>, "extents without segments")
                      ELSE IF m.ext = <<>> THEN {"no extents"}
                      ELSE If(~SameBox(m.ext, BoxOf(ss), 6 + 2 * SteepAll(ss)), "extents"))
    IN  [ bad |-> UNION { { e \o ", form " \o ToString(k) : e \in one(k) } : k \in DOMAIN r.in.vs },
          tags |-> Kinds(r.in.vs[1], Segs(r.in.vs[1])) \cup { r.out.ms[1].ori } ]

-----------------------------------------------------------------------------
(* C15.  Positions up to Same apart are equal, from Differ on they are not.  *)
Same == 6
Differ == 30
Apart2(p, q) == Max2(Abs(p[1] - q[1]), Abs(p[2] - q[2]))
Gap(pl) == { Apart2(PosOf(pl.v[i]), PosOf(pl.v[NextI(pl, i)])) :
               i \in { i \in DOMAIN pl.v : Len(pl.v) > 1 /\ (pl.c = 1 \/ i < Len(pl.v)) } }
HasRepeat(pl) == \E d \in Gap(pl) : d <= Same
Unsure(pl) == \E d \in Gap(pl) : d > Same /\ d < Differ
Solid(ss) == SelectSeq(ss, LAMBDA s : s.l > Differ)
(* result segments rs travel exactly the source segments ss: every result    *)
(* segment covers the next one or more source segments                      *)
RECURSIVE Covered(_, _, _, _, _)
Covered(ss, i, rs, k, tol) ==
    IF k > Len(rs) THEN i > Len(ss)
    ELSE \E m \in 1..(Len(ss) - i + 1) :
           /\ PNear(ss[i + m - 1].b, rs[k].b, tol)
           /\ \A j \in i..(i + m - 1) : OnSeg(rs[k], Mid(ss[j]), tol + 3 * Steep(rs[k])) /\ OnSeg(rs[k], ss[j].b, tol + 3 * Steep(rs[k]))
           /\ Abs(PathLen(SubSeq(ss, i, i + m - 1)) - SegLen(rs[k])) <= 10 * tol + 6 * Steep(rs[k])
           /\ Covered(ss, i + m, rs, k + 1, tol)
Turned(ss, o) == SubSeq(ss, o + 1, Len(ss)) \o SubSeq(ss, 1, o)
SamePath(ss, rs, closed, tol) ==
    IF rs = <<>> \/ ss = <<>> THEN rs = ss
    ELSE \E o \in 0..(IF closed THEN Len(ss) - 1 ELSE 0) :
            PNear(ss[o + 1].a, rs[1].a, tol) /\ Covered(Turned(ss, o), 1, rs, 1, tol)

Pi4 == 785398163   \* pi/4
(* is the vertex between s and t (t follows s) certainly / possibly redundant *)
Forward(s, t) == Dot(s.b[1] - s.a[1], s.b[2] - s.a[2], t.b[1] - t.a[1], t.b[2] - t.a[2]) > 0
OffLine(s, t) == LET len == PD(s.a, t.b) IN
    IF len = 0 THEN 0 ELSE Abs(DivSum(<< <<t.b[1] - s.a[1], s.b[2] - s.a[2]>>, <<s.a[2] - t.b[2], s.b[1] - s.a[1]>> >>, << <<len>> >>))
Quarter2(s, t) == Atan(Abs(s.g)) + Atan(Abs(t.g))
Surely(s, t) ==
    \/ s.g = 0 /\ t.g = 0 /\ Forward(s, t) /\ OffLine(s, t) <= 1 /\ PD(s.a, t.b) <= 6 * U
    \/ /\ s.g # 0 /\ t.g # 0 /\ Sgn(s.g) = Sgn(t.g) /\ PNear(s.c, t.c, 2) /\ Abs(s.r - t.r) <= 2
       /\ Quarter2(s, t) <= Pi4 + 2
Maybe(s, t) ==
    \/ s.g = 0 /\ t.g = 0 /\ Forward(s, t) /\ OffLine(s, t) <= 20
    \/ LET z == 30 + 2 * Steep(s) + 2 * Steep(t) IN
       /\ s.g # 0 /\ t.g # 0 /\ Sgn(s.g) = Sgn(t.g) /\ PNear(s.c, t.c, z) /\ Abs(s.r - t.r) <= z
       /\ Quarter2(s, t) <= Pi4 + 200000
Corner(pl, ss) == { i \in DOMAIN ss : Len(ss) > 1 /\ (pl.c = 1 \/ i < Len(ss)) }
After(ss, i) == ss[IF i = Len(ss) THEN 1 ELSE i + 1]
SurelyRedundant(pl) == LET ss == Segs(pl) IN
    Len(pl.v) >= 2 /\ (HasRepeat(pl) \/ (Len(pl.v) > 2 /\ \E i \in Corner(pl, ss) : Surely(ss[i], After(ss, i))))
MaybeRedundant(pl) == LET ss == Segs(pl) IN
    Len(pl.v) >= 2 /\ (HasRepeat(pl) \/ Unsure(pl) \/ (Len(pl.v) > 2 /\ \E i \in Corner(pl, ss) : Maybe(ss[i], After(ss, i))))

V_C15(r) ==
    LET pl == r.in.p
        o == r.out
        n == Len(pl.v)
        ss == Solid(Segs(pl))
        rp == o.rp.pl   rr == o.rr.pl
        ps == Segs(rp)  rs == Segs(rr)
        endsKept(q) == IF pl.c = 1 \/ n = 0 THEN TRUE
                       ELSE Len(q.v) > 0 /\ PNear(PosOf(q.v[1]), PosOf(pl.v[1]), Same) /\ PNear(PosOf(q.v[Len(q.v)]), PosOf(pl.v[n]), 2 * Same)
    IN  [ bad |->
            (IF Unsure(pl) THEN {}
             ELSE If(HasRepeat(pl) # (o.rp.some = 1), "repeat positions: changed/unchanged misreported")
                  \cup If(o.rp2 = 1, "repeat positions: more to remove afterwards"))
            \cup (IF o.rp.some = 0 THEN {}
                  ELSE If(rp.c # pl.c, "repeat positions: closed flag changed")
                       \cup If(rp.v = <<>>, "repeat positions: every vertex removed")
                       \cup If(Len(rp.v) >= n, "repeat positions: nothing removed")
                       \cup If(~Unsure(pl) /\ HasRepeat(rp), "repeat positions: repeats left")
                       \cup If(~SamePath(ss, Solid(ps), FALSE, 12), "repeat positions: path changed")
                       \cup If(~endsKept(rp), "repeat positions: end moved"))
            \cup If(o.rr.some = 0 /\ SurelyRedundant(pl), "redundant vertexes: some left")
            \cup If(o.rr.some = 1 /\ ~MaybeRedundant(pl), "redundant vertexes: none needed removing")
            \cup (IF o.rr.some = 0 THEN {}
                  ELSE If(rr.c # pl.c, "redundant vertexes: closed flag changed")
                       \cup If(rr.v = <<>>, "redundant vertexes: every vertex removed")
                       \cup If(Len(rr.v) >= n, "redundant vertexes: nothing removed")
                       \cup If(SurelyRedundant(rr) \/ (o.rr2 = 1 /\ ~MaybeRedundant(rr)), "redundant vertexes: more to remove afterwards")
                       \cup If(~SamePath(ss, Solid(rs), pl.c = 1, 40), "redundant vertexes: path changed")
                       \cup If(\E i \in DOMAIN rs : Abs(rs[i].g) > G /\ Abs(rs[i].g) > G + 10000 + DivSum(<< <<10, G>> >>, << <<Max2(1, rs[i].r)>> >>), "redundant vertexes: more than half a turn")
                       \cup If(~endsKept(rr), "redundant vertexes: end moved")),
          tags |-> Kinds(pl, ss) \cup If(o.rp.some = 1, "repeats removed") \cup If(o.rr.some = 1, "redundant removed")
                   \cup If(o.rr.some = 0, "nothing redundant") \cup If(Unsure(pl), "unsure") ]

-----------------------------------------------------------------------------
(* C16.  The part of a segment from k/4 to m/4 of the way                    *)
Part(s, k, m, p, q) ==
    LET d == m - k
        h == HalfG(s.g)
        qq == HalfG(h)
        g == IF s.g = 0 THEN 0
             ELSE CASE d = 4 -> s.g [] d = 2 -> h [] d = 1 -> qq
                    [] d = 3 -> DivSum(<< <<h, G, G>>, <<qq, G, G>> >>, << <<G, G>>, <<-h, qq>> >>)
                    [] OTHER -> 0
    IN  IF d <= 0 THEN <<>> ELSE << MkSeg(<<p[1], p[2], g>>, q) >>
Before(a, b) == a.i < b.i \/ (a.i = b.i /\ a.k < b.k)
SubPath(ss, closed, a, b) ==     \* from cut a to cut b
    IF a.i = b.i /\ a.k < b.k THEN Part(ss[a.i], a.k, b.k, a.p, b.p)
    ELSE LET head == Part(ss[a.i], a.k, 4, a.p, ss[a.i].b)
             tail == Part(ss[b.i], 0, b.k, ss[b.i].a, b.p)
             mid == IF a.i < b.i THEN SubSeq(ss, a.i + 1, b.i - 1)
                    ELSE SubSeq(ss, a.i + 1, Len(ss)) \o SubSeq(ss, 1, b.i - 1)
         IN  head \o mid \o tail
EndCut(pl, ss) == [i |-> Len(ss), k |-> 4, p |-> ss[Len(ss)].b]
PathEq(ws, es) ==
    LET w == SelectSeq(ws, LAMBDA s : s.l > 20) IN
    /\ Len(w) = Len(es)
    /\ \A i \in DOMAIN es : /\ PNear(w[i].a, es[i].a, 12) /\ PNear(w[i].b, es[i].b, 12)
                            /\ PNear(Mid(w[i]), Mid(es[i]), 15) /\ Sgn(w[i].g) = Sgn(es[i].g)
SegsOfV(v) == Segs([c |-> 0, v |-> v])
Backward(es) == [i \in DOMAIN es |-> SegRev(es[Len(es) + 1 - i])]
ViewBad(v, want, nm) ==
    IF v.some = 0 THEN {nm \o ": no view"}
    ELSE IF v.valid = 0 THEN {nm \o ": view not valid"}
    ELSE If(v.same # 1, nm \o ": ways of reading the view disagree")
         \cup If(v.v # <<>> /\ v.v[Len(v.v)][3] # 0, nm \o ": last vertex carries a bulge")
         \cup If(~PathEq(SegsOfV(v.v), want), nm \o ": wrong part of the path")
V_C16(r) ==
    LET pl == r.in.p
        ss == Segs(pl)
        cl == pl.c = 1
        short == \E i \in DOMAIN ss : ss[i].l < 4000
        one(k) ==
            LET c == r.in.cuts[k]
                a == c[1]   b == c[2]
                o == r.out.cuts[k]
                same == PNear(a.p, b.p, 20)
                sub == SubPath(ss, cl, a, b)
                whole == SubPath(ss, TRUE, a, a)
                rest == SubPath(ss, FALSE, a, EndCut(pl, ss))
                atEnd == ~cl /\ a.i = Len(ss) /\ a.k = 4
            IN  (IF same THEN {}
                 ELSE ViewBad(o.f, sub, "slice") \cup ViewBad(o.r, Backward(sub), "inverted slice"))
                \cup (IF cl THEN ViewBad(o.sf, whole, "new start") \cup ViewBad(o.sr, Backward(whole), "inverted new start")
                            \cup (IF o.rot.some = 0 THEN {"start not rotated"}
                                  ELSE If(o.rot.pl.c # 1, "rotated polyline is not closed")
                                       \cup If(~PNear(PosOf(o.rot.pl.v[1]), a.p, 12), "rotated start is elsewhere")
                                       \cup If(~PathEq(Segs(o.rot.pl), whole), "rotation changes the path"))
                      ELSE (IF atEnd THEN If(o.sf.some = 1, "new start at the very end")
                            ELSE ViewBad(o.sf, rest, "new start") \cup ViewBad(o.sr, Backward(rest), "inverted new start"))
                           \cup If(o.rot.some = 1, "open polyline rotated"))
                \cup { "invalid data not reported: " \o w.k : w \in
                         { w \in Rng(o.wrong) :
                            LET es == ss[IF cl THEN ((w.si + w.eo - 1) % Len(pl.v)) + 1 ELSE Min2(w.si + w.eo, Len(ss))] IN
                            CASE w.k = "start" -> ~OnSeg(ss[w.si], w.sp, 3000) /\ w.r # "start"
                              [] w.k = "end" -> (cl \/ w.si + w.eo <= Len(ss)) /\ ~OnSeg(es, w.ep, 3000) /\ w.r # "end"
                              [] w.k = "bulge" -> w.eo = 0 /\ w.r # "bulge"
                              [] w.k = "endvertex" -> (cl \/ w.si + w.eo <= Len(ss)) /\ w.r # "endvertex"
                              [] OTHER -> w.r # w.k } }
    IN  [ bad |-> If(r.out.none # "nosegs", "slice of nothing is not reported")
                  \cup If(r.out.rotbad # 1, "rotated to a vertex that does not exist")
                  \cup (IF short THEN {}
                        ELSE (IF ss = <<>> THEN {} ELSE ViewBad(r.out.all.f, ss, "entire view") \cup ViewBad(r.out.all.r, Backward(ss), "inverted entire view"))
                             \cup UNION { one(k) : k \in DOMAIN r.in.cuts }),
          tags |-> Kinds(pl, ss) \cup If(short, "short segments") ]

-----------------------------------------------------------------------------
(* C17.  The point n/d of the way along an arc, by halving                   *)
RECURSIVE FracPt(_, _, _, _, _)
FracPt(a, b, g, f, depth) ==    \* f: fraction in units of 1/G
    IF depth = 0 \/ g = 0
    THEN << a[1] + DivSum(<< <<b[1] - a[1], f>> >>, << <<G>> >>), a[2] + DivSum(<< <<b[2] - a[2], f>> >>, << <<G>> >>) >>
    ELSE LET m == << DivSum(<< <<a[1] + b[1], G>>, <<b[2] - a[2], g>> >>, << <<2, G>> >>),
                     DivSum(<< <<a[2] + b[2], G>>, <<a[1] - b[1], g>> >>, << <<2, G>> >>) >>
             h == HalfG(g)
         IN  IF f <= G \div 2 THEN FracPt(a, m, h, 2 * f, depth - 1) ELSE FracPt(m, b, h, 2 * (f - G \div 2), depth - 1)
AtLength(s, t) == IF s.l = 0 THEN s.a ELSE FracPt(s.a, s.b, s.g, DivSum(<< <<t, G>> >>, << <<SegLen(s)>> >>), 12)
RECURSIVE Pre(_, _)
Pre(ss, i) == IF i = 0 THEN 0 ELSE SegLen(ss[i]) + Pre(ss, i - 1)

(* the lines from result vertex j on replace the source segments from i on   *)
Sag(s, u, v) == IF s.g = 0 THEN 0
                ELSE Abs(s.r - PD(s.c, << (u[1] + v[1]) \div 2, (u[2] + v[2]) \div 2 >>))
RECURSIVE Follows(_, _, _, _, _)
Follows(ss, i, q, j, e) ==     \* q: result positions (with the start again at the end when closed)
    IF i > Len(ss) THEN j = Len(q)
    ELSE LET s == ss[i]
             tol == 8 + 2 * Steep(s)
             hit == { k \in (j + 1)..Len(q) : PNear(q[k], s.b, 3) }
         IN  IF hit = {} THEN FALSE
             ELSE LET k == CHOOSE k \in hit : \A m \in hit : k <= m IN
                  /\ PNear(q[j], s.a, 3)
                  /\ IF s.g = 0 THEN k = j + 1
                     ELSE /\ \A m \in j..k : OnSeg(s, q[m], tol)
                          /\ \A m \in j..(k - 1) :
                               /\ Sag(s, q[m], q[m + 1]) <= e + tol
                               /\ Sgn(s.g) * Cross(q[m][1] - s.c[1], q[m][2] - s.c[2], q[m + 1][1] - s.c[1], q[m + 1][2] - s.c[2]) >= (IF k = j + 1 THEN -1 ELSE 0)
                  /\ Follows(ss, i + 1, q, k, e)
V_C17(r) ==
    LET pl == r.in.p
        ss == Segs(pl)
        total == PathLen(ss)
        lt == LenTol(ss, Len(ss)) + 20
        pos(v) == [i \in DOMAIN v |-> PosOf(v[i])]
        find(k) ==
            LET t == r.in.ts[k]  o == r.out.ts[k] IN
            IF Len(pl.v) = 0 THEN {}
            ELSE IF t <= 0 THEN If(o.ok # 1 \/ o.i # 1 \/ ~PNear(o.p, PosOf(pl.v[1]), 1), "start not returned for length 0")
            ELSE IF t > total + lt THEN If(o.ok # 0 \/ Abs(o.l - total) > lt, "total length not reported past the end")
            ELSE IF t > total - lt THEN {}
            ELSE IF o.ok # 1 \/ o.i \notin DOMAIN ss THEN {"no point for a length within the total"}
            ELSE LET s == ss[o.i]  before == Pre(ss, o.i - 1) IN
                 If(~OnSeg(s, o.p, 10 + 2 * Steep(s)), "point is not on the segment named")
                 \cup If(t < before - lt \/ t > before + SegLen(s) + lt, "wrong segment")
                 \cup If(~PNear(o.p, AtLength(s, Max2(0, Min2(SegLen(s), t - before))), lt + 10), "point is not at the length")
        lines(k) ==
            LET e == r.in.errs[k]  o == r.out.lines[k]
                q0 == pos(o.pl.v)
                q == IF pl.c = 1 /\ q0 # <<>> THEN Append(q0, q0[1]) ELSE q0
            IN  IF o.some = 0 THEN {"arcs not converted"}
                ELSE If(o.pl.c # pl.c, "conversion changes the closed flag")
                     \cup If(HasArc(Segs(o.pl)), "arcs left after conversion")
                     \cup (IF ss = <<>> THEN If(Len(q0) # Len(pl.v) \/ \E i \in DOMAIN q0 : q0[i] # PosOf(pl.v[i]), "conversion loses vertexes")
                           ELSE IF q = <<>> THEN {"conversion loses vertexes"}
                           ELSE If(~Follows(ss, 1, q, 1, e), "lines do not follow the path"))
    IN  [ bad |-> UNION { find(k) : k \in DOMAIN r.in.ts } \cup UNION { lines(k) : k \in DOMAIN r.in.errs },
          tags |-> Kinds(pl, ss) \cup If(\E k \in DOMAIN r.out.lines : Len(r.out.lines[k].pl.v) > Len(pl.v), "arcs subdivided") ]

-----------------------------------------------------------------------------
V_C20(r) ==
    LET ss == Segs(r.in.p)
        o == r.out
        within(b, w, tol) == w[1] <= b[1] + tol /\ w[2] <= b[2] + tol /\ w[3] >= b[3] - tol /\ w[4] >= b[4] - tol
    IN  [ bad |-> If(Len(o.exact) # Len(ss) \/ Len(o.approx) # Len(ss), "index does not have one box per segment")
                  \cup (IF Len(o.exact) # Len(ss) \/ Len(o.approx) # Len(ss) THEN {}
                        ELSE If(\E i \in DOMAIN ss : ~SameBox(o.exact[i], SegBox(ss[i]), 6 + 2 * Steep(ss[i])), "box is not the tight box of its segment")
                             \cup If(\E i \in DOMAIN ss : ~within(SegBox(ss[i]), o.approx[i], 4 + 2 * Steep(ss[i])), "approximate box does not hold its segment"))
                  \cup If(o.finds # 1, "index does not find its own segments")
                  \cup If(\E k \in DOMAIN o.offs : o.offs[k] # 1, "offset depends on the index")
                  \cup If(\E k \in DOMAIN o.bools : o.bools[k] # 1, "boolean depends on the index"),
          tags |-> Kinds(r.in.p, ss) \cup If(o.bools # <<>>, "operations compared") ]

-----------------------------------------------------------------------------
Verdict(r) == CASE Prop = "C11" -> V_C11(r) [] Prop = "C12" -> V_C12(r) [] Prop = "C13" -> V_C13(r)
                [] Prop = "C15" -> V_C15(r) [] Prop = "C16" -> V_C16(r) [] Prop = "C17" -> V_C17(r)
                [] Prop = "C20" -> V_C20(r)
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
