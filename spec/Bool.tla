-------------------------------- MODULE Bool --------------------------------
(***************************************************************************)
(* Boolean operations: what a recorded (p, q) -> {or, and, not, xor} must   *)
(* satisfy.                                                                 *)
(***************************************************************************)
EXTENDS Sampling

Tol == 120          \* 1.2e-4: on-the-path tolerance
Margin == 1500      \* sample points keep this far from the input boundaries

Want(op, i, j) ==
    CASE op = "or"  -> i \/ j
      [] op = "and" -> i /\ j
      [] op = "not" -> i /\ ~j
      [] op = "xor" -> i # j
Ops == <<"or", "and", "not", "xor">>

Inside(ss, p) == Wind(ss, p) # 0

(* sample points: a skew grid over both shapes, and a pair of points beside *)
(* the middle and the quarter of every segment given                        *)
Beside(s, k) ==
    UNION { LET t == TanAt(s, m)
                nx == (-t[2] * k) \div 1000  ny == (t[1] * k) \div 1000
            IN  { <<m[1] + nx, m[2] + ny>>, <<m[1] - nx, m[2] - ny>> } : m \in Samples1(s) }
GridPts(ss, n) == GridOver(ss, n, 0)

Loops(ps) == TLCEval([i \in DOMAIN ps |-> Segs(ps[i].pl)])
Cover(loops, p) == Cardinality({ i \in DOMAIN loops : Inside(loops[i], p) })

RegionBad(r, sp, sq, cls) ==
    { op \in {"or", "and", "not", "xor"} :
        LET o == r.out[op]
            pos == Loops(o.pos)  neg == Loops(o.neg)
        IN  \E c \in cls : Cover(pos, c[1]) - Cover(neg, c[1]) # (IF Want(op, c[2], c[3]) THEN 1 ELSE 0) }

(* sample points classified by membership in the two inputs                 *)
Classed(sp, sq, n) ==
    LET all == sp \o sq
        pts == GridPts(all, n) \cup UNION { Beside(all[i], 12) : i \in DOMAIN all }
    IN  TLCEval({ << c, Inside(sp, c), Inside(sq, c) >> : c \in { c \in pts : ClearOf(all, c, Margin) } })

V_C01(r) ==
    LET sp == Segs(r.in.p)  sq == Segs(r.in.q)
        rb == RegionBad(r, sp, sq, Classed(sp, sq, 8))
    IN  [ bad |-> { "region of " \o op : op \in rb },
          tags |-> {r.out["or"].info} \cup If(r.out["or"].neg # <<>>, "union with hole")
                   \cup If(Len(r.out["and"].pos) > 1, "intersection in pieces")
                   \cup If(Len(r.out["not"].pos) > 1, "difference in pieces")
                   \cup If(\E o \in DOMAIN r.out : \E k \in DOMAIN r.out[o].pos :
                              \E j \in DOMAIN r.out[o].pos[k].sub : r.out[o].pos[k].sub[j].ov = 1, "overlapping slice") ]

-----------------------------------------------------------------------------
(* C02: relation verdict, loop structure, slices                            *)

Touch(sp, sq, m) == \E i \in DOMAIN sp : \E j \in DOMAIN sq : ~Apart(sp[i], sq[j], m)
SamePath(sp, sq) ==
    /\ \A i \in DOMAIN sp : OnPath(sq, sp[i].a, 20) /\ OnPath(sq, Mid(sp[i]), 20)
    /\ \A j \in DOMAIN sq : OnPath(sp, sq[j].a, 20) /\ OnPath(sp, Mid(sq[j]), 20)

InfoWant(sp, sq) ==
    IF Touch(sp, sq, 3) THEN IF SamePath(sp, sq) THEN {"overlapping"} ELSE {"intersected"}
    ELSE IF Touch(sp, sq, 100) THEN {"overlapping", "intersected", "1in2", "2in1", "disjoint"}
    ELSE IF Inside(sq, sp[1].a) THEN {"1in2"}
    ELSE IF Inside(sp, sq[1].a) THEN {"2in1"}
    ELSE {"disjoint"}

LoopBad(pl, all) ==
    LET ss == Segs(pl) IN
    If(pl.c # 1, "result loop not closed")
    \cup If(Len(pl.v) < 2, "result loop with fewer than two vertexes")
    \cup If(\E i \in DOMAIN ss : PNear(ss[i].a, ss[i].b, 8), "repeated position in result loop")
    \cup If(\E i \in DOMAIN ss : ~OnPath(all, ss[i].a, Tol) \/ ~OnPath(all, Mid(ss[i]), Tol),
            "result loop leaves the inputs")
    \cup If(SelfCross(ss), "result loop crosses itself")

(* joining the slices' views in order                                       *)
RECURSIVE AddRepeat(_, _, _)
AddRepeat(acc, vs, i) ==
    IF i > Len(vs) THEN acc
    ELSE LET n == Len(acc) IN
         IF n > 0 /\ PNear(PosOf(acc[n]), PosOf(vs[i]), 10)
         THEN AddRepeat([acc EXCEPT ![n] = <<acc[n][1], acc[n][2], vs[i][3]>>], vs, i + 1)
         ELSE AddRepeat(Append(acc, vs[i]), vs, i + 1)
RECURSIVE JoinR(_, _, _)
JoinR(subs, i, acc) == IF i > Len(subs) THEN acc ELSE JoinR(subs, i + 1, AddRepeat(acc, subs[i].w.v, 1))
Joined(subs) ==
    LET vs == JoinR(subs, 1, <<>>)
        n == Len(vs)
    IN  IF n > 1 /\ PNear(PosOf(vs[n]), PosOf(vs[1]), 120) THEN SubSeq(vs, 1, n - 1) ELSE vs
SameVerts(u, w) == /\ Len(u) = Len(w)
                   /\ \A i \in DOMAIN u : PNear(PosOf(u[i]), PosOf(w[i]), 30) /\ Abs(u[i][3] - w[i][3]) < 200000
SliceBad(sub, sp, sq) ==
    LET src == IF sub.p1 = 1 THEN sp ELSE sq
        oth == IF sub.p1 = 1 THEN sq ELSE sp
        ws == Segs(sub.w)
        len == PathLen(ws)
        \* the source segment that runs along the middle of the first view segment
        dir(s) == LET m == Mid(s)
                      k == CHOOSE k \in DOMAIN src : OnSeg(src[k], m, Tol)
                      u == TanAt(src[k], m)  w == TanAt(s, m)
                  IN  Dot(u[1], u[2], w[1], w[2])
    IN  IF sub.valid # 1 THEN {"slice is not valid for its source"}
        ELSE IF sub.w.c # 0 \/ Len(sub.w.v) < 2 THEN {"slice view is not an open path"}
        ELSE IF \E i \in DOMAIN ws : ~OnPath(src, ws[i].a, Tol) \/ ~OnPath(src, ws[i].b, Tol)
                                     \/ ~OnPath(src, Mid(ws[i]), Tol) THEN {"slice leaves its source"}
        ELSE If(\E i \in DOMAIN ws : ws[i].l > 500 /\ dir(ws[i]) # (IF sub.inv = 1 THEN -1 ELSE 1), "slice direction wrong")
             \cup If(\E i \in DOMAIN ws : ws[i].l > 2000 /\ (OnPath(oth, Mid(ws[i]), 30) # (sub.ov = 1)),
                     "slice overlap flag wrong")
             
ResBad(o, sp, sq, want) ==
    LET all == sp \o sq
        lp == { o.pos[i] : i \in DOMAIN o.pos } \cup { o.neg[i] : i \in DOMAIN o.neg }
        pos == Loops(o.pos)  neg == Loops(o.neg)
    IN  If(o.info \notin want, "relation reported as " \o o.info)
        \cup UNION { LoopBad(q.pl, all) : q \in lp }
        \cup (IF o.info # "intersected" THEN {}
              ELSE UNION { If(q.sub = <<>>, "loop without slices")
                           \cup If(q.sub # <<>> /\ (\A k \in DOMAIN q.sub : q.sub[k].valid = 1) /\ ~SameVerts(Joined(q.sub), q.pl.v),
                                   "slices do not join to the loop")
                           \cup UNION { SliceBad(q.sub[k], sp, sq) : k \in DOMAIN q.sub } : q \in lp })
        \cup If(\E i \in DOMAIN neg : \A k \in DOMAIN pos : \E j \in DOMAIN neg[i] :
                   LET m == Mid(neg[i][j]) IN ~OnPath(pos[k], m, Tol) /\ ~Inside(pos[k], m),
               "negative loop outside every positive loop")

Valid(pl) == pl.c = 1 /\ Len(pl.v) >= 2
V_C02(r) ==
    IF ~Valid(r.in.p) \/ ~Valid(r.in.q)
    THEN [ bad |-> UNION { LET o == r.out[op] IN
                     If(o.info # "invalid", "invalid input reported as " \o o.info)
                     \cup If(o.pos # <<>> \/ o.neg # <<>>, "loops returned for invalid input") : op \in DOMAIN r.out },
           tags |-> {"invalid input"} ]
    ELSE LET sp == Segs(r.in.p)  sq == Segs(r.in.q)
             want == InfoWant(sp, sq)
         IN  [ bad |-> UNION { { op \o ": " \o m : m \in ResBad(r.out[op], sp, sq, want) } : op \in DOMAIN r.out },
               tags |-> {r.out["or"].info} \cup If(Cardinality(want) > 1, "ambiguous contact")
                        \cup If(r.out["or"].neg # <<>>, "union with hole") ]

-----------------------------------------------------------------------------
(* C03: other presentations, and area identities                            *)
AbsArea2(ps) == LET f[i \in 0..Len(ps)] == IF i = 0 THEN 0 ELSE f[i - 1] + Abs(Area2(Segs(ps[i])))
                IN  f[Len(ps)]
ResArea2(o) == AbsArea2(o.pos) - AbsArea2(o.neg)
ATol == 400   \* on twice the area, 2e-4
CloseTo(u, w) == Abs(u - w) <= ATol
LoopsB(ps) == TLCEval([i \in DOMAIN ps |-> Segs(ps[i])])
V_C03(r) ==
    LET sp == Segs(r.in.p)  sq == Segs(r.in.q)
        ap == Abs(Area2(sp))  aq == Abs(Area2(sq))
        cls == Classed(sp, sq, 4)
        one(n) ==
            LET v == r.in.vs[n]
                o == r.out.vs[n]
                dx == IF "dx" \in DOMAIN v THEN v.dx ELSE 0
                dy == IF "dy" \in DOMAIN v THEN v.dy ELSE 0
                aof(op) == ResArea2(o[op])
                first == IF v.s = 1 THEN aq ELSE ap
                sub == { op \in DOMAIN o :
                          LET pos == LoopsB(o[op].pos)  neg == LoopsB(o[op].neg) IN
                          \E c \in cls :
                             LET p == <<c[1][1] + dx, c[1][2] + dy>>
                                 w == IF v.s = 1 THEN Want(op, c[3], c[2]) ELSE Want(op, c[2], c[3])
                             IN  Cover(pos, p) - Cover(neg, p) # (IF w THEN 1 ELSE 0) }
            IN  { "presentation " \o ToString(n) \o ": region of " \o op : op \in sub }
                \cup If(~CloseTo(aof("or") + aof("and"), ap + aq), "presentation " \o ToString(n) \o ": area(or)+area(and)")
                \cup If(~CloseTo(aof("xor"), aof("or") - aof("and")), "presentation " \o ToString(n) \o ": area(xor)")
                \cup If(~CloseTo(aof("not"), first - aof("and")), "presentation " \o ToString(n) \o ": area(not)")
                \cup If(\E op \in {"or", "and", "xor"} : ~CloseTo(aof(op), ResArea2(r.out.vs[1][op])),
                        "presentation " \o ToString(n) \o ": area differs from the plain one")
    IN  [ bad |-> UNION { one(n) : n \in DOMAIN r.in.vs },
          tags |-> {"presented " \o ToString(Len(r.in.vs)) \o " ways"} ]

=============================================================================
