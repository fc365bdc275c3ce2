-------------------------------- MODULE GenOne --------------------------------
(***************************************************************************)
(* Behaviours that draw one polyline (or two, for intersects) by growing    *)
(* it, and emit a query about it.  Classes:                                 *)
(*   shape   a catalogue shape or grown polyomino, closed or cut open       *)
(*   lattice a walk over the half lattice with half and quarter turns, free *)
(*           to touch, cross and run over itself                            *)
(*   walk    a walk with irregular steps                                    *)
(*   ring    a walk over twelve points of one circle, mostly along it, free  *)
(*           to double back                                                 *)
(*   degen   few vertexes, repeated positions, back-tracking                *)
(*   shallow a walk along arcs that hardly bend                              *)
(*   hub     a lattice walk that keeps coming back to its first point        *)
(*   long, longlat   walks of up to sixty vertexes                          *)
(*   fine    a walk of long steps and of steps of a few thousandths         *)
(* then optional redundant vertexes, repeated vertexes and closing.         *)
(***************************************************************************)
EXTENDS Shapes, Json, IOUtils

CONSTANTS N, Seed, Mode, Classes

VARIABLES id, x, st, cls, cells, a, b
vars == <<id, x, st, cls, cells, a, b>>
Nil == OpenPl(<<>>)
(* the classes to draw from, by the name of the mix                         *)
Mix == CASE Classes = "shapes" -> <<"shape">>
         [] Classes = "walks" -> <<"lattice", "lattice", "walk", "shape", "degen", "ring">>
         [] Classes = "rings" -> <<"ring">>
         [] Classes = "degen" -> <<"degen">>
         [] Classes = "tiny" -> <<"tiny">>
         [] Classes = "long" -> <<"long", "longlat">>
         [] Classes = "fine" -> <<"fine">>
         [] Classes = "hubs" -> <<"hub">>
         [] Classes = "shallow" -> <<"shallow">>
         [] Classes = "regular" -> <<"shape", "shape", "lattice", "walk", "ring">>

Init == /\ id \in 1..N
        /\ x = RndSeed(Seed, id)
        /\ st = "start" /\ cls = "none" /\ cells = {}
        /\ a = Nil /\ b = Nil

(* the twelve points, and the bulge of the shorter arc between two of them   *)
RingPt(k) == << 400000 * Dirs12[1 + k][1], 400000 * Dirs12[1 + k][2] >>
(* (tan of a quarter of the angle, from the cosine and sine of the angle)    *)
RingG(p, q, half) ==
    LET u == [i \in 1..2 |-> p[i] \div 400000]
        w == [i \in 1..2 |-> q[i] \div 400000]
        c == u[1] * w[2] - u[2] * w[1]
        d == 25 + u[1] * w[1] + u[2] * w[2]
        k == 10000000
    IN  IF u = w THEN 0 ELSE IF c = 0 THEN half * G
        ELSE DivSum(<< <<100, SqrtSum(<< <<k, k, 50, d>> >>) - k * d>> >>, << <<c>> >>)
(* shapes a few thousandths wide, where areas fall below the library's       *)
(* tolerance                                                                *)
Tiny == << [c |-> 1, v |-> << V(0, 0, 0), V(2500, 0, 0), V(2500, 2500, 0), V(0, 2500, 0) >>],
           [c |-> 1, v |-> << V(0, 0, 0), V(6000, 0, 0), V(6000, 6000, 0), V(0, 6000, 0) >>],
           [c |-> 0, v |-> << V(0, 0, 0), V(2500, 0, 0), V(2500, 2500, 0), V(2500, 5000, 0) >>],
           [c |-> 0, v |-> << V(0, 0, 0), V(4000, 0, G), V(0, 4000, B90), V(-4000, -4000, 0) >>] >>
StartTiny == /\ st = "start" /\ Classes = "tiny"
             /\ id <= Len(Tiny)
             /\ a' = Tiny[id] /\ st' = "done"
             /\ UNCHANGED <<id, x, cls, cells, b>>
Start ==
    /\ st = "start" /\ Classes # "tiny"
    /\ LET c == PickOf(x, 1, Mix) IN
       /\ cls' = c
       /\ CASE c = "shape" /\ Chance(x, 2, 45) -> st' = "cells" /\ cells' = {<<1, 1>>} /\ a' = Nil
            [] c = "shape" /\ ~Chance(x, 2, 45) -> /\ st' = "finish" /\ cells' = {}
                                                   /\ a' = Member(Pick(x, 3, NFam), At(x, 4))
            [] OTHER -> /\ st' = "walk" /\ cells' = {}
                        /\ a' = IF c = "degen" /\ Chance(x, 3, 10) THEN Nil
                                ELSE IF c = "ring" THEN OpenPl(<< V(RingPt(Pick(x, 4, 12))[1], RingPt(Pick(x, 4, 12))[2], 0) >>)
                                ELSE OpenPl(<< V(0, 0, IF c # "fine" /\ Chance(x, 4, 30) THEN 500000000 ELSE 0) >>)
    /\ x' = At(x, 30)
    /\ UNCHANGED <<id, b>>
Grow == /\ st = "cells"
        /\ IF Cardinality(cells) < 8 /\ ~Chance(x, 1, 15)
           THEN cells' = GrowStep(cells, x) /\ x' = At(x, 2) /\ UNCHANGED <<st, a>>
           ELSE /\ a' = FromCells(cells, At(x, 2))
                /\ st' = "finish" /\ x' = At(x, 40) /\ cells' = {}
        /\ UNCHANGED <<id, cls, b>>

LatSteps == << <<U,0>>, <<-U,0>>, <<0,U>>, <<0,-U>>, <<U,U>>, <<-U,U>>, <<U,-U>>, <<-U,-U>>, <<2*U,0>>, <<0,2*U>>, <<-2*U,0>>, <<0,-2*U>>,
               <<H,0>>, <<0,-H>>, <<2*U,2*U>>, <<-2*U,2*U>> >>
LatB == << 0, 0, 0, 0, G, -G, B90, -B90, B90, -B90, 300000000, -300000000 >>
Steps == << <<2000000, 130000>>, <<-1900000, 270000>>, <<170000, 1500000>>, <<-210000, -1400000>>,
            <<1300000, 1100000>>, <<-1200000, 900000>>, <<1400000, -1000000>>, <<-1300000, -1200000>>,
            <<3100000, 400000>>, <<-300000, 2900000>>, <<-2700000, -600000>>, <<500000, -3000000>>, <<300000, 100000>> >>
StepB == << 0, 0, 0, 300000000, -300000000, B60, -B60, B90, -B90, 700000000, -700000000, G, -G, 50000000, -20000000 >>
HardlyB == << 0, 18000000, -18000000, 9000000, -9000000, 4000000, -4000000, 300000000 >>
DegSteps == << <<0,0>>, <<0,0>>, <<U,0>>, <<-U,0>>, <<U,0>>, <<0,U>>, <<0,-U>>, <<1,0>>, <<0,1>>, <<2*U,0>> >>
FineSteps == << <<900, 300>>, <<-700, 1200>>, <<2100, -1300>>, <<-1500, -800>>, <<2600, 0>>, <<0, 1900>>, <<0, -3300>>, <<-2800, 500>> >>
IsLat == cls \in {"lattice", "longlat", "hub"}
IsWalk == cls \in {"walk", "long", "shallow"} \/ (cls = "fine" /\ Chance(x, 7, 50))
Extend(pl, y) ==
    LET n == Len(pl.v)
        s == CASE cls = "hub" /\ n > 1 /\ PosOf(pl.v[n]) # <<0, 0>> /\ Chance(y, 2, 60) -> << -pl.v[n][1], -pl.v[n][2] >>
               [] IsLat -> PickOf(y, 1, LatSteps)
               [] cls = "fine" /\ ~IsWalk -> PickOf(y, 1, FineSteps)
               [] IsWalk -> LET q == PickOf(y, 1, Steps) IN
                                  << q[1] + Pick(y, 2, 401) * 1000 - 200000, q[2] + Pick(y, 3, 401) * 1000 - 200000 >>
               [] OTHER -> PickOf(y, 1, DegSteps)
        bl == CASE cls = "shallow" -> PickOf(y, 4, HardlyB)
               [] IsLat -> PickOf(y, 4, LatB) [] IsWalk -> PickOf(y, 4, StepB) [] cls = "fine" -> 0
                [] OTHER -> PickOf(y, 4, <<0, 0, 0, G, -G, B90>>)
        last == pl.v[n]
        rq == RingPt(Pick(y, 1, 12))
        rg == IF Chance(y, 2, 12) THEN 0 ELSE RingG(PosOf(last), rq, IF Chance(y, 3, 50) THEN 1 ELSE -1)
    IN  IF cls = "ring" THEN IF rq = PosOf(last) THEN pl
            ELSE OpenPl(SubSeq(pl.v, 1, n - 1) \o << <<last[1], last[2], rg>>, <<rq[1], rq[2], 0>> >>)
        ELSE IF n = 0 THEN OpenPl(<< V(U, U, bl) >>)
        ELSE OpenPl(SubSeq(pl.v, 1, n - 1) \o << <<last[1], last[2], bl>>, <<last[1] + s[1], last[2] + s[2], last[3]>> >>)
MaxLen == IF cls = "degen" THEN 5 ELSE IF cls \in {"long", "longlat"} THEN 60 ELSE IF cls = "ring" THEN 6 ELSE 9
StopPct == IF cls = "degen" THEN 30 ELSE IF cls \in {"long", "longlat"} THEN 2 ELSE IF cls = "ring" THEN 25 ELSE 10
Walk == /\ st = "walk"
        /\ IF Len(a.v) > MaxLen \/ (Chance(x, 5, StopPct) /\ (cls = "degen" \/ Len(a.v) >= (IF cls = "ring" THEN 2 ELSE 3)))
           THEN st' = "finish" /\ a' = a
           ELSE LET e == Extend(a, x) IN st' = st /\ a' = IF AllIn(e, 9 * U) THEN e ELSE a
        /\ x' = At(x, 6)
        /\ UNCHANGED <<id, cls, cells, b>>

Turns == << <<1,0,1>>, <<0,1,1>>, <<-1,0,1>>, <<0,-1,1>>, <<3,4,5>>, <<4,-3,5>>, <<-5,12,13>> >>
(* an arc needs two different ends: where a segment has (nearly) none the     *)
(* bulge is dropped                                                         *)
Sane(pl) == [c |-> pl.c, v |-> TLCEval([i \in DOMAIN pl.v |->
               IF PNear(PosOf(pl.v[i]), PosOf(pl.v[NextI(pl, i)]), 30) THEN << pl.v[i][1], pl.v[i][2], 0 >> ELSE pl.v[i]])]
Finish ==
    /\ st = "finish"
    /\ LET meets == Len(a.v) > 0 /\ PNear(PosOf(a.v[1]), PosOf(a.v[Len(a.v)]), 30)
           cl == IF cls = "shape" THEN ~Chance(x, 1, 30)
                 ELSE Chance(x, 1, 50) /\ (Mode = "slice" => ~meets)     \* views need distinct consecutive positions
           n == Len(a.v)
           bk == IF cls = "ring" /\ cl /\ ~meets THEN RingG(PosOf(a.v[n]), PosOf(a.v[1]), 1) ELSE 0
           p0 == Sane([c |-> IF cl THEN 1 ELSE 0, v |-> IF bk = 0 THEN a.v ELSE [a.v EXCEPT ![n] = <<a.v[n][1], a.v[n][2], bk>>]])
           tn == IF Chance(x, 2, 60) THEN Turns[1] ELSE PickOf(x, 3, Turns)
           p1 == TLCEval(TurnPl(p0, tn[1], tn[2], tn[3]))
           p2 == IF Chance(x, 4, 25) /\ NSegs(p1) > 0 THEN SplitMid(p1, 1 + Pick(x, 5, NSegs(p1))) ELSE p1
           p3 == IF Chance(x, 6, 50) THEN RevPl(p2) ELSE p2
           p4 == IF cl /\ Len(p3.v) > 0 THEN RotPl(p3, Pick(x, 7, Len(p3.v))) ELSE p3
       IN  a' = TLCEval(p4)
    /\ st' = IF Mode = "isect" /\ b = Nil THEN "second" ELSE IF Mode = "clean" THEN "deco" ELSE "done"
    /\ x' = At(x, 12)
    /\ UNCHANGED <<id, cls, cells, b>>
(* for intersects: keep the first polyline, grow another                    *)
Second == /\ st = "second"
          /\ b' = a /\ a' = Nil /\ st' = "start"
          /\ x' = At(x, 1)
          /\ UNCHANGED <<id, cls, cells>>

(* for clean-ups: put in vertexes that are not needed                        *)
Ins(pl, i, v) == [c |-> pl.c, v |-> SubSeq(pl.v, 1, i) \o <<v>> \o SubSeq(pl.v, i + 1, Len(pl.v))]
Rebulge(pl, i, g) == [c |-> pl.c, v |-> [pl.v EXCEPT ![i] = <<pl.v[i][1], pl.v[i][2], g>>]]
Deco1(pl, y) ==
    LET n == Len(pl.v)
        i == 1 + Pick(y, 1, n)
        v == pl.v[i]
        k == Pick(y, 2, 10)
        e == PickOf(y, 3, <<0, 0, 1, -1>>)
        ne == Pick(y, 4, 2)
    IN  IF n = 0 THEN pl
        ELSE IF k < 4 \/ (NSegs(pl) = 0)    \* repeat a vertex; the bulge in front of the repeat does not count
        THEN Rebulge(Ins(pl, i, <<v[1] + e, v[2] + ne * e, v[3]>>), i, PickOf(y, 5, <<0, 0, v[3]>>))
        ELSE LET j == 1 + Pick(y, 1, NSegs(pl)) IN
             IF k < 9 THEN IF PNear(PosOf(pl.v[j]), PosOf(pl.v[NextI(pl, j)]), 400) THEN pl ELSE SplitMid(pl, j)
             ELSE Ins(pl, j, <<pl.v[j][1], pl.v[j][2], pl.v[j][3]>>)
Deco2 == /\ st = "deco"
         /\ IF Chance(x, 1, 25) \/ Len(a.v) > 20
            THEN st' = "done" /\ a' = a
            ELSE /\ st' = st /\ a' = TLCEval(Deco1(a, At(x, 4)))
         /\ x' = At(x, 12)
         /\ UNCHANGED <<id, cls, cells, b>>

-----------------------------------------------------------------------------
(* Emission                                                                 *)
Lat == << -2*U, -U, -H, 0, 0, H, U, 2*U >>
Off == << -1530000, -710000, -170000, 130000, 370000, 890000, 1610000 >>
QPt(y) == LET k == Pick(y, 1, 3) IN
          IF k = 0 THEN << PickOf(y, 2, Lat), PickOf(y, 3, Lat) >>
          ELSE IF k = 1 /\ Len(a.v) > 0
          THEN LET v == a.v[1 + Pick(y, 4, Len(a.v))] IN << v[1] + PickOf(y, 5, <<0, 170000, -130000>>), v[2] + PickOf(y, 6, <<0, 210000, -90000>>) >>
          ELSE << Pick(y, 2, 9000) * 1000 - 4500000, Pick(y, 3, 9000) * 1000 - 4500000 >>
QPts(n) == [i \in 1..n |-> QPt(At(x, 7 * i))]
(* a point k/4 of the way along a segment                                    *)
Along4(s, k) ==
    IF k = 0 THEN s.a ELSE IF k = 4 THEN s.b
    ELSE IF s.g = 0 THEN << s.a[1] + DivSum(<< <<s.b[1] - s.a[1], k>> >>, << <<4>> >>), s.a[2] + DivSum(<< <<s.b[2] - s.a[2], k>> >>, << <<4>> >>) >>
    ELSE IF k = 2 THEN Mid(s) ELSE Mid(Halve(s)[IF k = 1 THEN 1 ELSE 2])
Cut(ss, y) == LET i == 1 + Pick(y, 1, Len(ss))
                  k == PickOf(y, 2, <<0, 1, 2, 3, 4>>)
                  p == Along4(ss[i], k)
              IN  [i |-> i, k |-> k, p |-> p]
Forms == << a, RevPl(a), IF a.c = 1 /\ Len(a.v) > 0 THEN RotPl(a, 1 + Pick(x, 3, Len(a.v))) ELSE a,
            IF NSegs(a) > 0 THEN SplitMid(a, 1 + Pick(x, 4, NSegs(a))) ELSE a >>
Line == CASE Mode = "isect" ->
               LET k == Pick(x, 1, 10)
                   dx == IF Classes = "rings" /\ k < 8 THEN 0 ELSE IF k < 6 THEN PickOf(x, 2, Lat) ELSE PickOf(x, 2, Off)
                   dy == IF Classes = "rings" /\ k < 8 THEN 0 ELSE IF k < 6 THEN PickOf(x, 3, Lat) ELSE PickOf(x, 3, Off)
               IN  [id |-> id, op |-> "isect", p |-> a, q |-> MovePl(b, dx, dy), i |-> Pick(x, 4, 4)]
          [] Mode = "self" -> [id |-> id, op |-> "self", p |-> a, i |-> Pick(x, 1, 4)]
          [] Mode = "wind" -> [id |-> id, op |-> "wind", vs |-> Forms, qs |-> QPts(8)]
          [] Mode = "near" -> LET ss == Segs(a) IN
               [id |-> id, op |-> "near", p |-> a,
                qs |-> IF Len(ss) = 0 THEN QPts(6)
                       ELSE QPts(6) \o << ss[1 + Pick(x, 1, Len(ss))].c, Mid(ss[1 + Pick(x, 2, Len(ss))]) >>]
          [] Mode = "measure" ->
               [id |-> id, op |-> "measure",
                vs |-> Forms \o << MovePl(a, PickOf(x, 5, Off), PickOf(x, 6, Lat)), Scale(a, 2 + Pick(x, 7, 2)) >>]
          [] Mode = "length" ->
               [id |-> id, op |-> "length", p |-> a, total |-> PathLen(Segs(a)),
                ts |-> LET t == PathLen(Segs(a)) IN
                       << -U, 0 >> \o [i \in 1..6 |-> DivSum(<< <<t, Pick(At(x, i), 1, 1100)>> >>, << <<1000>> >>)]
                       \o << PathLen(SubSeq(Segs(a), 1, Len(Segs(a)) \div 2)), t + 5000 >>,
                errs |-> << 1000, 10000, PickOf(x, 2, <<50000, 200000, 700000, 3000000>>) >>]
          [] Mode = "clean" -> [id |-> id, op |-> "clean", p |-> a]
          [] Mode = "slice" ->
               LET ss == Segs(a) IN
               [id |-> id, op |-> "slice", p |-> a,
                cuts |-> IF Len(ss) = 0 THEN <<>>
                         ELSE [i \in 1..4 |-> LET u == Cut(ss, At(x, 5 * i))  w == Cut(ss, At(x, 5 * i + 2))
                                                  rev == a.c = 0 /\ (w.i < u.i \/ (w.i = u.i /\ w.k < u.k))   \* open: first cut before the second
                                              IN  IF rev THEN <<w, u>> ELSE <<u, w>>]]
          [] Mode = "index" ->
               [offs |-> IF \E i \in DOMAIN a.v : (a.c = 1 \/ i < Len(a.v)) /\ PNear(PosOf(a.v[i]), PosOf(a.v[NextI(a, i)]), 30) THEN 0 ELSE 1,   \* offsets need distinct consecutive positions
                id |-> id, op |-> "index", p |-> a, ops |-> IF cls = "shape" THEN 1 ELSE 0, q |-> MovePl(a, PickOf(x, 1, Off), PickOf(x, 2, Off)),
                d |-> PickOf(x, 3, <<173000, -173000, 331000, -331000, 617000, -617000>>)]
Emit == /\ st = "done" /\ st' = "end"
        /\ PrintT("CASE " \o ToJson(Line))
        /\ UNCHANGED <<id, x, cls, cells, a, b>>
Next == Start \/ StartTiny \/ Grow \/ Walk \/ Finish \/ Deco2 \/ Second \/ Emit
Spec == Init /\ [][Next]_vars

(* the specification's own operators are consistent on every walk: splitting *)
(* a segment and reversing keep the length, and reversing negates the        *)
(* winding                                                                   *)
Consistent ==
    (st = "done" /\ Mode # "clean" /\ Len(a.v) >= 2) =>
      LET ss == Segs(a)
          rv == Segs(RevPl(a))
          sp == Segs(SplitMid(a, 1 + (x % NSegs(a))))
          n == Len(ss)
      IN  /\ Abs(PathLen(rv) - PathLen(ss)) <= 100 + 40 * n
          /\ Abs(PathLen(sp) - PathLen(ss)) <= 100 + 40 * n
          /\ a.c = 1 => \A q \in { QPts(4)[i] : i \in 1..4 } :
                          ClearOf(ss, q, 300) => /\ Wind(rv, q) = -Wind(ss, q)
                                                 /\ Wind(sp, q) = Wind(ss, q)
=============================================================================
