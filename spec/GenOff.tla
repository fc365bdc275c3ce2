-------------------------------- MODULE GenOff --------------------------------
(***************************************************************************)
(* Behaviours that draw one polyline and an offset distance.                *)
(*   Mode "closed": simple closed polylines (polyominoes grown cell by cell *)
(*                  and the catalogue)                                      *)
(*   Mode "open"  : a walk that grows vertex by vertex and stays simple, or *)
(*                  a closed shape cut open                                 *)
(*   Mode "selfx" : a walk that may cross itself (only properly: no touch,  *)
(*                  no overlap, no crossing near a vertex), open or closed  *)
(*   Mode "vary"  : as "closed"/"open", plus other presentations            *)
(***************************************************************************)
EXTENDS Shapes, Json, IOUtils

CONSTANTS N, Seed, Mode

VARIABLES id, x, st, cells, a, d
vars == <<id, x, st, cells, a, d>>
Nil == Closed(<<>>)
(* Modes "closedtie", "opentie", "varytie": lattice coordinates and distances *)
(* that equal radii, half gaps and lengths exactly                           *)
Tie == Mode \in {"closedtie", "opentie", "varytie"}
Base == CASE Mode = "closedtie" -> "closed" [] Mode = "opentie" -> "open" [] Mode = "varytie" -> "vary" [] OTHER -> Mode

Init == /\ id \in 1..N
        /\ x = RndSeed(Seed, id)
        /\ st = "start"
        /\ cells = {}
        /\ a = Nil
        /\ d = 0

(* distances off the half lattice on which the shapes' medial lines lie     *)
Dists == << 137000, 237000, 317000, 413000, 571000, 683000, 857000, 1137000, 1330000, 1870000, 61000 >>
DSmall == << 61000, 137000, 193000, 237000, 317000, 413000, 571000, 683000, 857000 >>

Family(y) == IF Base \in {"open", "selfx"} THEN Base
             ELSE IF Base = "vary" /\ Chance(y, 1, 35) THEN "open" ELSE "closed"

Start ==
    /\ st = "start"
    /\ LET f == Family(x) IN
       IF f = "closed" \/ (f = "open" /\ Chance(x, 5, 30))
       THEN IF Chance(x, 2, 45)
            THEN st' = "grow" /\ cells' = {<<1, 1>>} /\ a' = a
            ELSE cells' = {} /\ a' = Member(Pick(x, 3, NFam), At(x, 4)) /\ st' = "shape"
       ELSE /\ st' = "walk" /\ cells' = {}
            /\ a' = OpenPl(<< V(0, 0, 0) >>)
    /\ x' = At(x, 30)
    /\ UNCHANGED <<id, d>>

Grow == /\ st = "grow"
        /\ IF Cardinality(cells) < 10 /\ ~Chance(x, 1, 15)
           THEN cells' = GrowStep(cells, x) /\ x' = At(x, 2) /\ UNCHANGED <<st, a>>
           ELSE /\ a' = FromCells(cells, At(x, 2))
                /\ st' = "shape" /\ x' = At(x, 40) /\ cells' = {}
        /\ UNCHANGED <<id, d>>

(* One more vertex; an impossible step is skipped.                          *)
StepB == << 0, 0, 0, 300000000, -300000000, B60, -B60, B90, -B90, 700000000, -700000000, G, -G >>
Steps == << <<2000000, 130000>>, <<-1900000, 270000>>, <<170000, 1500000>>, <<-210000, -1400000>>,
            <<1300000, 1100000>>, <<-1200000, 900000>>, <<1400000, -1000000>>, <<-1300000, -1200000>>,
            <<3100000, 400000>>, <<-300000, 2900000>>, <<-2700000, -600000>>, <<500000, -3000000>> >>
TieSteps == << <<H, 0>>, <<U, 0>>, <<2*U, 0>>, <<3*U, 0>>, <<-H, 0>>, <<-U, 0>>, <<-2*U, 0>>, <<0, H>>, <<0, U>>, <<0, 2*U>>, <<0, -U>>, <<0, -2*U>>,
               <<0, 3*U>>, <<0, -3*U>>, <<U, U>>, <<-U, U>>, <<U, -U>>, <<-U, -U>>, <<3*H, 4*H>>, <<-4*H, 3*H>>, <<4*H, -3*H>>, <<-3*H, -4*H>> >>
TieDists == << 250000, 500000, 500000, 750000, 1000000, 1000000, 1500000, 2000000, 125000 >>
Extend(pl, y) ==
    LET n == Len(pl.v)
        s == PickOf(y, 1, IF Tie THEN TieSteps ELSE Steps)
        jx == IF Tie THEN 0 ELSE Pick(y, 2, 401) * 1000 - 200000
        jy == IF Tie THEN 0 ELSE Pick(y, 3, 401) * 1000 - 200000
        b == PickOf(y, 4, StepB)
        last == pl.v[n]
    IN  OpenPl(SubSeq(pl.v, 1, n - 1) \o << <<last[1], last[2], b>>, <<last[1] + s[1] + jx, last[2] + s[2] + jy, 0>> >>)

(* crossings only well away from all vertexes and at a good angle           *)
Proper(s, t, p) ==
    /\ PD(p, s.a) > 60000 /\ PD(p, s.b) > 60000 /\ PD(p, t.a) > 60000 /\ PD(p, t.b) > 60000
    /\ LET u == TanAt(s, p)  w == TanAt(t, p)
       IN  Abs(DivSum(<< <<u[1], w[2]>>, <<-u[2], w[1]>> >>, << <<U>> >>)) > U \div 8
    /\ \E q \in Hits(s, t, 20) : PNear(p, q, 100000)
ProperlyCrossing(ss, closed, m) ==
    LET n == Len(ss) IN
    /\ \A i \in 1..n : ss[i].l > 4 * m
    /\ \A i \in 1..n : \A j \in (i + 1)..n :
         LET js == (IF j = i + 1 THEN {ss[i].b} ELSE {}) \cup (IF closed /\ i = 1 /\ j = n THEN {ss[i].a} ELSE {})
         IN  \A p \in Contacts(ss[i], ss[j], m) : (\E q \in js : PNear(p, q, 4 * m)) \/ Proper(ss[i], ss[j], p)
    \* no two crossings close together
    /\ \A i \in 1..n : \A j \in (i + 1)..n :
         \A p \in Hits(ss[i], ss[j], 20) : \A k \in (1..n) \ {i, j} : ~OnSeg(ss[k], p, 60000)
    /\ \A i \in 1..n :
         IF i < n THEN NoFoldAt(ss[i], ss[i + 1], ss[i].b) ELSE ~closed \/ NoFoldAt(ss[n], ss[1], ss[n].b)
Allowed(pl) == LET ss == Segs(pl) IN
               IF Base = "selfx" THEN ProperlyCrossing(ss, pl.c = 1, 20000)
               ELSE SimpleSegs(ss, pl.c = 1, 20000)
InReach(pl) == AllIn(pl, 8 * U)
WalkLen == IF Base = "selfx" THEN 7 ELSE 8
Walk == /\ st = "walk"
        /\ LET e == Extend(a, x) IN
           IF Len(a.v) >= 2 /\ (Len(a.v) > WalkLen \/ Chance(x, 5, 10))
           THEN st' = "shape" /\ a' = a
           ELSE st' = st /\ a' = IF InReach(e) /\ Allowed(e) THEN e ELSE a
        /\ x' = At(x, 6)
        /\ UNCHANGED <<id, cells, d>>

(* remove the closing segment of a closed shape                             *)
CutOpen(pl) == OpenPl(pl.v)
Close(pl, y) ==
    LET n == Len(pl.v)
        c == [c |-> 1, v |-> SubSeq(pl.v, 1, n - 1) \o << <<pl.v[n][1], pl.v[n][2], PickOf(y, 7, StepB)>> >>]
    IN  IF n >= 3 /\ Allowed(c) THEN c ELSE pl

Present(p, y) == LET q == IF Chance(y, 1, 50) THEN RevPl(p) ELSE p
                 IN  IF q.c = 1 THEN RotPl(q, Pick(y, 2, Len(q.v))) ELSE q
Turns == << <<1,0,1>>, <<0,1,1>>, <<-1,0,1>>, <<0,-1,1>>, <<3,4,5>>, <<4,-3,5>>, <<-5,12,13>> >>
Shape ==
    /\ st = "shape"
    /\ LET f == IF Base = "vary" THEN (IF a.c = 0 THEN "open" ELSE "closed") ELSE Base
           a0 == IF Base = "open" /\ a.c = 1 THEN CutOpen(RotPl(a, Pick(x, 8, Len(a.v))))
                 ELSE IF Base = "selfx" /\ Chance(x, 9, 60) THEN Close(a, x) ELSE a
           a1 == IF ~Tie /\ Chance(x, 40, 10) THEN Soften(a0, At(x, 41)) ELSE a0
           tn == IF Chance(x, 1, 60) THEN Turns[1] ELSE PickOf(x, 2, Turns)
           dd == IF Tie THEN PickOf(x, 3, TieDists) ELSE IF Base = "selfx" THEN PickOf(x, 3, DSmall) ELSE PickOf(x, 3, Dists)
       IN  /\ a' = TLCEval(Present(TurnPl(a1, tn[1], tn[2], tn[3]), At(x, 10)))
           /\ d' = IF Chance(x, 4, 50) THEN dd ELSE -dd
    /\ st' = "done"
    /\ x' = At(x, 30)
    /\ UNCHANGED <<id, cells>>

Variants ==
    LET r == 1 + Pick(x, 1, NSegs(a))
        k == Pick(x, 2, Len(a.v))
        dx == PickOf(x, 3, <<7*U, -11*U, 130*U>>)  dy == PickOf(x, 4, <<3*U, -40*U, 0>>)
        mk(p, dd, i) == [p |-> p, d |-> dd, i |-> i, dx |-> 0, dy |-> 0]
        rot(p) == IF p.c = 1 THEN RotPl(p, k) ELSE p
    IN  << mk(a, d, 0), mk(a, d, 1), mk(a, d, 2), mk(a, d, 3),
           mk(rot(a), d, 0), mk(RevPl(a), -d, 0), mk(SplitMid(a, r), d, 0),
           mk(RevPl(rot(SplitMid(a, r))), -d, 2),
           [p |-> MovePl(a, dx, dy), d |-> d, i |-> 0, dx |-> dx, dy |-> dy] >>
(* what is emitted meets the preconditions the obligations rest on          *)
Proper_(pl) == /\ NSegs(pl) >= 1
               \* at a tie: no arc that shrinks to next to nothing, unless to a point
               /\ Tie => \A s \in { Segs(pl)[i] : i \in 1..NSegs(pl) } : s.g = 0 \/ Abs(s.r - Abs(d)) \notin 200..20000
               /\ IF Base = "selfx" THEN ProperlyCrossing(Segs(pl), pl.c = 1, 15000) ELSE Simple(pl, 1500)
Emit == /\ st = "done"
        /\ st' = IF Proper_(a) THEN "end" ELSE "dropped"
        /\ Proper_(a) => PrintT("CASE " \o ToJson(
              IF Base = "vary" THEN [id |-> id, op |-> "offvar", p |-> a, d |-> d, vs |-> Variants]
              ELSE [id |-> id, op |-> "off", p |-> a, d |-> d, h |-> IF Base = "selfx" THEN 1 ELSE 0]))
        /\ UNCHANGED <<id, x, cells, a, d>>

Next == Start \/ Grow \/ Walk \/ Shape \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The specification's own measures agree under every re-presentation.      *)
MeasuresAgree ==
    st = "done" =>
      LET ss == Segs(a)
          n == Len(ss)
          near(u, w) == Abs(u - w) <= 100 + 40 * n
          rv == Segs(RevPl(a))
          sp == Segs(SplitMid(a, 1 + (x % NSegs(a))))
          ro == Segs(RotPl(a, x % Len(a.v)))
      IN  /\ near(PathLen(rv), PathLen(ss))
          /\ near(PathLen(sp), PathLen(ss))
          /\ a.c = 1 => /\ near(Area2(rv), -Area2(ss))
                        /\ near(Area2(sp), Area2(ss))
                        /\ near(Area2(ro), Area2(ss))
                        /\ near(PathLen(ro), PathLen(ss))
=============================================================================
