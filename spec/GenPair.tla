------------------------------- MODULE GenPair -------------------------------
(***************************************************************************)
(* Behaviours that draw two simple closed polylines and place them relative *)
(* to each other.  A behaviour is fixed by (Seed, id).                      *)
(*   Grow*   : a polyomino grows cell by cell (or a catalogue shape is      *)
(*             taken), Finish* turns it into a boundary polyline            *)
(*   Place   : B is turned, moved; both are reversed / start-rotated        *)
(*             (lines may become shallow arcs)                                *)
(*             or B is cut from A: it runs along a part of A's boundary, from *)
(*             vertex or mid-segment to vertex or mid-segment, and closes     *)
(*             with one chord or arc that otherwise stays clear of A          *)
(* Invariants relate the spec's own geometry operators: a polyomino's cells *)
(* are exactly the unit squares its boundary winds around once, its area is *)
(* its number of cells, and catalogue shapes are simple and                 *)
(* counter-clockwise.                                                       *)
(***************************************************************************)
EXTENDS Shapes, Json, IOUtils

CONSTANTS N, Seed, Mode

VARIABLES id, x, st, cells, a, b

vars == <<id, x, st, cells, a, b>>
Nil == Closed(<<>>)

Init == /\ id \in 1..N
        /\ x = RndSeed(Seed, id)
        /\ st = "a"
        /\ cells = {}
        /\ a = Nil /\ b = Nil

UseCells(y) == Chance(y, 1, 45)
Start(s1, s2) ==
    /\ st = s1
    /\ x' = At(x, 3)
    /\ IF UseCells(x) 
       THEN st' = s2 /\ cells' = {<<1, 1>>} /\ UNCHANGED <<a, b>>
       ELSE /\ cells' = {}
            /\ LET m == Member(Pick(x, 2, NFam), At(x, 3)) IN
               IF s1 = "a" THEN a' = m /\ b' = b /\ st' = "b" ELSE b' = m /\ a' = a /\ st' = "place"
            
    /\ UNCHANGED id
Grow(s) == /\ st = s
           /\ Cardinality(cells) < 9
           /\ ~Chance(x, 1, 18) 
           /\ cells' = GrowStep(cells, x)
           /\ x' = At(x, 2)
           /\ UNCHANGED <<id, st, a, b>>
FinishA == /\ st = "ga"
           /\ Cardinality(cells) >= 9 \/ Chance(x, 1, 18)
           /\ a' = FromCells(cells, At(x, 2))
           /\ st' = "b" /\ x' = At(x, 40) /\ cells' = {}
           /\ UNCHANGED <<id, b>>
FinishB == /\ st = "gb"
           /\ Cardinality(cells) >= 9 \/ Chance(x, 1, 18)
           /\ b' = FromCells(cells, At(x, 2))
           /\ st' = "place" /\ x' = At(x, 40) /\ cells' = {}
           /\ UNCHANGED <<id, a>>

Present(p, y) == LET q == IF Chance(y, 1, 40) THEN RevPl(p) ELSE p
                 IN  RotPl(q, Pick(y, 2, Len(q.v)))
Turns == << <<1,0,1>>, <<0,1,1>>, <<-1,0,1>>, <<0,-1,1>>, <<3,4,5>>, <<4,-3,5>>, <<-3,4,5>>, <<5,12,13>>, <<15,8,17>>, <<-12,5,13>> >>
Lat == << -2*U, -U, -H, 0, 0, H, U, 2*U, 3*U >>
Off == << -1530000, -710000, -170000, 130000, 370000, 890000, 1610000, 2270000, 3130000 >>
SameShape(y) == Chance(y, 1, 6)
(* the polyline that follows p from vertex 1 of q (p with added vertexes) on *)
CutB == << 0, 0, 0, 0, 200000000, -200000000, B90, -B90 >>
CutFrom(p, y) ==
    LET n == Len(p.v)
        i == 1 + Pick(y, 1, n)
        h == Chance(y, 2, 70)
        q1 == TLCEval(IF h THEN SplitMid(p, i) ELSE p)
        q2 == TLCEval(IF h /\ Chance(y, 3, 30) THEN SplitMid(q1, i) ELSE q1)
        r == TLCEval(RotPl(q2, IF h THEN i ELSE i - 1))
        m == Len(r.v)
        j == 1 + Pick(y, 4, m - 1)
        r2 == TLCEval(IF Chance(y, 5, 70) THEN SplitMid(r, j) ELSE r)
        t == r2.v[j + 1]
    IN  Closed(SubSeq(r2.v, 1, j) \o << <<t[1], t[2], PickOf(y, 6, CutB)>> >>)
CutOk(p, c) ==
    LET ss == TLCEval(Segs(p))  cs == TLCEval(Segs(c))  k == TLCEval(cs[Len(cs)])
    IN  /\ Len(c.v) >= 2
        /\ Simple(c, 3000)
        /\ \A i \in DOMAIN ss : ApartBut(k, ss[i], {k.a, k.b}, 3000)
TryCut ==
    /\ st = "place"
    /\ Chance(x, 40, 18)
    /\ cells' = CutFrom(a, At(x, 41))      \* kept here until it is accepted
    /\ st' = "cut"
    /\ UNCHANGED <<id, x, a, b>>
Cut ==
    /\ st = "cut"
    /\ cells' = {}
    /\ IF CutOk(a, cells)
       THEN /\ LET tt == Turns[5 + Pick(x, 7, 6)]
                   fin(p) == IF Chance(x, 6, 30) THEN TurnPl(p, tt[1], tt[2], tt[3]) ELSE p
               IN  IF Chance(x, 8, 50) THEN a' = Present(fin(a), At(x, 10)) /\ b' = Present(fin(cells), At(x, 20))
                   ELSE a' = Present(fin(cells), At(x, 10)) /\ b' = Present(fin(a), At(x, 20))
            /\ st' = "done"
            /\ x' = At(x, 30)
       ELSE st' = "uncut" /\ UNCHANGED <<x, a, b>>
    /\ UNCHANGED id
Place ==
    /\ st = "uncut" \/ (st = "place" /\ ~Chance(x, 40, 18))
    /\ LET k == Pick(x, 2, 100)
           b0 == IF SameShape(x) THEN a ELSE b
           tn == IF k < 45 THEN Turns[1 + Pick(x, 3, 4)] ELSE Turns[1 + Pick(x, 3, 10)]
           b1 == IF k < 25 THEN b0 ELSE TurnPl(b0, tn[1], tn[2], tn[3])
           dx == IF k < 65 THEN PickOf(x, 4, Lat) ELSE PickOf(x, 4, Off)
           dy == IF k < 65 THEN PickOf(x, 5, Lat) ELSE PickOf(x, 5, Off)
           b2 == MovePl(b1, dx, dy)
           both == Chance(x, 6, 20)     \* turn the pair as a whole
           tt == Turns[5 + Pick(x, 7, 3)]
           fin(p) == IF both THEN TurnPl(p, tt[1], tt[2], tt[3]) ELSE p
           big == Chance(x, 9, 12)      \* one much larger, the other inside it, in a bay of it or across its edge
           flip == Chance(x, 35, 50)
           a4 == IF flip THEN Scale(a, 4) ELSE Scale(b2, 4)
           m1 == a4.v[1 + Pick(x, 36, Len(a4.v))]
           m2 == a4.v[1 + Pick(x, 37, Len(a4.v))]
           c == IF flip THEN b2 ELSE a
           c4 == MovePl(c, (m1[1] + m2[1]) \div 2 - c.v[1][1] + PickOf(x, 38, Off) \div 10, (m1[2] + m2[2]) \div 2 - c.v[1][2] + PickOf(x, 39, Off) \div 10)
           pr0 == IF ~big THEN <<a, b2>> ELSE IF flip THEN <<a4, c4>> ELSE <<c4, a4>>
           pr == IF ~big /\ Chance(x, 50, 10) THEN TLCEval(<< SoftenSimple(pr0[1], At(x, 60)), SoftenSimple(pr0[2], At(x, 80)) >>) ELSE pr0
       IN  /\ a' = Present(fin(pr[1]), At(x, 10))
           /\ b' = Present(fin(pr[2]), At(x, 20))
    /\ st' = "done"
    /\ x' = At(x, 30)
    /\ UNCHANGED <<id, cells>>

(* other presentations of the same two regions.  i: which spatial index the *)
(* caller supplies (0 none, 1 approximate, 2 exact, 3 oversized); s: the     *)
(* arguments are swapped                                                    *)
Variants ==
    LET ra == 1 + Pick(x, 1, Len(a.v))  rb == 1 + Pick(x, 2, Len(b.v))
        ka == Pick(x, 3, Len(a.v))      kb == Pick(x, 4, Len(b.v))
        dx == PickOf(x, 5, <<7*U, -11*U, 500*U>>)  dy == PickOf(x, 6, <<3*U, -40*U, 0>>)
        mk(p, q, i, s) == [p |-> p, q |-> q, i |-> i, s |-> s]
    IN  << mk(a, b, 1, 0), mk(a, b, 2, 0), mk(a, b, 3, 0), mk(a, b, 0, 1),
           mk(RevPl(a), b, 0, 0), mk(a, RevPl(b), 1, 0), mk(RevPl(a), RevPl(b), 0, 1),
           mk(RotPl(a, ka), b, 0, 0), mk(a, RotPl(b, kb), 0, 0), mk(RotPl(a, ka), RotPl(b, kb), 2, 1),
           mk(SplitMid(a, ra), b, 0, 0), mk(a, SplitMid(b, rb), 0, 0),
           mk(RevPl(RotPl(SplitMid(a, ra), ka)), RotPl(b, kb + 1), 3, 0),
           [p |-> MovePl(a, dx, dy), q |-> MovePl(b, dx, dy), i |-> 0, s |-> 0, dx |-> dx, dy |-> dy] >>

(* input that is not two closed polylines with segments                      *)
Unfit(p, y) == LET k == Pick(y, 1, 4) IN
               CASE k = 0 -> [c |-> 1, v |-> SubSeq(p.v, 1, Pick(y, 2, 2))]
                 [] k = 1 -> [c |-> 0, v |-> SubSeq(p.v, 1, 1 + Pick(y, 2, Len(p.v)))]
                 [] OTHER -> OpenPl(p.v)
Invalid == LET k == Pick(x, 3, 3) IN
           << IF k = 1 THEN a ELSE Unfit(a, At(x, 5)), IF k = 0 THEN b ELSE Unfit(b, At(x, 9)) >>

Emit == /\ st = "done"
        /\ st' = "end"
        /\ PrintT("CASE " \o ToJson(
              IF Mode = "invalid" THEN LET pq == Invalid IN [id |-> id, op |-> "bool", p |-> pq[1], q |-> pq[2]]
              ELSE IF Mode = "bool" THEN [id |-> id, op |-> "bool", p |-> a, q |-> b]
              ELSE [id |-> id, op |-> "boolvar", p |-> a, q |-> b, vs |-> Variants]))
        /\ UNCHANGED <<id, x, cells, a, b>>

Next == \/ Start("a", "ga") \/ Grow("ga") \/ FinishA
        \/ Start("b", "gb") \/ Grow("gb") \/ FinishB
        \/ TryCut \/ Cut \/ Place \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
CellsAreInterior ==
    st \in {"ga", "gb"} =>
      LET ss == Segs(PolyUnit(cells, U)) IN
      /\ \A c \in (0..4) \X (0..4) :
           Wind(ss, <<c[1] * U + H, c[2] * U + H>>) = IF c \in cells THEN 1 ELSE 0
      /\ Area2(ss) = 2 * U * Cardinality(cells)
      /\ PathLen(ss) = U * Cardinality(Edges(cells))
ShapesAreSimple ==
    /\ (st = "b" => Simple(a, 2000) /\ Area2(Segs(a)) > 0)
    /\ (st = "place" => Simple(b, 2000) /\ Area2(Segs(b)) > 0)
=============================================================================
