------------------------------- MODULE GenShape -------------------------------
(***************************************************************************)
(* Behaviours that build a shape: disjoint, nested closed loops are added   *)
(* one by one; a loop at even depth bounds material and runs counter-       *)
(* clockwise, one at odd depth is a hole and runs clockwise.                *)
(***************************************************************************)
EXTENDS Shapes, Sampling, Json, IOUtils

CONSTANTS N, Seed, Mode

VARIABLES id, x, st, ls, tries, d
vars == <<id, x, st, ls, tries, d>>

Gap == 150000
Init == /\ id \in 1..N
        /\ x = RndSeed(Seed, id)
        /\ st = "outer" /\ ls = <<>> /\ tries = 0 /\ d = <<0, 0>>

Turns == << <<1,0,1>>, <<1,0,1>>, <<0,1,1>>, <<-1,0,1>>, <<0,-1,1>>, <<3,4,5>>, <<4,-3,5>>, <<-5,12,13>>, <<15,8,17>> >>
Off == << -137000, 0, 0, 173000, 291000, 419000, -361000, 500000, 730000 >>

Big == <<0, 2, 3, 8, 12, 13, 14, 17, 18, 4, 9, 15>>
Outer ==
    /\ st = "outer" /\ Mode = "any"
    /\ LET m == Member(PickOf(x, 1, Big), At(x, 2))
           tn == PickOf(x, 3, Turns)
           k == PickOf(x, 4, <<2, 3, 3>>)
       IN  ls' = << TurnPl(TurnPl(m, k, 0, 1), tn[1], tn[2], tn[3]) >>
    /\ st' = "add"
    /\ x' = At(x, 40)
    /\ UNCHANGED <<id, tries, d>>

(* Everything on a half-unit lattice: parallel sides line up, so that the    *)
(* offsets of separate loops run along each other before they meet          *)
Piece(y) ==
    LET a == PickOf(y, 1, <<H, U, 2 * U>>)  b == PickOf(y, 2, <<H, U, U, 2 * U>>)  f == Pick(y, 3, 12) IN
    CASE f = 0 -> Circle2(H)
      [] f = 1 -> Circle4(PickOf(y, 4, <<H, U>>))
      [] f = 2 -> EllShape(2 * U, 2 * U, a \div 2 + 250000)
      [] f = 3 -> RoundRect(2 * U, U, 250000)
      [] f = 4 -> Capsule(a, H)
      [] f = 5 -> UShape(3 * U, 2 * U, PickOf(y, 4, <<H, U>>))
      [] f = 6 -> HalfDisc(PickOf(y, 4, <<H, U>>))
      [] OTHER -> Rect(a, b)
OuterGrid ==
    /\ st = "outer" /\ Mode # "any"
    /\ ls' = << CASE Pick(x, 1, 4) = 0 -> Rect(8 * U, PickOf(x, 2, <<4 * U, 6 * U, 8 * U>>))
                  [] Pick(x, 1, 4) = 1 -> RoundRect(8 * U, 6 * U, U)
                  [] OTHER -> MovePl(Piece(At(x, 2)), 3 * U, 3 * U) >>
    /\ st' = "add"
    /\ x' = At(x, 40)
    /\ UNCHANGED <<id, tries, d>>

Depth(p) == Cardinality({ i \in DOMAIN ls : Wind(Segs(ls[i]), p) # 0 })
BoxOf(pl) == LET ss == Segs(pl) IN << Lo(ss, "x0"), Lo(ss, "y0"), Hi(ss, "x1"), Hi(ss, "y1") >>
CandGrid == LET p == TLCEval(Piece(At(x, 3)))  n == Len(p.v) IN
    MovePl(IF Chance(x, 2, 50) THEN p ELSE RotPl(p, 1 + Pick(x, 20, n)), Pick(x, 31, 18) * H - H, Pick(x, 32, 18) * H - H)
Cand ==
    IF Mode # "any" THEN CandGrid ELSE
    LET m == Member(Pick(x, 1, NFam), At(x, 2))
        tn == PickOf(x, 3, Turns)
        k == PickOf(x, 4, << <<1, 3>>, <<1, 2>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<3, 2>> >>)
        sc == TurnPl(TurnPl(m, k[1], 0, k[2]), tn[1], tn[2], tn[3])
        bx == TLCEval(BoxOf(ls[1]))
        w == (bx[3] - bx[1]) \div 1000  h == (bx[4] - bx[2]) \div 1000
        outside == Chance(x, 9, 12)
        px == bx[1] + (IF outside THEN -2 * U + Pick(x, 5, w + 4000) * 1000 ELSE Pick(x, 5, w) * 1000)
        py == bx[2] + (IF outside THEN -2 * U + Pick(x, 6, h + 4000) * 1000 ELSE Pick(x, 6, h) * 1000)
    IN  MovePl(sc, px, py)
Fits(c) ==
    LET cs == Segs(c) IN
    /\ Area2(cs) > 20000
    /\ \A i \in DOMAIN ls : LET ss == Segs(ls[i]) IN
         /\ Wind(cs, ss[1].a) = 0                       \* nothing inside the new loop
         /\ \A j \in DOMAIN ss : \A k \in DOMAIN cs : Apart(ss[j], cs[k], Gap)
Add ==
    /\ st = "add"
    /\ IF tries >= (IF Mode # "any" THEN 24 ELSE 14) \/ Len(ls) >= 6
       THEN st' = "dist" /\ UNCHANGED <<ls, tries>>
       ELSE /\ LET c == TLCEval(Cand) IN
               ls' = IF Fits(c) THEN Append(ls, IF Depth(PosOf(c.v[1])) % 2 = 0 THEN c ELSE RevPl(c)) ELSE ls
            /\ tries' = tries + 1
            /\ st' = st
    /\ x' = At(x, 45)
    /\ UNCHANGED <<id, d>>

(* a first distance, and a second to offset the result by (same direction)  *)
Pairs == << <<61000, 137000>>, <<137000, 96000>>, <<193000, 61000>>, <<237000, 137000>>, <<317000, 96000>>, <<413000, 237000>>,
            <<571000, 137000>>, <<683000, 96000>>, <<857000, 61000>>, <<1137000, 193000>> >>
(* exactly half a gap: loops of the offset touch, or run along each other    *)
(* (which leaves nothing for a second offset to be defined on)               *)
Exact == << <<250000, 0>>, <<500000, 0>>, <<125000, 0>>, <<750000, 0>>, <<1000000, 0>> >>
Dist == /\ st = "dist"
        /\ LET p == IF Mode = "touch" THEN PickOf(x, 1, Exact) ELSE PickOf(x, 1, Pairs) IN d' = IF Chance(x, 2, 50) THEN p ELSE <<-p[1], -p[2]>>
        /\ st' = "done" /\ x' = At(x, 3)
        /\ UNCHANGED <<id, ls, tries>>
Emit == /\ st = "done" /\ st' = "end"
        /\ LET extra == IF Chance(x, 1, 15) THEN << Closed(<<>>), Closed(<< V(U, U, 0) >>) >> ELSE <<>>
               all == TLCEval(ls \o extra)
               k == Pick(x, 2, Len(all))
               tn == IF Mode # "any" THEN PickOf(x, 3, << <<1,0,1>>, <<1,0,1>>, <<0,1,1>>, <<3,4,5>>, <<-4,3,5>> >>) ELSE <<1,0,1>>
               rot == [i \in DOMAIN all |-> TurnPl(all[((i - 1 + k) % Len(all)) + 1], tn[1], tn[2], tn[3])]
           IN  PrintT("CASE " \o ToJson([id |-> id, op |-> "shape", ps |-> rot, d |-> d[1], d2 |-> d[2]]))
        /\ UNCHANGED <<id, x, ls, tries, d>>
Next == Outer \/ OuterGrid \/ Add \/ Dist \/ Emit
Spec == Init /\ [][Next]_vars

RECURSIVE WSum(_, _)
WSum(p, i) == IF i = 0 THEN 0 ELSE Wind(Segs(ls[i]), p) + WSum(p, i - 1)
(* every point is material or not: the loops wind 0 or 1 times round it     *)
Nested == (st = "done") =>
    \A p \in GridOver(Segs(ls[1]), 6, U) : (\A i \in DOMAIN ls : ClearOf(Segs(ls[i]), p, 10)) => WSum(p, Len(ls)) \in {0, 1}
=============================================================================
