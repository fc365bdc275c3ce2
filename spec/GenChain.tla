-------------------------------- MODULE GenChain --------------------------------
(***************************************************************************)
(* Histories of operations on a workspace of closed polylines.  A behaviour  *)
(* fills the workspace with shapes, then applies operations one after the    *)
(* other; operands are named by position (taken modulo what is there), and   *)
(* what the workspace holds later depends on what the operations gave, which *)
(* is for the implementation to say and for TrChain to judge.               *)
(***************************************************************************)
EXTENDS Shapes, Json

CONSTANTS N, Seed, Depth

VARIABLES id, x, cells, pool, hist
vars == <<id, x, cells, pool, hist>>

Init == /\ id \in 1..N
        /\ x = RndSeed(Seed, id)
        /\ cells = {}
        /\ pool = <<>> /\ hist = <<>>

Turns == << <<1,0,1>>, <<0,1,1>>, <<-1,0,1>>, <<0,-1,1>>, <<3,4,5>>, <<4,-3,5>>, <<5,12,13>> >>
Lat == << -2*U, -U, -H, 0, 0, H, U, 2*U, 3*U >>
Off == << -1530000, -710000, -170000, 130000, 370000, 890000, 1610000, 2270000 >>
Place(p, y) ==
    LET k == Pick(y, 1, 100)
        tn == IF k < 60 THEN Turns[1 + Pick(y, 2, 4)] ELSE PickOf(y, 2, Turns)
        t == TurnPl(p, tn[1], tn[2], tn[3])
        m == IF k < 75 THEN MovePl(t, PickOf(y, 3, Lat), PickOf(y, 4, Lat)) ELSE MovePl(t, PickOf(y, 3, Off), PickOf(y, 4, Off))
        r == IF Chance(y, 5, 30) THEN RevPl(m) ELSE m
    IN  RotPl(r, Pick(y, 6, Len(r.v)))

Grow == /\ Len(pool) < 4 /\ hist = <<>>
        /\ cells # {} \/ Chance(x, 1, 35)
        /\ Cardinality(cells) < 7
        /\ cells' = GrowStep(cells, x)
        /\ x' = At(x, 3)
        /\ UNCHANGED <<id, pool, hist>>
Fill == /\ Len(pool) < 4 /\ hist = <<>>
        /\ \/ cells # {} /\ Cardinality(cells) >= 7 /\ pool' = Append(pool, TLCEval(Place(FromCells(cells, At(x, 2)), At(x, 40))))
           \/ cells = {} /\ ~Chance(x, 1, 35) /\ pool' = Append(pool, TLCEval(Place(Member(Pick(x, 3, NFam), At(x, 4)), At(x, 40))))
        /\ cells' = {}
        /\ x' = At(x, 50)
        /\ UNCHANGED <<id, hist>>

Dists == << 61000, 137000, 237000, 317000, 413000, 571000, 683000, 857000 >>
Bools == <<"or", "and", "not", "xor">>
Step(y) ==
    LET k == Pick(y, 1, 100)
        i == Pick(y, 2, 97)  j == Pick(y, 3, 89)
        d == PickOf(y, 4, Dists)
        st(o, n) == [o |-> o, i |-> i, j |-> j, n |-> n]
    IN  CASE k < 48 -> st(PickOf(y, 5, Bools), 0)
          [] k < 74 -> st("offset", IF Chance(y, 5, 55) THEN d ELSE -d)
          [] k < 80 -> st("reverse", 0)
          [] k < 86 -> st("rotate", Pick(y, 5, 1000))
          [] k < 91 -> st("redundant", 0)
          [] k < 94 -> st("repeats", 0)
          [] k < 97 -> st("lines", PickOf(y, 5, <<200, 1000, 5000>>))
          [] OTHER -> st("shape", IF Chance(y, 5, 55) THEN d ELSE -d)
Do == /\ Len(pool) = 4 /\ Len(hist) < Depth
      /\ hist' = Append(hist, TLCEval(Step(x)))
      /\ x' = At(x, 9)
      /\ UNCHANGED <<id, cells, pool>>
      /\ Len(hist') = Depth => PrintT("CASE " \o ToJson([id |-> id, op |-> "chain", ps |-> pool, h |-> hist']))
Next == Grow \/ Fill \/ Do
Spec == Init /\ [][Next]_vars

(* what the histories start from                                            *)
StartSimple == \A i \in DOMAIN pool : i = Len(pool) /\ hist = <<>> => Simple(pool[i], 2000)
=============================================================================
