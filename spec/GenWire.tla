-------------------------------- MODULE GenWire --------------------------------
(***************************************************************************)
(* Values to be written and read back.                                      *)
(***************************************************************************)
EXTENDS Wire, Shapes, TLC, Json
CONSTANTS N, Seed
VARIABLES id, x, st
vars == <<id, x, st>>

Num(k) == PickOf(x, k, << 0, 1, -1, 1000000, -2500000, 333333, -999999999, 123456789, Pick(x, k + 7, 2000000) - 1000000 >>)
Bul(k) == 1000 * PickOf(x, k, << 0, 1000000, -1000000, 414214, -1, 1, Pick(x, k + 7, 2000000) - 1000000 >>)
Bit(k) == Pick(x, k, 2)
Idx(k) == PickOf(x, k, << 0, 1, 2, 255, 256, 70000, 999999999 >>)
Q(k) == 250000 * (Pick(x, k, 4001) - 2000)
QB(k) == 250000000 * (Pick(x, k, 9) - 4)
Vx(k) == << Num(k), Num(k + 1), Bul(k + 2) >>
Vx32(k) == << Q(k), Q(k + 1), QB(k + 2) >>
Len_(k) == PickOf(x, k, << 0, 1, 2, 3, 7 >>)
Pl(k) == [v |-> [i \in 1..Len_(k) |-> Vx(k + 1 + 5 * i)], c |-> Bit(k + 1)]
View_(k) == [start |-> Idx(k), count |-> Idx(k + 1), first |-> Vx(k + 2), bulge |-> Bul(k + 5), last |-> << Num(k + 6), Num(k + 7) >>, inv |-> Bit(k + 8)]
Slice(k) == [view |-> View_(k), one |-> Bit(k + 10), over |-> Bit(k + 11)]
Kinds == << "vertex", "vector", "pline", "view", "slice", "result", "vertex32", "vector32", "pline32" >>
Val(kind) ==
    CASE kind = "vertex" -> Vx(1)
      [] kind = "vector" -> << Num(1), Num(2) >>
      [] kind = "pline" -> Pl(1)
      [] kind = "view" -> View_(1)
      [] kind = "slice" -> Slice(1)
      [] kind = "result" -> [pline |-> Pl(1), subs |-> [i \in 1..Pick(x, 60, 4) |-> Slice(60 + 20 * i)]]
      [] kind = "vertex32" -> Vx32(1)
      [] kind = "vector32" -> << Q(1), Q(2) >>
      [] kind = "pline32" -> [v |-> [i \in 1..Len_(1) |-> Vx32(1 + 5 * i)], c |-> Bit(2)]
Kind == Kinds[1 + (id % Len(Kinds))]

Init == id \in 1..N /\ x = RndSeed(Seed, id) /\ st = "go"
Next == /\ st = "go" /\ st' = "end"
        /\ PrintT("CASE " \o ToJson([id |-> id, op |-> "serde", kind |-> Kind, val |-> Val(Kind)]))
        /\ UNCHANGED <<id, x>>
Spec == Init /\ [][Next]_vars
(* in the specification everything reads back, to the end, and is well formed *)
Laws == LET v == TLCEval(Val(Kind))
            ts == TLCEval(Enc(Kind, v))
            d == TLCEval(Dec(Kind, ts, 1))
        IN  d[1] = v /\ d[2] = Len(ts) + 1 /\ WellFormed(ts)
=============================================================================
