-------------------------------- MODULE GenTotal --------------------------------
(***************************************************************************)
(* Degenerate polylines: every one with up to MaxN vertexes whose positions  *)
(* lie on a small lattice and whose bulges are those of Bul, or random       *)
(* longer ones on the same lattice (these cross themselves, so they are not  *)
(* given to shape offset and boolean, which ask for simple loops).           *)
(* Behaviours add vertexes one by one, so the state graph is the tree of all *)
(* polylines.                                                               *)
(***************************************************************************)
EXTENDS Shapes, SequencesExt, Json

CONSTANTS Mode, MaxN, N, Seed, Grid, Curves
VARIABLES id, x, pl, q
vars == <<id, x, pl, q>>

Pts == CASE Grid = "line" -> { <<0, 0>>, <<U, 0>>, <<2 * U, 0>> }
         [] Grid = "corner" -> { <<0, 0>>, <<U, 0>>, <<0, U>> }
         [] Grid = "near" -> { <<0, 0>>, <<U, 0>>, <<U + 2, 1>>, <<2 * U, U>> }
         [] Grid = "square" -> { <<0, 0>>, <<U, 0>>, <<0, U>>, <<U, U>> }
         [] Grid = "big" -> { <<i * U, k * U>> : i \in 0..2, k \in 0..2 }
Bul == CASE Curves = "lines" -> {0}
         [] Curves = "half" -> {0, G, -G}
         [] Curves = "arcs" -> {0, G, -B90}
         [] Curves = "shallow" -> {0, G, -G, B90, -B60, G \div 1000, -(G \div 1000)}
         [] Curves = "some" -> {0, G, -G, B90, -B60, 1000, -1000}
Vs == { V(p[1], p[2], b) : p \in Pts, b \in Bul }
(* a polyline without repeated positions is what the computing operations   *)
(* ask for (also between last and first when closed)                         *)
Close(u, v) == Abs(u[1] - v[1]) <= 10 /\ Abs(u[2] - v[2]) <= 10
Repeats(p) == LET n == Len(p.v) IN
    \/ \E i \in 1..(n - 1) : Close(p.v[i], p.v[i + 1])
    \/ p.c = 1 /\ n > 1 /\ Close(p.v[n], p.v[1])
Qs(p) == << <<0, 0>>, <<U, 0>>, <<U \div 2, U \div 2>>, <<-U, 3 * U>>, <<333333, -777>> >>
Ds == << 250000, -250000, 500000, -500000, 1000000, -1000000, 70001, -1300003 >>
Emit(p) ==
    IF Mode \in {"query", "rquery"} THEN PrintT("CASE " \o ToJson([id |-> 0, op |-> "totq", p |-> p, qs |-> Qs(p)]))
    ELSE IF Repeats(p) THEN TRUE
    ELSE IF Mode \in {"offset", "roffset"} THEN PrintT("CASE " \o ToJson([id |-> 0, op |-> "toto", p |-> p, ds |-> Ds, shape |-> IF Mode = "offset" /\ MaxN <= 3 /\ Grid # "near" THEN 1 ELSE 0]))
    ELSE TRUE
Sq == [c |-> 1, v |-> << V(0,0,0), V(U,0,0), V(U,U,0), V(0,U,0) >>]
Others == << Sq, [c |-> 1, v |-> << V(0, 0, G), V(U, 0, G) >>], [c |-> 1, v |-> << V(0, 0, 0), V(U, 0, 0) >>],
             [c |-> 0, v |-> << V(-U, 0, 0), V(3 * U, 0, 0) >>], [c |-> 1, v |-> <<>>], [c |-> 1, v |-> << V(0, 0, G) >>],
             [c |-> 1, v |-> << V(0,0,0), V(0,U,0), V(U,U,0), V(U,0,0) >>],
             [c |-> 1, v |-> << V(-U,-U,0), V(3*U,-U,0), V(3*U,3*U,0), V(-U,3*U,0) >>] >>
EmitPairs(p) ==
    Mode \in {"pairs", "rpairs"} /\ ~Repeats(p) =>
        /\ \A k \in DOMAIN Others : /\ PrintT("CASE " \o ToJson([id |-> k, op |-> "totp", bool |-> IF Mode = "pairs" THEN 1 ELSE 0, p |-> p, q |-> Others[k]]))
                                    /\ PrintT("CASE " \o ToJson([id |-> k, op |-> "totp", bool |-> IF Mode = "pairs" THEN 1 ELSE 0, p |-> Others[k], q |-> p]))
        /\ PrintT("CASE " \o ToJson([id |-> 0, op |-> "totp", bool |-> IF Mode = "pairs" THEN 1 ELSE 0, p |-> p, q |-> p]))
        /\ PrintT("CASE " \o ToJson([id |-> 0, op |-> "totp", bool |-> IF Mode = "pairs" THEN 1 ELSE 0, p |-> p, q |-> RevPl(p)]))

Random == Mode \in {"rquery", "roffset", "rpairs"}
Init == IF Random
        THEN /\ id \in 1..N /\ x = RndSeed(Seed, id) /\ pl = [c |-> Pick(x, 3, 2), v |-> <<>>] /\ q = 4 + Pick(x, 4, MaxN - 3)
        ELSE /\ id = 0 /\ x = 0 /\ pl \in { [c |-> c, v |-> <<>>] : c \in 0..1 } /\ q = 0
PickVs(y) == LET P == SetToSeq(Pts)  B == SetToSeq(Bul)  p == PickOf(y, 1, P) IN V(p[1], p[2], PickOf(y, 2, B))
Next ==
    IF Random
    THEN /\ q > 0
         /\ pl' = [pl EXCEPT !.v = Append(@, PickVs(x))]
         /\ x' = At(x, 7) /\ q' = q - 1 /\ id' = id
         /\ q = 1 => Emit(pl') /\ EmitPairs(pl')
    ELSE /\ Len(pl.v) < MaxN
         /\ pl.v = <<>> => Emit(pl) /\ EmitPairs(pl)
         /\ \E v \in Vs : pl' = [pl EXCEPT !.v = Append(@, v)]
         /\ Emit(pl') /\ EmitPairs(pl')
         /\ UNCHANGED <<id, x, q>>
Spec == Init /\ [][Next]_vars
=============================================================================
