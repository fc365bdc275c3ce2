------------------------------- MODULE GenCont --------------------------------
(***************************************************************************)
(* Histories of container operations.                                       *)
(* Mode "all": the state graph is explored up to the bounds; histories to    *)
(* the same abstract state are merged (VIEW), so every reachable state is    *)
(* emitted once, with a shortest history, and the replay tries every         *)
(* operation in it: every transition of the bounded state machine.           *)
(* Mode "long": pseudo-random histories of Depth operations.                 *)
(***************************************************************************)
EXTENDS Cont, Shapes, Json

CONSTANTS N, Seed, Mode, Depth, MaxP, MaxQ

VARIABLES id, x, s, h, st
vars == <<id, x, s, h, st>>

A == <<0, 0, 0>>
A2 == <<1, -1, -1000000000>>       \* the same position, to the tolerance
B == <<2000000, 1000000, 1000000000>>
Ops == << <<"add", A>>, <<"add", A2>>, <<"addv", B>>, <<"adda", B>>, <<"addor", A2>>, <<"addorv", B>>, <<"addorv", A>>,
          <<"ins", 0, B>>, <<"insv", 1, A>>, <<"insv", 2, A2>>, <<"ins", 3, B>>,
          <<"set", 0, B>>, <<"setv", 1, A2>>, <<"seti", 2, A>>, <<"setlast", A>>, <<"setlast", B>>,
          <<"rem", 0>>, <<"rem", 1>>, <<"rem", 2>>, <<"remlast">>, <<"clear">>, <<"reserve", 5>>, <<"flag", 0>>, <<"flag", 1>>,
          <<"invert">>, <<"scale", 2>>, <<"scale", -1>>, <<"move", 2000000, 1000000>>, <<"move", -2000000, -1000000>>,
          <<"extend">>, <<"extendv">>, <<"extendrr">>, <<"copy">>, <<"fromiter">>, <<"copyrr">>, <<"swap">>, <<"new", 1>>, <<"new", 0>> >>

S0 == [p |-> PL(0, <<>>), q |-> PL(0, <<>>)]
Small(t) == /\ Len(t.p.v) <= MaxP /\ Len(t.q.v) <= MaxQ
            /\ AllIn(t.p, 2100000) /\ AllIn(t.q, 2100000)

Init == /\ id \in (IF Mode = "all" THEN {0} ELSE 1..N)
        /\ x = RndSeed(Seed, id) /\ s = S0 /\ h = <<>> /\ st = "go"
NextAll == /\ Mode = "all" /\ st = "go"
           /\ \E i \in { i \in DOMAIN Ops : Ops[i][1] \notin {"scale", "move"} } :   \* these two are tried in every state but not built upon
                LET e == Step(s, Ops[i]) IN
                /\ e.k = 0
                /\ s' = e.s /\ Small(s')
                /\ h' = Append(h, Ops[i])
           /\ UNCHANGED <<id, x, st>>
(* random operations with more variety                                       *)
Vx(y) == << Pick(y, 1, 9) * 500000 - 2000000, Pick(y, 2, 9) * 500000 - 2000000, PickOf(y, 3, <<0, 0, 1000000000, -1000000000, 123456789, -414213562>>) >>
Near1(y) == LET v == s.p.v IN IF v = <<>> THEN Vx(y) ELSE LET e == v[IF Chance(y, 5, 50) THEN Len(v) ELSE 1 + Pick(y, 6, Len(v))] IN << e[1] + Pick(y, 7, 3) - 1, e[2] + Pick(y, 8, 3) - 1, Vx(y)[3] >>
RndOp(y) ==
    LET o == Ops[1 + Pick(y, 20, Len(Ops))]
        e == IF Chance(y, 21, 35) THEN Near1(y) ELSE Vx(y)
        n == Len(s.p.v)
    IN  CASE o[1] \in {"add", "addv", "adda", "addor", "addorv", "setlast"} -> << o[1], e >>
          [] o[1] \in {"ins", "insv", "set", "setv", "seti"} -> << o[1], Pick(y, 22, n + 2), e >>
          [] o[1] = "rem" -> << o[1], Pick(y, 22, n + 2) >>
          [] o[1] = "move" -> << "move", Pick(y, 23, 9) * 500000 - 2000000, Pick(y, 24, 9) * 500000 - 2000000 >>
          [] o[1] = "scale" -> << "scale", PickOf(y, 23, <<-1, 2, -1, 1, -2>>) >>
          [] o[1] \in {"clear", "new"} -> IF Chance(y, 25, 15) THEN o ELSE << "add", e >>
          [] OTHER -> o
(* no two positions whose distance is about the tolerance                    *)
Decided(t) == LET w == t.p.v \o t.q.v IN
    \A i \in DOMAIN w : \A j \in DOMAIN w :
        i < j => Abs(Abs(w[i][1] - w[j][1]) - Eps) > 2 /\ Abs(Abs(w[i][2] - w[j][2]) - Eps) > 2
Fits(t) == Decided(t) /\ AllIn(t.p, 400000000) /\ AllIn(t.q, 400000000) /\ Len(t.p.v) <= 24 /\ Len(t.q.v) <= 24
NextLong == /\ Mode = "long" /\ st = "go"
            /\ LET o == RndOp(x)
                   e == TLCEval(Step(s, o))
               IN  IF Len(h) = Depth THEN st' = "done" /\ UNCHANGED <<s, h>>
                   ELSE /\ s' = IF Fits(e.s) THEN e.s ELSE s
                        /\ h' = IF Fits(e.s) THEN Append(h, o) ELSE Append(h, <<"reserve", 3>>)
                        /\ st' = st
            /\ x' = At(x, 31)
            /\ UNCHANGED id
(* polylines to compare with the one reached                                 *)
DropLast(pl) == PL(pl.c, SubSeq(pl.v, 1, Len(pl.v) - 1))
Nudge(pl, i, k, d) == PL(pl.c, [pl.v EXCEPT ![i][k] = @ + d])
Others == LET p == s.p  n == Len(p.v) IN
          << p, PL(1 - p.c, p.v), s.q >> \o
          (IF n = 0 THEN <<>>
           ELSE << Nudge(p, n, 1, 4), Nudge(p, 1, 2, -40), Nudge(p, n, 3, 4000), Nudge(p, 1, 3, 40000), Nudge(p, 1, 1, 100000), DropLast(p), PL(p.c, Append(p.v, p.v[n])) >>)
Emit == /\ (Mode = "all" /\ st = "go") \/ st = "done"
        /\ st' = "end"
        /\ PrintT("CASE " \o ToJson([id |-> id, op |-> "cont", h |-> h, fan |-> IF Mode = "all" THEN Ops ELSE <<>>, others |-> Others]))
        /\ UNCHANGED <<id, x, s, h>>
Next == NextAll \/ NextLong \/ Emit
Spec == Init /\ [][Next]_vars
View == << id, x, s, IF Mode = "all" THEN <<>> ELSE h, st >>

(* the container laws that hold of the specification itself                  *)
Laws ==
    LET p == s.p
        inv == Step(Step(s, <<"invert">>).s, <<"invert">>).s.p
    IN  /\ Blur(inv) = Blur(p)
        /\ Len(Pairs(p)) = NSegs(p)
        /\ NSegs(p) > 0 => \A i \in 1..(NSegs(p) - 1) : Pairs(p)[i][2] = Pairs(p)[i + 1][1]
        /\ p.c = 1 /\ NSegs(p) > 0 => Pairs(p)[NSegs(p)][2] = Pairs(p)[1][1]
        /\ Len(Unrepeated(p).v) <= Len(p.v)
        /\ Unrepeated(Unrepeated(p)) = Unrepeated(p)
        /\ p.v # <<>> => Unrepeated(p).v # <<>>
=============================================================================
