--------------------------------- MODULE Cont ---------------------------------
(***************************************************************************)
(* A polyline as a container: a sequence of vertexes with a closed flag.    *)
(* State: two polylines p and q.  An operation is a tuple whose first       *)
(* element names it; Step(s, op) is the state after it, the value it gives  *)
(* back, and whether it is refused (a documented panic, which leaves the    *)
(* state alone).                                                            *)
(***************************************************************************)
EXTENDS Geom

Eps == 10      \* the position tolerance used, in units
SamePos(u, v) == Abs(u[1] - v[1]) < Eps /\ Abs(u[2] - v[2]) < Eps
WithB(v, g) == << v[1], v[2], g >>
PL(c, v) == [c |-> c, v |-> v]

InsertAt2(v, i, e) == SubSeq(v, 1, i) \o <<e>> \o SubSeq(v, i + 1, Len(v))     \* i counts from 0
DropAt(v, i) == SubSeq(v, 1, i) \o SubSeq(v, i + 2, Len(v))
SetAt(v, i, e) == [v EXCEPT ![i + 1] = e]

(* append, or take over the bulge when the position repeats the last one's   *)
AddOr(v, e) ==
    IF v # <<>> /\ SamePos(v[Len(v)], e) THEN [v EXCEPT ![Len(v)] = WithB(v[Len(v)], e[3])] ELSE Append(v, e)
RECURSIVE AddAllOr(_, _)
AddAllOr(v, es) == IF es = <<>> THEN v ELSE AddAllOr(AddOr(v, es[1]), Tail(es))
(* the closing position does not repeat the first either                    *)
Unrepeated(pl) ==
    LET v == AddAllOr(<<>>, pl.v) IN
    IF pl.c = 1 /\ Len(v) >= 2 /\ SamePos(v[1], v[Len(v)]) THEN PL(pl.c, SubSeq(v, 1, Len(v) - 1)) ELSE PL(pl.c, v)

(* travelling the other way; the last bulge of an open polyline means        *)
(* nothing                                                                  *)
Invert(pl) ==
    LET n == Len(pl.v) IN
    IF n < 2 THEN pl
    ELSE PL(pl.c, [i \in 1..n |->
           WithB(pl.v[n + 1 - i], IF i < n THEN -pl.v[n - i][3]
                                  ELSE IF pl.c = 1 THEN -pl.v[n][3] ELSE pl.v[1][3])])
Map(pl, f(_)) == PL(pl.c, [i \in DOMAIN pl.v |-> f(pl.v[i])])
ScaleBy(k, v) == << k * v[1], k * v[2], v[3] >>
MoveBy(x, y, v) == << v[1] + x, v[2] + y, v[3] >>

OnP(s, v) == [s EXCEPT !.p = PL(s.p.c, v)]
Ok(s) == [s |-> s, r |-> <<>>, k |-> 0]
OkR(s, v) == [s |-> s, r |-> <<v>>, k |-> 0]
Refused(s) == [s |-> s, r |-> <<>>, k |-> 1]
Step(s, op) ==
    LET o == op[1]
        v == s.p.v
        n == Len(v)
    IN  CASE o \in {"add", "addv", "adda"} -> Ok(OnP(s, Append(v, op[2])))
          [] o \in {"addor", "addorv"} -> Ok(OnP(s, AddOr(v, op[2])))
          [] o \in {"ins", "insv"} -> IF op[2] <= n THEN Ok(OnP(s, InsertAt2(v, op[2], op[3]))) ELSE Refused(s)
          [] o \in {"set", "setv", "seti"} -> IF op[2] < n THEN Ok(OnP(s, SetAt(v, op[2], op[3]))) ELSE Refused(s)
          [] o = "setlast" -> IF n > 0 THEN Ok(OnP(s, SetAt(v, n - 1, op[2]))) ELSE Refused(s)
          [] o = "rem" -> IF op[2] < n THEN OkR(OnP(s, DropAt(v, op[2])), v[op[2] + 1]) ELSE Refused(s)
          [] o = "remlast" -> IF n > 0 THEN OkR(OnP(s, DropAt(v, n - 1)), v[n]) ELSE Refused(s)
          [] o = "clear" -> Ok(OnP(s, <<>>))
          [] o = "reserve" -> Ok(s)
          [] o = "flag" -> Ok([s EXCEPT !.p = PL(op[2], v)])
          [] o = "invert" -> Ok([s EXCEPT !.p = Invert(s.p)])
          [] o = "scale" -> Ok([s EXCEPT !.p = Map(s.p, LAMBDA w : ScaleBy(op[2], w))])
          [] o = "move" -> Ok([s EXCEPT !.p = Map(s.p, LAMBDA w : MoveBy(op[2], op[3], w))])
          [] o = "extend" -> Ok(OnP(s, v \o s.q.v))
          [] o = "extendv" -> Ok(OnP(s, v \o SubSeq(s.q.v, 1, Min2(Len(s.q.v), 2))))
          [] o = "extendrr" -> Ok(OnP(s, AddAllOr(v, s.q.v)))
          [] o = "copy" -> Ok([s EXCEPT !.q = s.p])
          [] o = "fromiter" -> Ok([s EXCEPT !.q = PL(1 - s.p.c, s.p.v)])
          [] o = "copyrr" -> Ok([s EXCEPT !.q = Unrepeated(s.p)])
          [] o = "swap" -> Ok([p |-> s.q, q |-> s.p])
          [] o = "new" -> Ok([s EXCEPT !.p = PL(op[2], <<>>)])
(* is the observed step r the one specified                                  *)
Blur(pl) == IF pl.c = 0 /\ Len(pl.v) > 1 THEN PL(0, [pl.v EXCEPT ![Len(pl.v)][3] = 0]) ELSE pl
Conforms(s, op, r) ==
    LET e == Step(s, op) IN
    /\ r.k = e.k
    /\ r.r = e.r
    /\ r.q = e.s.q
    /\ IF op[1] = "invert" THEN Blur(r.p) = Blur(e.s.p) ELSE r.p = e.s.p

-----------------------------------------------------------------------------
(* What the queries show                                                    *)
Pairs(pl) == [i \in 1..NSegs(pl) |-> << pl.v[i], pl.v[NextI(pl, i)] >>]
PairIx(pl) == [i \in 1..NSegs(pl) |-> << i - 1, NextI(pl, i) - 1 >>]
Rev(v) == [i \in DOMAIN v |-> v[Len(v) + 1 - i]]
Left(n) == [i \in 1..(n + 1) |-> n + 1 - i]     \* what remains before each step of an iterator
(* front, back, front, back ...                                             *)
RECURSIVE Alt(_, _)
Alt(v, front) == IF v = <<>> THEN <<>>
                 ELSE IF front THEN <<v[1]>> \o Alt(Tail(v), FALSE)
                 ELSE <<v[Len(v)]>> \o Alt(SubSeq(v, 1, Len(v) - 1), TRUE)
Shows(pl) ==
    LET v == pl.v
        n == Len(v)
    IN  [ n |-> n, empty |-> IF n = 0 THEN 1 ELSE 0, closed |-> pl.c, segs |-> NSegs(pl),
          last |-> IF n = 0 THEN <<>> ELSE << v[n] >>,
          get |-> [i \in 1..(n + 2) |-> IF i <= n THEN << v[i] >> ELSE <<>>],
          at |-> v, index |-> v, iter |-> v, back |-> Rev(v), alt |-> Alt(v, TRUE), clone |-> pl,
          left |-> Left(n), altleft |-> Left(n),
          pairs |-> Pairs(pl), pairsleft |-> Left(NSegs(pl)),
          pairix |-> PairIx(pl), pairixleft |-> Left(NSegs(pl)),
          next |-> [i \in 1..n |-> IF i = n THEN 0 ELSE i],
          prev |-> [i \in 1..n |-> IF i = 1 THEN n - 1 ELSE i - 2],
          dist |-> [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN j - i ELSE n - i + j]],
          fwd |-> [i \in 1..n |-> [k \in 1..(n + 1) |-> (i - 1 + k - 1) % n]],
          refused |-> [i \in 1..2 |-> 1] ]
(* equal up to a tolerance: same flag, same count, every vertex near         *)
Alike(a, b, eps, geps) == /\ a.c = b.c /\ Len(a.v) = Len(b.v)
                          /\ \A i \in DOMAIN a.v : /\ Abs(a.v[i][1] - b.v[i][1]) < eps
                                                   /\ Abs(a.v[i][2] - b.v[i][2]) < eps
                                                   /\ Abs(a.v[i][3] - b.v[i][3]) < geps
=============================================================================
