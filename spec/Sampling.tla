------------------------------ MODULE Sampling ------------------------------
(* Sample points and crossing tests shared by the trace specifications.     *)
EXTENDS Geom

Lo(ss, f) == CHOOSE z \in { s[f] : s \in { ss[i] : i \in DOMAIN ss } } :
               \A i \in DOMAIN ss : z <= ss[i][f]
Hi(ss, f) == CHOOSE z \in { s[f] : s \in { ss[i] : i \in DOMAIN ss } } :
               \A i \in DOMAIN ss : z >= ss[i][f]
(* a skewed grid over the boxes of segments, grown by m                     *)
GridOver(ss, n, m) ==
    LET x0 == Lo(ss, "x0") - m  x1 == Hi(ss, "x1") + m  y0 == Lo(ss, "y0") - m  y1 == Hi(ss, "y1") + m
    IN  { << x0 + ((x1 - x0) \div n) * i + 1237 * j, y0 + ((y1 - y0) \div n) * j + 1621 * i>> :
            i \in 0..n, j \in 0..n }

RECURSIVE FlatR(_, _)
FlatR(ls, i) == IF i > Len(ls) THEN <<>> ELSE ls[i] \o FlatR(ls, i + 1)
FlatSegs(ls) == TLCEval(FlatR(ls, 1))

SideAmount(s, p) ==
    IF s.g = 0 THEN IF s.l = 0 THEN 0
                    ELSE DivSum(<< <<s.b[1] - s.a[1], p[2] - s.a[2]>>, <<s.a[2] - s.b[2], p[1] - s.a[1]>> >>, << <<s.l>> >>)
    ELSE Sgn(s.g) * (s.r - PD(p, s.c))

(* segments (not slivers, whose rounded circles are too uncertain) cross at  *)
(* an angle, away from the ends of both                                     *)
Uncertain(s) == IF s.g = 0 \/ s.l = 0 THEN 0 ELSE DivSum(<< <<100, s.r>> >>, << <<s.l>> >>)
ProperCross(s, t) ==
    /\ s.l > 20000 /\ t.l > 20000
    /\ \E p \in Hits(s, t, 10) :
         /\ LET m == 300 + Uncertain(s) + Uncertain(t) IN
            /\ PD(p, s.a) > m /\ PD(p, s.b) > m
            /\ PD(p, t.a) > m /\ PD(p, t.b) > m
         /\ LET u == TanAt(s, p)  w == TanAt(t, p)
            IN  Abs(DivSum(<< <<u[1], w[2]>>, <<-u[2], w[1]>> >>, << <<U>> >>)) > U \div 50
SelfCross(ss) == \E i \in DOMAIN ss : \E j \in DOMAIN ss : i < j /\ ProperCross(ss[i], ss[j])
=============================================================================
