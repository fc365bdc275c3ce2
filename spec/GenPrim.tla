------------------------------- MODULE GenPrim --------------------------------
(***************************************************************************)
(* Inputs of the single-segment functions (C21) and of the line and circle   *)
(* primitives (C22).  A family enumerates a finite lattice of inputs: case   *)
(* number e in 0..Total-1 is decoded into its coordinates; N = Total covers  *)
(* the lattice, a smaller N takes an even stride through it.                 *)
(***************************************************************************)
EXTENDS Shapes, Sampling, Json

CONSTANTS N, Seed, Family

VARIABLES id, e, x, st
vars == <<id, e, x, st>>

Grid(n, k, step, lo) == << lo + step * (k % n), lo + step * (k \div n) >>
Digit(i, base) == (e \div base) % i
Bs == << 0, G, -G, B90, -B90, B60, -B60, B120, -B120, 300000000, -300000000, 50000000, -50000000, 700000000, -700000000, 5000000, -5000000, 999000000, -999000000 >>
Dirs24 == [i \in 1..24 |-> LET k == IF i - 1 < 12 THEN i - 1 ELSE i IN Grid(5, k, H, -U)]
Orgs == << <<0, 0>>, <<U, -2 * U>>, <<1234567, -765432>>, <<-40000000, 30000001>> >>
Bs7 == << 0, G, -G, B90, -B90, 300000000, -300000000 >>
Rads == << H, U, U + H, 2 * U, 2 * U + H, 5 * U >>
Turns == << <<1,0,1>>, <<0,1,1>>, <<3,4,5>>, <<4,-3,5>>, <<-5,12,13>> >>
TurnPt(p, t) == << DivSum(<< <<p[1], t[1]>>, <<-p[2], t[2]>> >>, << <<t[3]>> >>), DivSum(<< <<p[1], t[2]>>, <<p[2], t[1]>> >>, << <<t[3]>> >>) >>
(* the twelve lattice points of a circle and the arcs between them           *)
RPt(k) == << 400000 * Dirs12[1 + k][1], 400000 * Dirs12[1 + k][2] >>
RG(i, j, half) ==
    LET u == Dirs12[1 + i]  w == Dirs12[1 + j]
        c == u[1] * w[2] - u[2] * w[1]
        d == 25 + u[1] * w[1] + u[2] * w[2]
        k == 10000000
    IN  IF i = j THEN 0 ELSE IF c = 0 THEN half * G
        ELSE DivSum(<< <<100, SqrtSum(<< <<k, k, 50, d>> >>) - k * d>> >>, << <<c>> >>)

Total == CASE Family = "seg" -> 24 * 19 * 4
           [] Family = "ll" -> 4096 * 3
           [] Family = "lc" -> 16 * 16 * 9 * 6
           [] Family = "cc" -> 25 * 36 * 5
           [] Family = "ss" -> 6 * 7 * 49 * 12 * 7
           [] Family = "ring" -> 12 * 12 * 12 * 12
           [] Family = "void" -> 19 * 24 * 19
           [] Family = "help" -> 24 * 24 * 24
           [] OTHER -> N
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Stride == IF Gcd(Total, 10007) = 1 THEN 10007 ELSE 1
Init == /\ id \in 1..N
        /\ e = ((id - 1) * Stride + (IF N >= Total THEN 0 ELSE 977 * Seed)) % Total
        /\ x = RndSeed(Seed, id)
        /\ st = "start"

-----------------------------------------------------------------------------
(* points a fraction f/G of the way along a segment                          *)
RECURSIVE Along(_, _, _, _, _)
Along(a, b, g, f, depth) ==
    IF depth = 0 \/ g = 0
    THEN << a[1] + DivSum(<< <<b[1] - a[1], f>> >>, << <<G>> >>), a[2] + DivSum(<< <<b[2] - a[2], f>> >>, << <<G>> >>) >>
    ELSE LET m == << DivSum(<< <<a[1] + b[1], G>>, <<b[2] - a[2], g>> >>, << <<2, G>> >>),
                     DivSum(<< <<a[2] + b[2], G>>, <<a[1] - b[1], g>> >>, << <<2, G>> >>) >>
             h == HalfG(g)
         IN  IF f <= G \div 2 THEN Along(a, m, h, 2 * f, depth - 1) ELSE Along(m, b, h, 2 * (f - G \div 2), depth - 1)
SegLine(a, b, g) ==
    LET s == MkSeg(<<a[1], a[2], g>>, b)
        fs == << 0, G \div 4, G \div 2, G - G \div 4, G, 50000000 + 100000 * Pick(x, 3, 9000) >>
        big == Max2(s.l, 1000)
        off(k) == DivSum(<< <<Pick(x, k, 2001) - 1000, big>> >>, << <<700>> >>)
        mid == Mid(s)
    IN  [id |-> id, op |-> "seg", a |-> <<a[1], a[2], g>>, b |-> <<b[1], b[2], IF Chance(x, 4, 30) THEN B90 ELSE 0>>,
         fs |-> fs, ps |-> [i \in 1..6 |-> Along(a, b, g, fs[i], 14)],
         qs |-> << s.a, s.b, mid, IF s.r > 200000000 THEN s.b ELSE s.c >> \o [i \in 1..6 |-> << s.a[1] + off(10 + i), s.a[2] + off(20 + i) >>]
                \o << << 2 * a[1] - b[1], 2 * a[2] - b[2] >>, IF s.r > 200000000 THEN s.a ELSE << 2 * s.c[1] - mid[1], 2 * s.c[2] - mid[2] >> >> ]
RndLen == << 20000, 100000, 700000, 3000000, 20000000, 90000000 >>
Line ==
    CASE Family = "seg" ->
           LET d == Dirs24[1 + Digit(24, 1)]  o == Orgs[1 + Digit(4, 24 * 19)] IN
           SegLine(o, << o[1] + d[1], o[2] + d[2] >>, Bs[1 + Digit(19, 24)])
      [] Family = "segr" ->
           LET l == PickOf(x, 5, RndLen)
               dx == DivSum(<< <<Pick(x, 6, 2001) - 1000, l>> >>, << <<1000>> >>)
               dy == DivSum(<< <<Pick(x, 7, 2001) - 1000, l>> >>, << <<1000>> >>)
               g == IF Chance(x, 8, 15) THEN 0 ELSE Pick(x, 9, 1998) * 1000000 - 999000000
               o == << Pick(x, 1, 20000) * 1003 - 10000000, Pick(x, 2, 20000) * 997 - 10000000 >>
           IN  SegLine(o, IF Hyp(dx, dy) < 1000 THEN << o[1] + l, o[2] >> ELSE << o[1] + dx, o[2] + dy >>,
                       IF Abs(g) < 2 * Max2(5000000, l) THEN 0 ELSE g)
      [] Family = "ll" ->
           LET t == Turns[1 + ((Digit(3, 4096) + (id % 2)) % 5)] IN
           [id |-> id, op |-> "ll", ps |-> << TurnPt(<<0, 0>>, t), TurnPt(Grid(4, Digit(16, 1), U, -U), t),
                                              TurnPt(Grid(4, Digit(16, 16), U, -U), t), TurnPt(Grid(4, Digit(16, 256), U, -U), t) >>]
      [] Family = "llr" ->
           LET q(k) == << Pick(x, k, 9000) * 1009 - 4500000, Pick(x, k + 1, 9000) * 1013 - 4500000 >> IN
           [id |-> id, op |-> "ll", ps |-> << q(1), q(3), q(5), q(7) >>]
      [] Family = "lc" ->
           LET t == Turns[1 + (id % 5)]
               near == PickOf(x, 2, << <<0, 0>>, <<0, 0>>, <<3, 0>>, <<0, 2>>, <<-7, 0>>, <<0, -8>>, <<400, 0>> >>)
               p == TurnPt(Grid(4, Digit(16, 1), U, -U), t)
               q0 == TurnPt(Grid(4, Digit(16, 16), U, -U), t)
               q == IF q0 = p THEN p ELSE << q0[1] + near[1], q0[2] + near[2] >>
           IN  [id |-> id, op |-> "lc", ps |-> << p, q, TurnPt(Grid(3, Digit(9, 256), H, -H), t) >>, r |-> Rads[1 + Digit(6, 2304)]]
      [] Family = "lcr" ->
           LET q(k) == << Pick(x, k, 9000) * 1009 - 4500000, Pick(x, k + 1, 9000) * 1013 - 4500000 >> IN
           [id |-> id, op |-> "lc", ps |-> << q(1), q(3), q(5) >>, r |-> 100000 + 1007 * Pick(x, 7, 5000)]
      [] Family = "cc" ->
           LET t == Turns[1 + Digit(5, 900)] IN
           [id |-> id, op |-> "cc", ps |-> << <<-H, U>>, LET d == TurnPt(Grid(5, Digit(25, 1), U, 0), t) IN <<d[1] - H, d[2] + U>> >>,
            r |-> Rads[1 + Digit(6, 25)], s |-> Rads[1 + Digit(6, 150)]]
      [] Family = "ccr" ->
           LET q(k) == << Pick(x, k, 9000) * 1009 - 4500000, Pick(x, k + 1, 9000) * 1013 - 4500000 >> IN
           [id |-> id, op |-> "cc", ps |-> << q(1), q(3) >>, r |-> 100000 + 1007 * Pick(x, 7, 5000), s |-> 100000 + 1007 * Pick(x, 8, 5000)]
      [] Family = "ss" ->
           LET t == IF id % 3 = 0 THEN PickOf(x, 1, Turns) ELSE Turns[1]
               v2 == << <<U, 0>>, <<U, U>>, <<2*U, U>>, <<0, 2*U>>, <<2*U, 0>>, <<H, -H>> >>[1 + Digit(6, 1)]
               u1 == Grid(7, Digit(49, 42), H, -U)
               d == << <<U, 0>>, <<0, U>>, <<-U, 0>>, <<0, -U>>, <<U, U>>, <<-U, U>>, <<U, -U>>, <<-U, -U>>, <<2*U, 0>>, <<0, -2*U>>, <<H, 0>>, <<-2*U, U>> >>[1 + Digit(12, 2058)]
               tp(p) == TurnPt(p, t)
           IN  [id |-> id, op |-> "ss",
                s |-> << <<0, 0, IF id % 5 = 0 THEN 0 ELSE Bs7[1 + Digit(7, 6)]>>, tp(v2) \o <<0>> >>,
                t |-> << tp(u1) \o <<IF id % 5 = 0 THEN 0 ELSE Bs7[1 + Digit(7, 24696)]>>, tp(<<u1[1] + d[1], u1[2] + d[2]>>) \o <<0>> >>]
      [] Family = "ssr" ->
           LET q(k) == << Pick(x, k, 9000) * 1009 - 4500000, Pick(x, k + 1, 9000) * 1013 - 4500000 >>
               g0(k) == IF Chance(x, k, 30) THEN 0 ELSE Pick(x, k + 1, 1998) * 1000000 - 999000000
               g(k) == IF Abs(g0(k)) < 20000000 THEN 0 ELSE g0(k)
           IN  [id |-> id, op |-> "ss", s |-> << q(1) \o <<g(3)>>, q(5) \o <<0>> >>, t |-> << q(7) \o <<g(9)>>, q(11) \o <<0>> >>]
      [] Family = "chord" ->       \* the second segment runs from near one end of the first to near the other: two intersects are common
           LET a == << Pick(x, 1, 9000) * 1009 - 4500000, Pick(x, 2, 9000) * 1013 - 4500000 >>
               d == << Pick(x, 3, 4000) * 1009 - 2000000, Pick(x, 4, 4000) * 1013 - 2000000 >>
               b == IF Hyp(d[1], d[2]) < 300000 THEN << a[1] + U, a[2] - H >> ELSE << a[1] + d[1], a[2] + d[2] >>
               g0 == Pick(x, 5, 1600) * 1000000 - 800000000
               g == IF Chance(x, 6, 15) THEN 0 ELSE IF g0 < 0 THEN g0 - 199000000 ELSE g0 + 199000000
               jit(k) == << Pick(x, k, 1000) * 601 - 300000, Pick(x, k + 1, 1000) * 607 - 300000 >>
               at(p, f, k) == IF Chance(x, k, 15) THEN p
                              ELSE IF Chance(x, k + 1, 15) THEN Along(a, b, g, f, 14)
                              ELSE << p[1] + jit(k + 2)[1], p[2] + jit(k + 2)[2] >>
               c == at(a, 150000000 + 50000 * Pick(x, 7, 5000), 10)
               z == at(b, 600000000 + 50000 * Pick(x, 8, 5000), 20)
               h0 == Pick(x, 9, 1998) * 1000000 - 999000000
               h == IF g = 0 \/ Chance(x, 24, 70) THEN h0 ELSE 0
               u == IF Abs(h) < 20000000 \/ PNear(c, z, 100000) THEN 0 ELSE h
               y == IF PNear(c, z, 100000) THEN << c[1] + U, c[2] + H >> ELSE z
           IN  [id |-> id, op |-> "ss", s |-> << a \o <<g>>, b \o <<0>> >>,
                t |-> IF Chance(x, 25, 50) THEN << c \o <<u>>, y \o <<0>> >> ELSE << y \o <<-u>>, c \o <<0>> >>]
      [] Family = "void" ->        \* a segment of no length; the other runs through, ends at or passes by its place
           LET d == Dirs24[1 + Digit(24, 19)]
               g == Bs[1 + Digit(19, 456)]
               o == PickOf(x, 1, Orgs)
               z == << o[1] + d[1], o[2] + d[2] >>
               k == Pick(x, 2, 5)
               p == CASE k = 0 -> o [] k = 1 -> z [] k = 2 -> Along(o, z, g, G \div 2, 1)
                      [] k = 3 -> << o[1] + 700000, o[2] - 300000 >> [] OTHER -> << o[1] + d[2], o[2] + 2 * d[1] >>
               b == Bs[1 + Digit(19, 1)]
           IN  [id |-> id, op |-> "void", s |-> << p \o <<b>>, p \o <<PickOf(x, 3, <<0, b, G>>)>> >>, t |-> << o \o <<g>>, z \o <<0>> >>,
                qs |-> << p, o, << p[1] + 1234567, p[2] - 100 >> >>]
      [] Family = "ring" ->
           LET i == Digit(12, 1)  j == Digit(12, 12)  k == Digit(12, 144)  m == Digit(12, 1728)
               tt == PickOf(x, 1, Turns)
               j1 == IF j = i THEN (i + 6) % 12 ELSE j
               m1 == IF m = k THEN (k + 6) % 12 ELSE m
           IN  [id |-> id, op |-> "ss",
                s |-> << TurnPt(RPt(i), tt) \o <<RG(i, j1, IF j = i THEN -1 ELSE 1)>>, TurnPt(RPt(j1), tt) \o <<0>> >>,
                t |-> << TurnPt(RPt(k), tt) \o <<RG(k, m1, IF m = k THEN -1 ELSE 1)>>, TurnPt(RPt(m1), tt) \o <<0>> >>]
      [] Family = "help" ->
           LET a30 == 52359878      \* 30 degrees
               a(k) == (k - 12) * a30
               p(k) == << Pick(x, k, 17) * H - 4 * U, Pick(x, k + 1, 17) * H - 4 * U >>
               p0 == IF p(1) = <<0, 0>> THEN <<U, H>> ELSE p(1)
               p1 == IF p(3) = p0 THEN << p0[1] + U, p0[2] - H >> ELSE p(3)
               wob == IF Chance(x, 7, 40) THEN Pick(x, 8, 2000001) - 1000000 ELSE 0
           IN  [id |-> id, op |-> "help", as |-> << a(Digit(24, 1)), a(Digit(24, 24)), a(Digit(24, 576)) + wob >>,
                ps |-> << p0, p1, IF Chance(x, 9, 30) THEN << 2 * p1[1] - p0[1], 2 * p1[2] - p0[2] >> ELSE p(5) >>,
                g |-> Pick(x, 10, 2001) * 1000000 - 1000000000, k |-> Pick(x, 11, 5)]
Emit == /\ st = "start" /\ st' = "end"
        /\ PrintT("CASE " \o ToJson(Line))
        /\ UNCHANGED <<id, e, x>>
Next == Emit
Spec == Init /\ [][Next]_vars

(* the specification's measures are consistent on every segment drawn        *)
Steep(s) == IF s.g = 0 \/ s.l = 0 THEN 0 ELSE DivSum(<< <<2, s.r>> >>, << <<s.l>> >>)
SegLaws ==
    (st = "start" /\ Family \in {"seg", "segr"}) =>
      LET c == Line
          s == MkSeg(c.a, PosOf(c.b))
          hh == Halve(s)
          tol == 6 + 3 * Steep(s)
      IN  /\ \A i \in 1..6 : OnSeg(s, c.ps[i], tol + (s.l \div 100000000))
          /\ Abs(SegLen(hh[1]) + SegLen(hh[2]) - SegLen(s)) <= 4 * tol
          /\ s.g # 0 => /\ Abs(PD(s.a, s.c) - s.r) <= tol
                        /\ Abs(PD(s.b, s.c) - s.r) <= tol
          /\ LET b == SegBox(s) IN b[1] <= b[3] /\ b[2] <= b[4] /\ s.x0 <= b[1] + tol /\ s.y1 >= b[4] - tol
=============================================================================
