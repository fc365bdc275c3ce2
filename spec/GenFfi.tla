-------------------------------- MODULE GenFfi ---------------------------------
(***************************************************************************)
(* Histories of C API calls within the ownership rules.                     *)
(* Mode "graph": the ownership state graph, explored up to the bounds;      *)
(*   every transition is emitted, with a shortest history that leads to it  *)
(*   and releases what is left afterwards.                                  *)
(* Mode "long": pseudo-random histories.                                    *)
(* Mode "calls": every call on every polyline of a catalogue, and on null.  *)
(* Mode "opts": the two computing calls with options.                       *)
(***************************************************************************)
EXTENDS Ffi, Shapes, Json

CONSTANTS N, Seed, Mode, Depth, MaxObjs, NP, NL, NX

VARIABLES id, x, s, h, st
vars == <<id, x, s, h, st>>

M == U
SQ == << V(0,0,0), V(4*M,0,0), V(4*M,4*M,0), V(0,4*M,0) >>
SQ2 == << V(2*M,2*M,0), V(6*M,2*M,0), V(6*M,6*M,0), V(2*M,6*M,0) >>
FAR == << V(20*M,20*M,0), V(24*M,20*M,0), V(24*M,24*M,0), V(20*M,24*M,0) >>
BIG == << V(-10*M,-10*M,0), V(30*M,-10*M,0), V(30*M,30*M,0), V(-10*M,30*M,0) >>
CI == << V(-2*M,0,G), V(2*M,0,G) >>
\* two squares joined by a corridor of width 1
DB == << V(0,0,0), V(4*M,0,0), V(4*M,1500000,0), V(8*M,1500000,0), V(8*M,0,0), V(12*M,0,0), V(12*M,4*M,0), V(8*M,4*M,0),
         V(8*M,2500000,0), V(4*M,2500000,0), V(4*M,4*M,0), V(0,4*M,0) >>
\* four of them
RECURSIVE Lobes(_)
Lobes(k) ==
    LET a == 8 * M * k
        w(t, q) == V(a + t, q, 0)
    IN  (IF k = 0 THEN <<>> ELSE << w(0, 1500000) >>) \o << w(0, 0), w(4*M, 0) >>
        \o (IF k = 3 THEN <<>> ELSE << w(4*M, 1500000) >> \o Lobes(k + 1) \o << w(4*M, 2500000) >>)
        \o << w(4*M, 4*M), w(0, 4*M) >> \o (IF k = 0 THEN <<>> ELSE << w(0, 2500000) >>)
LB == Lobes(0)
EL == << V(0,0,0), V(4*M,0,B90), V(6*M,2*M,0), V(6*M,6*M,-G) >>
RP == << V(0,0,0), V(2*M,0,0), V(4*M,0,0), V(4*M,4*M,0), V(4*M,4*M,0), V(0,4*M,0), V(1,1,0) >>
F8 == << V(0,0,0), V(4*M,4*M,0), V(4*M,0,0), V(0,4*M,0) >>
RR == RoundRect(6*M, 4*M, M).v
Cat == << Data(1, SQ), Data(1, CI), Data(1, DB), Data(0, EL), Data(1, <<>>), Data(0, << V(M, M, 0) >>), Data(1, RP), Data(1, BIG),
          Data(1, F8), Data(0, << V(0,0,0), V(3*M,4*M,0) >>), Data(1, << V(M, M, G) >>), Data(1, RR), Data(0, <<>>), Data(0, F8),
          Data(1, LB) >>
Clip == Data(1, SQ2)

Create(o, d) == [f |-> "create", out |-> o, v |-> d.v, c |-> d.c, nul |-> IF d.v = <<>> THEN 1 ELSE 0]

-----------------------------------------------------------------------------
(* How many polylines the computing calls give, where that is plain          *)
Is(d, v) == d.u = 0 /\ d.c = 1 /\ d.v = v
OffKnown(d, k) ==      \* << number >> or <<>>
    IF d.u = 1 THEN <<>>
    ELSE IF d.v = <<>> THEN <<0>>
    ELSE IF Is(d, SQ) \/ Is(d, SQ2) \/ Is(d, FAR) \/ Is(d, CI) THEN << IF k >= 3 * M THEN 0 ELSE 1 >>
    ELSE IF Is(d, DB) \/ Is(d, LB) THEN IF k >= 3 * M THEN << 0 >> ELSE IF k = M THEN << IF Is(d, DB) THEN 2 ELSE 4 >> ELSE << 1 >>
    ELSE IF Is(d, BIG) THEN << 1 >> ELSE <<>>
SQs == {SQ, SQ2}
BoolKnown(a, b, op) ==     \* << positive, negative >> or <<>>; op: 0 or, 1 and, 2 not, 3 xor
    IF a.u = 1 \/ b.u = 1 \/ a.c = 0 \/ b.c = 0 THEN <<>>
    ELSE IF a.v = <<>> \/ b.v = <<>> THEN <<0, 0>>
    ELSE IF a.v \in SQs /\ b.v \in SQs
         THEN IF a.v = b.v THEN IF op < 2 THEN <<1, 0>> ELSE <<0, 0>> ELSE IF op = 3 THEN <<2, 0>> ELSE <<1, 0>>
    ELSE IF a.v = BIG /\ b.v \in {SQ, SQ2, FAR, DB, CI} THEN IF op < 2 THEN <<1, 0>> ELSE <<1, 1>>
    ELSE IF b.v = BIG /\ a.v \in {SQ, SQ2, FAR, DB, CI} THEN IF op < 2 THEN <<1, 0>> ELSE IF op = 2 THEN <<0, 0>> ELSE <<1, 1>>
    ELSE IF (a.v = FAR /\ b.v \in {SQ, SQ2, DB, CI}) \/ (b.v = FAR /\ a.v \in {SQ, SQ2, DB, CI})
         THEN IF op = 0 \/ op = 3 THEN <<2, 0>> ELSE IF op = 1 THEN <<0, 0>> ELSE <<1, 0>>
    ELSE <<>>
Unks(n) == [i \in 1..n |-> Unknown]
Got(c) ==
    LET d == IF c.f \in {"off", "bool"} /\ c.p > 0 /\ s.pv[c.p] > 0 THEN s.objs[s.pv[c.p]].d ELSE Unknown IN
    CASE c.f = "off" -> << Unks(OffKnown(d, c.d)[1]) >>
      [] c.f = "bool" -> IF c.op > 3 THEN <<>> ELSE LET n == BoolKnown(d, s.objs[s.pv[c.q]].d, c.op) IN << Unks(n[1]), Unks(n[2]) >>
      [] c.f \in {"rrp", "rred"} -> << << Unknown >> >>
      [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* Variables that may be overwritten without losing an object               *)
Spare(v, i, objs) == v[i] = 0 \/ objs[v[i]].own = 0 \/ \E j \in DOMAIN v : j # i /\ v[j] = v[i]
SpareP(i) == Spare(s.pv, i, s.objs)
SpareL(i) == s.lv[i] = 0
SpareX(i) == s.xv[i] = 0
(* release everything the caller owns                                       *)
RECURSIVE Tail_(_, _)
Tail_(t, back) ==
    LET ps == { i \in DOMAIN t.pv : t.pv[i] > 0 /\ t.objs[t.pv[i]].own = 1 }
        ls == { i \in DOMAIN t.lv : t.lv[i] > 0 }
        xs == { i \in DOMAIN t.xv : t.xv[i] > 0 }
        lo(z) == CHOOSE i \in z : \A j \in z : i <= j
        c == IF back
             THEN IF ls # {} THEN [f |-> "lf", l |-> lo(ls)] ELSE IF xs # {} THEN [f |-> "xf", x |-> lo(xs)] ELSE [f |-> "pf", p |-> lo(ps)]
             ELSE IF ps # {} THEN [f |-> "pf", p |-> lo(ps)] ELSE IF ls # {} THEN [f |-> "lf", l |-> lo(ls)] ELSE [f |-> "xf", x |-> lo(xs)]
    IN  IF ps = {} /\ ls = {} /\ xs = {} THEN <<>> ELSE <<c>> \o Tail_(Apply(t, c, <<>>).s, back)

-----------------------------------------------------------------------------
(* "graph"                                                                  *)
Owned(i) == s.pv[i] = 0 \/ s.objs[s.pv[i]].own = 1
GraphCalls ==
    LET np == 1..NP  nl == 1..NL  nx == 1..NX
        pd(i) == IF s.pv[i] = 0 THEN Unknown ELSE s.objs[s.pv[i]].d
    IN  { Create(o, Data(1, v)) : o \in { o \in np : SpareP(o) }, v \in {DB, BIG} }
        \cup { [f |-> "clone", p |-> p, out |-> o] : p \in np, o \in { o \in np : SpareP(o) } }
        \cup { [f |-> "pf", p |-> p] : p \in { p \in np : Owned(p) } }
        \cup { [f |-> "off", p |-> p, d |-> M, o |-> <<>>, out |-> o] : p \in { p \in np : s.pv[p] = 0 \/ OffKnown(pd(p), M) # <<>> }, o \in { o \in nl : SpareL(o) } }
        \cup { [f |-> "bool", p |-> z[1], q |-> z[2], op |-> 3, o |-> <<>>, outs |-> z[3]] :
                 z \in { z \in np \X np \X (nl \X nl) : z[3][1] # z[3][2] /\ SpareL(z[3][1]) /\ SpareL(z[3][2])
                                                        /\ (s.pv[z[1]] = 0 \/ s.pv[z[2]] = 0 \/ BoolKnown(pd(z[1]), pd(z[2]), 3) # <<>>) } }
        \cup { [f |-> "lf", l |-> i] : i \in nl }
        \cup { [f |-> "lcount", l |-> i] : i \in nl }
        \cup { [f |-> "lpop", l |-> i, out |-> o] : i \in nl, o \in { o \in np : SpareP(o) } }
        \cup { [f |-> ff, l |-> i, i |-> k, out |-> o] : ff \in {"lget", "ltake"}, i \in nl, k \in 0..1, o \in { o \in np : SpareP(o) } }
        \cup { [f |-> "aidx", p |-> p, out |-> o] : p \in np, o \in { o \in nx : SpareX(o) } }
        \cup { [f |-> "xf", x |-> i] : i \in nx }
        \cup { [f |-> "clear", p |-> p] : p \in { p \in np : s.pv[p] > 0 /\ pd(p).v # <<>> } }
NextGraph ==
    /\ Mode = "graph" /\ st = "go" /\ Len(h) < Depth
    /\ \E c \in GraphCalls :
         LET r == Apply(s, c, IF c.f = "bool" /\ (s.pv[c.p] = 0 \/ s.pv[c.q] = 0) THEN <<>> ELSE IF c.f = "off" /\ s.pv[c.p] = 0 THEN <<>> ELSE Got(c))
             h1 == Append(h, c)
         IN  /\ Cardinality({ i \in DOMAIN r.s.objs : r.s.objs[i].k # "-" }) <= MaxObjs
             /\ s' = r.s /\ h' = h1
             /\ PrintT("CASE " \o ToJson([id |-> 0, op |-> "ffi", vars |-> <<NP, NL, NX>>, h |-> h1 \o Tail_(r.s, Len(h1) % 2 = 0)]))
    /\ UNCHANGED <<id, x, st>>

-----------------------------------------------------------------------------
(* "calls": catalogue entry 1 + id \div 100, or null; call number id % 100   *)
Idx(n) == << 0, n - 1, n, n + 7, UMax >>
CallsOn(p, d) ==
    LET n == Len(d.v)
        at(ff, k) == [f |-> ff, p |-> p, i |-> IF k < 0 /\ k # UMax THEN 0 ELSE k]
        ix == << 0, IF n > 0 THEN n - 1 ELSE 0, n, n + 7, UMax >>
        w == V(7 * M, -M, 123456789)
        off(dd, o) == [f |-> "off", p |-> p, d |-> dd, o |-> o, out |-> 1]
        boo(op, o) == [f |-> "bool", p |-> p, q |-> 2, op |-> op, o |-> o, outs |-> <<1, 2>>]
    IN  << [f |-> "reserve", p |-> p, k |-> 100], [f |-> "clone", p |-> p, out |-> 3], [f |-> "closed", p |-> p],
           [f |-> "setclosed", p |-> p, c |-> 0], [f |-> "setclosed", p |-> p, c |-> 1], [f |-> "setclosed", p |-> p, c |-> 255],
           [f |-> "count", p |-> p], [f |-> "data", p |-> p], [f |-> "setdata", p |-> p, v |-> EL], [f |-> "setdata", p |-> p, v |-> << w >>],
           [f |-> "clear", p |-> p], [f |-> "add", p |-> p, v |-> w] >>
        \o [k \in 1..5 |-> at("getv", ix[k])]
        \o [k \in 1..5 |-> [f |-> "setv", p |-> p, i |-> ix[k], v |-> w]]
        \o [k \in 1..5 |-> at("rem", ix[k])]
        \o << [f |-> "len", p |-> p], [f |-> "area", p |-> p], [f |-> "ext", p |-> p], [f |-> "invert", p |-> p], [f |-> "scale", p |-> p, k |-> 3],
              [f |-> "scale", p |-> p, k |-> -1], [f |-> "move", p |-> p, d |-> <<3 * M, -M>>],
              [f |-> "rrp", p |-> p, eps |-> Eps], [f |-> "rrp", p |-> p, eps |-> 2500000], [f |-> "rred", p |-> p, eps |-> Eps], [f |-> "rred", p |-> p, eps |-> 100000] >>
        \o [k \in 1..4 |-> [f |-> "wn", p |-> p, at |-> << <<M, M>>, <<1750000, 333333>>, <<-50 * M, 0>>, <<9 * M, 2 * M>> >>[k]]]
        \o << off(M, <<>>), off(-M, <<>>), off(700000, [hs |-> 1, pe |-> 0, x |-> 0]), off(700000, [hs |-> 0, pe |-> 0, x |-> 0]), off(0, <<>>) >>
        \o [k \in 1..6 |-> boo(<<0, 1, 2, 3, 4, UMax>>[k], <<>>)]
        \o << boo(2, [pe |-> 10, x |-> 0]), [f |-> "bool", p |-> 2, q |-> p, op |-> 2, o |-> <<>>, outs |-> <<1, 2>>],
              [f |-> "bool", p |-> 2, q |-> p, op |-> 9, o |-> <<>>, outs |-> <<2, 1>>],
              [f |-> "aidx", p |-> p, out |-> 1], [f |-> "idx", p |-> p, out |-> 1], [f |-> "pf", p |-> p] >>
NoObj == << [f |-> "xext", x |-> 0], [f |-> "xf", x |-> 0], [f |-> "lf", l |-> 0], [f |-> "lcount", l |-> 0], [f |-> "lget", l |-> 0, i |-> 0, out |-> 3],
            [f |-> "lpop", l |-> 0, out |-> 3], [f |-> "ltake", l |-> 0, i |-> 0, out |-> 3],
            [f |-> "ooinit", nul |-> 0], [f |-> "ooinit", nul |-> 1], [f |-> "boinit", nul |-> 0], [f |-> "boinit", nul |-> 1] >>
(* what to look at after the call: everything the outputs hold               *)
Look == << [f |-> "lcount", l |-> 1], [f |-> "lcount", l |-> 2], [f |-> "xext", x |-> 1],
           [f |-> "ltake", l |-> 1, i |-> 1, out |-> 3], [f |-> "pf", p |-> 3], [f |-> "lget", l |-> 1, i |-> 0, out |-> 3], [f |-> "lget", l |-> 1, i |-> 1, out |-> 4], [f |-> "lget", l |-> 2, i |-> UMax, out |-> 4] >>
Drop == << [f |-> "pf", p |-> 1], [f |-> "pf", p |-> 2], [f |-> "lf", l |-> 1], [f |-> "lf", l |-> 2], [f |-> "xf", x |-> 1] >>
NCalls == Len(CallsOn(1, Cat[1])) + Len(NoObj)
CallCase ==
    LET e == id \div 100
        k == id % 100
        d == Cat[1 + (e % Len(Cat))]
        p == IF e = Len(Cat) THEN 0 ELSE 1
        on == CallsOn(p, d)
        c == IF k < Len(on) THEN on[k + 1] ELSE NoObj[k - Len(on) + 1]
        clone == c.f = "clone" /\ p # 0
    IN  [id |-> id, op |-> "ffi", vars |-> <<4, 2, 1>>,
         h |-> << Create(1, d), Create(2, Clip), c >>
               \o (IF clone THEN << [f |-> "data", p |-> 3], [f |-> "pf", p |-> 3] >> ELSE Look) \o Drop]
CallIds == { k \in 0..(100 * Len(Cat) + 99) : k % 100 < NCalls }

-----------------------------------------------------------------------------
(* "opts"                                                                   *)
Epss == << 10, 1000, 50000, 300000 >>
OptCase ==
    LET d == PickOf(x, 1, Cat)
        y == IF Chance(x, 2, 60) THEN 1 ELSE 0
        dd == PickOf(x, 3, << 300000, 900000, 1700000, -300000, -900000, 2300000, 1234567 >>)
        oo == [hs |-> PickOf(x, 4, <<0, 1, 255>>), pe |-> PickOf(x, 5, Epss), sj |-> PickOf(x, 6, Epss), od |-> PickOf(x, 7, Epss), x |-> y]
        bo == [pe |-> PickOf(x, 8, Epss), x |-> y]
        q == << Clip, Data(1, << V(-M, M, 0), V(9 * M, M + 37000, B60), V(5 * M, 7 * M, 0) >>), Data(1, << V(2 * M, 2 * M + 400, G), V(5 * M, 2 * M, G) >>) >>[1 + Pick(x, 9, 3)]
    IN  [id |-> id, op |-> "ffi", vars |-> <<4, 2, 1>>,
         h |-> << Create(1, d), Create(2, q), [f |-> IF Chance(x, 10, 50) THEN "idx" ELSE "aidx", p |-> 1, out |-> 1],
                  IF Chance(x, 11, 60) THEN [f |-> "off", p |-> 1, d |-> dd, o |-> oo, out |-> 1]
                  ELSE [f |-> "bool", p |-> 1, q |-> 2, op |-> Pick(x, 12, 4), o |-> bo, outs |-> <<1, 2>>] >> \o Look \o Drop]

-----------------------------------------------------------------------------
(* "long"                                                                   *)
PickIn(y, k, set) == LET z == { i \in set : TRUE } IN
    CHOOSE i \in z : Cardinality({ j \in z : j < i }) = Pick(y, k, Cardinality(z))
RndCall(y) ==
    LET np == 1..NP  nl == 1..NL  nx == 1..NX
        p == 1 + Pick(y, 1, NP)
        live == { i \in np : s.pv[i] > 0 }
        pp == IF live = {} \/ Chance(y, 2, 7) THEN p ELSE PickIn(y, 3, live)
        d == IF s.pv[pp] = 0 THEN Unknown ELSE s.objs[s.pv[pp]].d
        n == Len(d.v)
        spare == { i \in np : SpareP(i) }
        spl == { i \in nl : SpareL(i) }
        full == { i \in nl : s.lv[i] > 0 /\ s.objs[s.lv[i]].d # <<>> }
        spx == { i \in nx : SpareX(i) }
        o == IF spare = {} THEN 0 ELSE PickIn(y, 4, spare)
        q == IF live = {} THEN p ELSE PickIn(y, 5, live)
        qd == IF s.pv[q] = 0 THEN Unknown ELSE s.objs[s.pv[q]].d
        li == IF full = {} \/ Chance(y, 15, 10) THEN 1 + Pick(y, 6, NL) ELSE PickIn(y, 16, full)
        lst == IF s.lv[li] = 0 THEN <<>> ELSE s.objs[s.lv[li]].d
        k == PickOf(y, 7, << M, -M, 3 * M >>)
        w == V(Pick(y, 8, 9) * M - 4 * M, Pick(y, 9, 9) * M - 4 * M, PickOf(y, 10, <<0, G, -B90>>))
        op == Pick(y, 11, 5)
        xs == { i \in nx : s.xv[i] > 0 /\ s.objs[s.xv[i]].d.src = d /\ n > 1 }
        opt == IF Chance(y, 12, 50) THEN <<>> ELSE [hs |-> 0, pe |-> 0, x |-> IF xs = {} THEN 0 ELSE PickIn(y, 13, xs)]
        bopt == IF opt = <<>> THEN <<>> ELSE [pe |-> 0, x |-> opt.x]
        kind == Pick(y, 14, 34)
        dflt == IF d.u = 1 THEN [f |-> "area", p |-> pp] ELSE [f |-> "data", p |-> pp]
        i == IF Chance(y, 17, 10) THEN UMax ELSE Pick(y, 18, n + 2)
    IN  CASE kind \in 0..5 /\ o # 0 -> Create(o, PickOf(y, 20, << Data(1, SQ), Data(1, SQ2), Data(1, DB), Data(1, BIG), Data(1, FAR), Data(1, LB), Data(0, EL), Data(1, <<>>), Data(1, CI) >>))
          [] kind \in 6..7 /\ o # 0 -> [f |-> "clone", p |-> pp, out |-> o]
          [] kind = 8 /\ (s.pv[pp] = 0 \/ s.objs[s.pv[pp]].own = 1) -> [f |-> "pf", p |-> pp]
          [] kind \in 9..12 /\ spl # {} /\ s.pv[pp] > 0 /\ OffKnown(d, k) # <<>> -> [f |-> "off", p |-> pp, d |-> k, o |-> opt, out |-> PickIn(y, 21, spl)]
          [] kind \in 13..16 /\ Cardinality(spl) >= 2 /\ s.pv[pp] > 0 /\ s.pv[q] > 0 /\ (op = 4 \/ BoolKnown(d, qd, op) # <<>>) ->
                LET l1 == PickIn(y, 21, spl) IN [f |-> "bool", p |-> pp, q |-> q, op |-> op, o |-> bopt, outs |-> << l1, PickIn(y, 22, spl \ {l1}) >>]
          [] kind \in 17..19 /\ o # 0 -> [f |-> "ltake", l |-> li, i |-> Pick(y, 23, Len(lst) + 1), out |-> o]
          [] kind \in 20..21 /\ o # 0 -> [f |-> "lpop", l |-> li, out |-> o]
          [] kind \in 22..23 /\ o # 0 -> [f |-> "lget", l |-> li, i |-> Pick(y, 23, Len(lst) + 1), out |-> o]
          [] kind = 24 -> [f |-> "lf", l |-> li]
          [] kind = 25 /\ spx # {} /\ (s.pv[pp] = 0 \/ d.u = 0) -> [f |-> IF Chance(y, 24, 50) THEN "idx" ELSE "aidx", p |-> pp, out |-> PickIn(y, 25, spx)]
          [] kind = 26 -> [f |-> "xf", x |-> 1 + Pick(y, 26, NX)]
          [] kind = 27 -> IF d.u = 1 THEN [f |-> "clear", p |-> pp] ELSE [f |-> "add", p |-> pp, v |-> w]
          [] kind = 28 /\ d.u = 0 -> [f |-> "setv", p |-> pp, i |-> i, v |-> w]
          [] kind = 29 /\ d.u = 0 -> [f |-> "rem", p |-> pp, i |-> i]
          [] kind = 30 -> [f |-> "setdata", p |-> pp, v |-> PickOf(y, 27, <<SQ, DB, EL>>)]
          [] kind = 31 -> IF Chance(y, 28, 50) THEN [f |-> "invert", p |-> pp] ELSE [f |-> "move", p |-> pp, d |-> <<0, 0>>]
          [] kind = 32 -> IF Chance(y, 28, 50) THEN [f |-> "setclosed", p |-> pp, c |-> 1] ELSE [f |-> "lcount", l |-> li]
          [] OTHER -> dflt
NextLong == /\ Mode = "long" /\ st = "go"
            /\ LET c == TLCEval(RndCall(x))
                   r == TLCEval(Apply(s, c, IF c.f = "bool" /\ (s.pv[c.p] = 0 \/ s.pv[c.q] = 0) THEN <<>> ELSE Got(c)))
               IN  IF Len(h) >= Depth
                   THEN /\ st' = "end" /\ UNCHANGED <<s, h>>
                        /\ PrintT("CASE " \o ToJson([id |-> id, op |-> "ffi", vars |-> <<NP, NL, NX>>, h |-> h \o Tail_(s, id % 2 = 0)]))
                   ELSE s' = r.s /\ h' = Append(h, c) /\ st' = st
            /\ x' = At(x, 31)
            /\ UNCHANGED id

EmitOne == /\ Mode \in {"calls", "opts"} /\ st = "go" /\ st' = "end"
           /\ PrintT("CASE " \o ToJson(IF Mode = "calls" THEN CallCase ELSE OptCase))
           /\ UNCHANGED <<id, x, s, h>>
Init == /\ id \in (IF Mode = "graph" THEN {0} ELSE IF Mode = "calls" THEN CallIds ELSE 1..N)
        /\ x = RndSeed(Seed, id) /\ s = Start(<<NP, NL, NX>>) /\ h = <<>> /\ st = "go"
Next == NextGraph \/ NextLong \/ EmitOne
Spec == Init /\ [][Next]_vars
View == << id, x, s, IF Mode = "graph" THEN <<>> ELSE h, st >>

Inv == /\ Sound(s)
       /\ Mode \in {"graph", "long"} => Empty(TLCEval(LET t == Tail_(s, TRUE) IN
              LET RECURSIVE go(_, _)
                  go(z, k) == IF k > Len(t) THEN z ELSE go(Apply(z, t[k], <<>>).s, k + 1)
              IN  go(s, 1)))
=============================================================================
