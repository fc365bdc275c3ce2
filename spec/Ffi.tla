---------------------------------- MODULE Ffi ----------------------------------
(***************************************************************************)
(* The C interface as a state machine over the caller's handles.            *)
(*                                                                          *)
(* State: objs, the objects ever allocated (kind "P" polyline, "L" list,    *)
(* "X" index, "-" released); and the caller's variables pv, lv, xv, which   *)
(* hold object numbers (0 is null).  own says that the caller, rather than  *)
(* a list, must release the object.                                         *)
(*                                                                          *)
(* Apply(s, c, got) is the result of call c: the state, the return code and *)
(* the value handed back (when the specification fixes it).  got holds the  *)
(* polylines computed by the Rust library for the calls that compute some;  *)
(* the interface must hand back exactly those.                              *)
(***************************************************************************)
EXTENDS Cont

CONSTANT Reuse      \* give released numbers out again (keeps the state graph finite)

Data(c, v) == [c |-> c, v |-> v, u |-> 0, z |-> 0]
Unknown == [c |-> 1, v |-> <<>>, u |-> 1, z |-> 0]
Start(n) == [objs |-> <<>>, pv |-> [i \in 1..n[1] |-> 0], lv |-> [i \in 1..n[2] |-> 0], xv |-> [i \in 1..n[3] |-> 0]]

Dead == [k |-> "-", d |-> <<>>, own |-> 0]
FreshId(s) == IF Reuse /\ \E i \in DOMAIN s.objs : s.objs[i].k = "-"
              THEN CHOOSE i \in DOMAIN s.objs : s.objs[i].k = "-" /\ \A j \in 1..(i - 1) : s.objs[j].k # "-"
              ELSE Len(s.objs) + 1
PutObj(s, i, o) == [s EXCEPT !.objs = IF i <= Len(s.objs) THEN [s.objs EXCEPT ![i] = o] ELSE Append(s.objs, o)]
WithData(s, i, d) == [s EXCEPT !.objs = [s.objs EXCEPT ![i].d = d]]
NewP(s, var, d) == LET i == FreshId(s) IN [PutObj(s, i, [k |-> "P", d |-> d, own |-> 1]) EXCEPT !.pv[var] = i]
(* a list takes its polylines with it                                       *)
RECURSIVE AddItems(_, _, _)
AddItems(s, ds, ids) ==
    IF ds = <<>> THEN [s |-> s, ids |-> ids]
    ELSE LET i == FreshId(s) IN AddItems(PutObj(s, i, [k |-> "P", d |-> ds[1], own |-> 0]), Tail(ds), Append(ids, i))
NewL(s, var, ds) ==
    LET a == AddItems(s, ds, <<>>)
        i == FreshId(a.s)
    IN  [PutObj(a.s, i, [k |-> "L", d |-> a.ids, own |-> 1]) EXCEPT !.lv[var] = i]
NewX(s, var, d) == LET i == FreshId(s) IN [PutObj(s, i, [k |-> "X", d |-> d, own |-> 1]) EXCEPT !.xv[var] = i]
Rng(f) == { f[i] : i \in DOMAIN f }
(* releasing an object leaves no variable that refers to it in use          *)
Release(s, ids) ==
    [objs |-> [i \in DOMAIN s.objs |-> IF i \in ids THEN Dead ELSE s.objs[i]],
     pv |-> [i \in DOMAIN s.pv |-> IF s.pv[i] \in ids THEN 0 ELSE s.pv[i]],
     lv |-> [i \in DOMAIN s.lv |-> IF s.lv[i] \in ids THEN 0 ELSE s.lv[i]],
     xv |-> [i \in DOMAIN s.xv |-> IF s.xv[i] \in ids THEN 0 ELSE s.xv[i]]]

UMax == -1      \* stands for the largest index
Within(i, n) == i # UMax /\ i < n
Res(s, rc, val) == [s |-> s, rc |-> rc, val |-> val]
AnyVal == <<>>       \* not fixed by the specification
Done(s) == Res(s, 0, AnyVal)
Code(s, rc) == Res(s, rc, AnyVal)
Free(v) == IF v = 0 THEN {} ELSE {v}
FlipZ(d) == [Invert(d) EXCEPT !.c = d.c]

(* on a polyline that is not null                                           *)
ApplyP(s, c, got, i) ==
    LET d == s.objs[i].d
        v == d.v
        n == Len(v)
        set(w) == WithData(s, i, [d EXCEPT !.v = w])
        f == c.f
    IN  CASE f = "reserve" -> Done(s)
          [] f = "clone" -> Done(NewP(s, c.out, d))
          [] f = "closed" -> Res(s, 0, IF d.u = 1 THEN AnyVal ELSE << d.c >>)
          [] f = "setclosed" -> Done(WithData(s, i, [d EXCEPT !.c = IF c.c = 0 THEN 0 ELSE 1]))
          [] f = "count" -> Res(s, 0, << n >>)
          [] f = "data" -> Res(s, 0, v)
          [] f = "setdata" -> Done(WithData(s, i, Data(d.c, c.v)))
          [] f = "clear" -> Done(WithData(s, i, Data(d.c, <<>>)))
          [] f = "add" -> Done(set(Append(v, c.v)))
          [] f = "getv" -> IF Within(c.i, n) THEN Res(s, 0, v[c.i + 1]) ELSE Code(s, 2)
          [] f = "setv" -> IF Within(c.i, n) THEN Done(set(SetAt(v, c.i, c.v))) ELSE Code(s, 2)
          [] f = "rem" -> IF Within(c.i, n) THEN Done(set(DropAt(v, c.i))) ELSE Code(s, 2)
          [] f \in {"len", "area", "wn"} -> Done(s)
          [] f = "ext" -> IF n < 2 THEN Code(s, 2) ELSE Done(s)
          [] f = "invert" -> Done(WithData(s, i, [d EXCEPT !.v = Invert(PL(d.c, v)).v, !.z = IF d.c = 0 THEN 1 ELSE d.z]))
          [] f = "scale" -> Done(set(Map(PL(d.c, v), LAMBDA w : ScaleBy(c.k, w)).v))
          [] f = "move" -> Done(set(Map(PL(d.c, v), LAMBDA w : MoveBy(c.d[1], c.d[2], w)).v))
          [] f = "rrp" -> Done(IF c.eps = Eps /\ d.u = 0 THEN set(Unrepeated(PL(d.c, v)).v) ELSE WithData(s, i, got[1][1]))
          [] f = "rred" -> Done(WithData(s, i, got[1][1]))
          [] f = "off" -> Done(NewL(s, c.out, got[1]))
          [] f \in {"aidx", "idx"} -> Done(NewX(s, c.out, [src |-> d, box |-> AnyVal]))
(* on a list that is not null                                               *)
ApplyL(s, c, i) ==
    LET ids == s.objs[i].d
        n == Len(ids)
        f == c.f
        give(k, rest) == [s EXCEPT !.pv[c.out] = ids[k], !.objs = [s.objs EXCEPT ![i].d = rest, ![ids[k]].own = 1]]
    IN  CASE f = "lcount" -> Res(s, 0, << n >>)
          [] f = "lget" -> IF Within(c.i, n) THEN Done([s EXCEPT !.pv[c.out] = ids[c.i + 1]]) ELSE Code(s, 2)
          [] f = "lpop" -> IF n > 0 THEN Done(give(n, SubSeq(ids, 1, n - 1))) ELSE Code(s, 2)
          [] f = "ltake" -> IF Within(c.i, n) THEN Done(give(c.i + 1, DropAt(ids, c.i))) ELSE Code(s, 2)
Apply(s, c, got) ==
    LET f == c.f
        P(k) == IF k = 0 THEN 0 ELSE s.pv[k]
        L(k) == IF k = 0 THEN 0 ELSE s.lv[k]
        X(k) == IF k = 0 THEN 0 ELSE s.xv[k]
    IN  CASE f = "create" -> Done(NewP(s, c.out, Data(IF c.c = 0 THEN 0 ELSE 1, c.v)))
          [] f = "pf" -> Done(Release(s, Free(P(c.p))))
          [] f = "xf" -> Done(Release(s, Free(X(c.x))))
          [] f = "lf" -> LET i == L(c.l) IN Done(IF i = 0 THEN s ELSE Release(s, {i} \cup Rng(s.objs[i].d)))
          [] f = "bool" ->
                IF P(c.p) = 0 \/ P(c.q) = 0 THEN Code(s, 1)
                ELSE IF c.op \notin 0..3 THEN Code(s, 2)
                ELSE Done(NewL(NewL(s, c.outs[1], got[1]), c.outs[2], got[2]))
          [] f = "xext" -> IF X(c.x) = 0 THEN Code(s, 1) ELSE Done(s)
          [] f \in {"lcount", "lget", "lpop", "ltake"} -> IF L(c.l) = 0 THEN Code(s, 1) ELSE ApplyL(s, c, L(c.l))
          [] f = "ooinit" -> IF c.nul = 1 THEN Code(s, 1) ELSE Res(s, 0, << 0, 10000, 100000, 100000, 0 >>)
          [] f = "boinit" -> IF c.nul = 1 THEN Code(s, 1) ELSE Res(s, 0, << 0, 10000 >>)
          [] OTHER -> IF P(c.p) = 0 THEN Code(s, 1) ELSE ApplyP(s, c, got, P(c.p))

(* what holds in every state                                                *)
Sound(s) ==
    LET lists == { i \in DOMAIN s.objs : s.objs[i].k = "L" }
        held(i) == { << j, k >> \in lists \X (1..Len(s.objs)) : k \in DOMAIN s.objs[j].d /\ s.objs[j].d[k] = i }
    IN  \A i \in DOMAIN s.objs :
          LET o == s.objs[i] IN
          /\ o.k = "P" => Cardinality(held(i)) = 1 - o.own          \* owned by the caller or by one list
          /\ o.k = "-" => held(i) = {} /\ i \notin Rng(s.pv) \cup Rng(s.lv) \cup Rng(s.xv)
          /\ (o.k # "-" /\ o.own = 1) => i \in Rng(s.pv) \cup Rng(s.lv) \cup Rng(s.xv)   \* nothing is lost
Empty(s) == \A i \in DOMAIN s.objs : s.objs[i].k = "-"
=============================================================================
