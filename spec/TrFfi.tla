--------------------------------- MODULE TrFfi ---------------------------------
(***************************************************************************)
(* Recorded histories of C API calls are behaviours of Ffi: codes, data and  *)
(* outputs (C18), handles, lists and memory (C19).                          *)
(***************************************************************************)
EXTENDS TraceBase, Ffi

CONSTANT Prop

Lists(g) == [i \in DOMAIN g |-> [k \in DOMAIN g[i] |-> Data(g[i][k].c, g[i][k].v)]]
SamePl(d, o) == /\ d.c = o.c
                /\ IF d.z = 1 /\ d.c = 0 THEN Blur(PL(0, d.v)) = Blur(o) ELSE d.v = o.v
(* the pairs << object of the specification, object seen >>                  *)
Seen(s, w) ==
    { << s.pv[i], w.p[i].id >> : i \in DOMAIN s.pv }
    \cup { << s.lv[i], w.l[i].id >> : i \in DOMAIN s.lv }
    \cup { << s.xv[i], w.x[i].id >> : i \in DOMAIN s.xv }
    \cup UNION { LET ids == s.objs[s.lv[i]].d IN { << ids[k], w.l[i].ps[k].id >> : k \in DOMAIN ids } :
                    i \in { i \in DOMAIN s.lv : s.lv[i] > 0 /\ w.l[i].id > 0 /\ Len(w.l[i].ps) = Len(s.objs[s.lv[i]].d) } }
OneToOne(rel) == \A a \in rel : \A b \in rel : (a[1] = b[1]) = (a[2] = b[2])
Handles(s, w) ==
    /\ \A i \in DOMAIN s.pv : (s.pv[i] = 0) = (w.p[i].id = 0)
    /\ \A i \in DOMAIN s.lv : (s.lv[i] = 0) = (w.l[i].id = 0)
    /\ \A i \in DOMAIN s.xv : (s.xv[i] = 0) = (w.x[i].id = 0)
ListLens(s, w) == \A i \in DOMAIN s.lv : s.lv[i] > 0 => Len(w.l[i].ps) = Len(s.objs[s.lv[i]].d)
DataSeen(s, w) ==
    /\ \A i \in DOMAIN s.pv : s.pv[i] > 0 => SamePl(s.objs[s.pv[i]].d, w.p[i].pl)
    /\ \A i \in DOMAIN s.lv : s.lv[i] > 0 =>
          LET ids == s.objs[s.lv[i]].d IN \A k \in DOMAIN ids : SamePl(s.objs[ids[k]].d, w.l[i].ps[k].pl)
    /\ \A i \in DOMAIN s.xv : s.xv[i] > 0 => s.objs[s.xv[i]].d.box \in { AnyVal, w.x[i].box }
(* an index keeps the extents it had when it was made                       *)
Boxes(s, w) == [s EXCEPT !.objs = [i \in DOMAIN s.objs |->
    IF s.objs[i].k = "X" /\ s.objs[i].d.box = AnyVal
    THEN LET e == { k \in DOMAIN s.xv : s.xv[k] = i } IN
         IF e = {} THEN s.objs[i] ELSE [s.objs[i] EXCEPT !.d.box = w.x[CHOOSE k \in e : TRUE].box]
    ELSE s.objs[i]]]

RECURSIVE Run(_, _, _, _, _)
Run(r, k, s, rel, acc) ==
    IF k > Len(r.in.h) THEN [s |-> s, bad |-> acc]
    ELSE LET c == r.in.h[k]
             o == r.out.h[k]
             computes == c.f \in {"off", "bool", "rrp", "rred", "len", "area"}
             \* a panic in the library comes out as -1 (and "same" says so)
             gave == ~(computes /\ o.rc = -1)
             e == TLCEval(IF gave /\ ~(c.f \in {"off", "bool"} /\ o.rc # 0) THEN Apply(s, c, Lists(o.got))
                          ELSE IF c.f = "off" /\ o.rc # -1 THEN IF c.p = 0 \/ s.pv[c.p] = 0 THEN Code(s, 1) ELSE Code(s, 0)
                          ELSE IF c.f = "bool" /\ o.rc # -1 THEN IF c.p = 0 \/ c.q = 0 \/ s.pv[c.p] = 0 \/ s.pv[c.q] = 0 THEN Code(s, 1)
                                                                 ELSE IF c.op \notin 0..3 THEN Code(s, 2) ELSE Code(s, 0)
                          ELSE Code(s, -1))
             t == TLCEval(Boxes(e.s, o.w))
             rel1 == TLCEval(rel \cup Seen(t, o.w))
             ok == Handles(t, o.w) /\ ListLens(t, o.w)
             b18 == If(o.rc # e.rc, c.f \o ": code")
                    \cup If(o.rc = e.rc /\ o.rc # 0 /\ o.keep = 0, c.f \o ": outputs change on an error")
                    \cup If(o.same = 0, c.f \o ": not what the Rust library gives")
                    \cup If(o.rc = 0 /\ e.val # AnyVal /\ o.val # e.val, c.f \o ": value")
                    \cup If(ok /\ ~DataSeen(t, o.w), c.f \o ": data afterwards")
             b19 == If(~Handles(t, o.w), c.f \o ": handles")
                    \cup If(~ListLens(t, o.w), c.f \o ": list length")
                    \cup If(ok /\ ~OneToOne(rel1), c.f \o ": a handle refers to another object")
             b == b18 \cup b19
         IN  \* the specification's state is not comparable beyond the first difference
             IF b19 # {} \/ (Prop = "C18" /\ b # {}) THEN [s |-> t, bad |-> IF Prop = "C18" THEN b18 ELSE b19]
             ELSE Run(r, k + 1, t, rel1, acc)
Verdict(r) ==
    LET e == Run(r, 1, Start(r.in.vars), {<<0, 0>>}, {})
        all == Empty(e.s)
    IN  [ bad |-> e.bad \cup (IF Prop = "C18" \/ e.bad # {} THEN {}
                              ELSE If(r.out.faults # 0, "something is released that is not allocated")
                                   \cup If(all /\ (r.out.blocks # 0 \/ r.out.bytes # 0), "memory remains when everything has been released")),
          tags |-> { r.in.h[k].f : k \in DOMAIN r.in.h } \cup If(all, "all released") \cup If(\E k \in DOMAIN r.out.h : r.out.h[k].rc > 0, "error code")
                   \cup If(\E k \in DOMAIN r.out.h : r.out.h[k].rc = -1, "panic caught") ]
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
