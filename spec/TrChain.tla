-------------------------------- MODULE TrChain --------------------------------
(***************************************************************************)
(* The workspace machine (C24).  Its state is the sequence of polylines in   *)
(* the workspace.  A recorded step names its operands and results; it is a   *)
(* step of this machine when                                                *)
(*   - the operands read after the call are what the state says they are     *)
(*     (operations do not modify their inputs),                             *)
(*   - the results are closed, have no repeated positions, at least two      *)
(*     vertexes and do not cross themselves,                                *)
(*   - the results relate to the operands as Bool and Off say (operands that *)
(*     touch themselves are outside what those say, and are not judged);     *)
(* its successor state is the kept part of state and results.               *)
(***************************************************************************)
EXTENDS TraceBase, Sampling

B == INSTANCE Bool
F == INSTANCE Off

LoopBad(pl) ==
    LET ss == Segs(pl) IN
    If(pl.c # 1, "result not closed")
    \cup If(Len(pl.v) < 2, "result with fewer than two vertexes")
    \cup If(\E i \in DOMAIN ss : PNear(ss[i].a, ss[i].b, 8), "repeated position in a result")
    \cup If(SelfCross(ss), "result crosses itself")
IsBool(o) == o \in {"or", "and", "not", "xor"}
LoopSegs(ps) == TLCEval([i \in DOMAIN ps |-> Segs(ps[i])])
Near(u, w, tol) == Abs(u - w) <= tol

BoolBad(s, p, q) ==
    LET sp == Segs(p)  sq == Segs(q)
        pos == LoopSegs(s.pos)  neg == LoopSegs(s.neg)
    IN  If(\E c \in B!Classed(sp, sq, 5) :
             B!Cover(pos, c[1]) - B!Cover(neg, c[1]) # (IF B!Want(s.o, c[2], c[3]) THEN 1 ELSE 0), "region")
        \cup If(\E i \in DOMAIN pos : \E k \in DOMAIN pos[i] : ~OnPath(sp \o sq, Mid(pos[i][k]), 150 + Uncertain(pos[i][k])), "result leaves the operands")
OffBad(s, p) ==
    LET ss == Segs(p)
        loops == LoopSegs(s.pos)
        rs == FlatSegs(loops)
    IN  F!RegionBad(ss, loops, rs, Sgn(Area2(ss)), s.n)
        \cup F!DistBad(ss, rs, s.n)
(* the same travelled path, whatever the vertexes                           *)
SamePath(p, q, dir) ==
    LET sp == Segs(p)  sq == Segs(q)
        ok(u, w) == \A i \in DOMAIN u : OnPath(w, u[i].a, 30 + Uncertain(u[i])) /\ OnPath(w, Mid(u[i]), 60 + Uncertain(u[i]))
    IN  /\ ok(sp, sq) /\ ok(sq, sp)
        /\ Near(Area2(sq), dir * Area2(sp), 400 + 200 * Len(sp))
        /\ Near(PathLen(sq), PathLen(sp), 400 + 100 * Len(sp))
One(s) == Len(s.pos) = 1 /\ s.neg = <<>>
StepBad(s, p, q) ==
    CASE IsBool(s.o) -> BoolBad(s, p, q)
      [] s.o \in {"offset", "shape"} -> OffBad(s, p)
      [] s.o = "reverse" -> If(~One(s) \/ s.pos[1].c # 1 \/ s.pos[1].v # RevPl(p).v, "not the reverse")
      [] s.o = "rotate" -> If(~One(s) \/ s.pos[1] # RotPl(p, s.n), "not the same loop from another start")
      [] s.o \in {"redundant", "repeats"} -> If(Len(s.pos) > 1 \/ \E i \in DOMAIN s.pos : ~SamePath(p, s.pos[i], 1), "path changed")
                                             \cup If(s.o = "repeats" /\ s.pos # <<>>, "repeats removed where there are none")
      [] s.o = "lines" ->
           If(~One(s) \/ \E i \in DOMAIN s.pos[1].v : s.pos[1].v[i][3] # 0, "arcs left")
           \cup LET sp == Segs(p)  sq == Segs(s.pos[1]) IN
                If(\E i \in DOMAIN sq : MinDist(sp, sq[i].a) > 60 \/ MinDist(sp, Mid(sq[i])) > s.n + 60, "strays from the path")
                \cup If(\E i \in DOMAIN sp : ~OnPath(sq, sp[i].a, 30), "vertex lost")
Judged(p) == SimpleSegs(Segs(p), TRUE, 100)

RECURSIVE Fold(_, _, _, _)
Fold(steps, i, pool, acc) ==
    IF i > Len(steps) THEN acc
    ELSE LET s == steps[i]
             p == pool[s.i]  q == pool[s.j]
             jud == TLCEval(Judged(p) /\ (IsBool(s.o) => Judged(q)))
             outs == s.pos \o s.neg
             all == pool \o outs
             nm == s.o \o ": "
             wrong == TLCEval({ nm \o m :
                       m \in If(s.a # p \/ s.b # q, "an operand was modified")
                             \cup (IF ~jud THEN {} ELSE UNION { LoopBad(outs[k]) : k \in DOMAIN outs } \cup StepBad(s, p, q)) })
             next == TLCEval([k \in DOMAIN s.keep |-> all[s.keep[k]]])
         IN  IF wrong # {} THEN [bad |-> acc.bad \cup wrong, tags |-> acc.tags, pool |-> pool, ok |-> FALSE]
             ELSE Fold(steps, i + 1, next, TLCEval([acc EXCEPT !.tags = @ \cup {s.o} \cup If(~jud, "operand touches itself")
                                                       \cup If(i > 5 /\ jud, "sixth step or later"), !.pool = next]))
Verdict(r) ==
    LET f == Fold(r.out.steps, 1, r.in.ps, [bad |-> {}, tags |-> {}, pool |-> r.in.ps, ok |-> TRUE])
    IN  [ bad |-> f.bad \cup If(f.ok /\ f.pool # r.out.pool, "the workspace was modified"), tags |-> f.tags ]
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
