---------------------------------- MODULE Wire ----------------------------------
(***************************************************************************)
(* How values are written: a sequence of tokens.  A compound token (seq,    *)
(* tuple, struct) declares how many parts follow before its "end"; a struct *)
(* announces every part with a "field" token.                               *)
(* Enc(kind, v) are the tokens of a value, Dec(kind, ts, i) reads one back  *)
(* from position i of ts.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

T(t, n) == [t |-> t, n |-> n, s |-> ""]
F(name) == [t |-> "field", n |-> 0, s |-> name]
END == T("end", 0)

(* kinds of scalars, by name                                                *)
Scalars == {"f64", "f32", "bool", "u64"}
(* coordinates are in 1/1000000, bulges in 1/1000000000; both are written   *)
(* as plain numbers                                                         *)
Shape(kind) ==
    CASE kind = "vertex" -> << "tuple", << <<"", "f64">>, <<"", "f64">>, <<"", "f64b">> >> >>
      [] kind = "vector" -> << "tuple", << <<"", "f64">>, <<"", "f64">> >> >>
      [] kind = "vertex32" -> << "tuple", << <<"", "f32">>, <<"", "f32">>, <<"", "f32b">> >> >>
      [] kind = "vector32" -> << "tuple", << <<"", "f32">>, <<"", "f32">> >> >>
      [] kind = "pline" -> << "struct", << <<"vertexes", "vertexs">>, <<"isClosed", "bool">> >> >>
      [] kind = "pline32" -> << "struct", << <<"vertexes", "vertex32s">>, <<"isClosed", "bool">> >> >>
      [] kind = "view" -> << "struct", << <<"startIndex", "u64">>, <<"endIndexOffset", "u64">>, <<"updatedStart", "vertex">>,
                                          <<"updatedEndBulge", "f64b">>, <<"endPoint", "vector">>, <<"invertedDirection", "bool">> >> >>
      [] kind = "slice" -> << "struct", << <<"viewData", "view">>, <<"sourceIsPline1", "bool">>, <<"overlapping", "bool">> >> >>
      [] kind = "result" -> << "struct", << <<"pline", "pline">>, <<"subslices", "slices">> >> >>
      [] kind = "vertexs" -> << "seq", << <<"", "vertex">> >> >>
      [] kind = "vertex32s" -> << "seq", << <<"", "vertex32">> >> >>
      [] kind = "slices" -> << "seq", << <<"", "slice">> >> >>
Scalar(kind) == kind \in Scalars \cup {"f64b", "f32b"}
Token(kind, n) == CASE kind = "f64b" -> T("f64", n \div 1000) [] kind = "f32b" -> T("f32", n \div 1000) [] OTHER -> T(kind, n)
(* the parts of a value, in the order of its shape                          *)
Parts(kind, v) ==
    CASE kind = "pline" \/ kind = "pline32" -> << v.v, v.c >>
      [] kind = "view" -> << v.start, v.count, v.first, v.bulge, v.last, v.inv >>
      [] kind = "slice" -> << v.view, v.one, v.over >>
      [] kind = "result" -> << v.pline, v.subs >>
      [] OTHER -> v
Build(kind, ps) ==
    CASE kind = "pline" \/ kind = "pline32" -> [v |-> ps[1], c |-> ps[2]]
      [] kind = "view" -> [start |-> ps[1], count |-> ps[2], first |-> ps[3], bulge |-> ps[4], last |-> ps[5], inv |-> ps[6]]
      [] kind = "slice" -> [view |-> ps[1], one |-> ps[2], over |-> ps[3]]
      [] kind = "result" -> [pline |-> ps[1], subs |-> ps[2]]
      [] OTHER -> ps

PartKind(sh, k) == IF sh[1] = "seq" THEN sh[2][1][2] ELSE sh[2][k][2]
RECURSIVE Enc(_, _), EncParts(_, _, _)
EncParts(sh, ps, k) ==
    IF k > Len(ps) THEN <<>>
    ELSE (IF sh[1] = "struct" THEN << F(sh[2][k][1]) >> ELSE <<>>) \o Enc(PartKind(sh, k), ps[k]) \o EncParts(sh, ps, k + 1)
Enc(kind, v) ==
    IF Scalar(kind) THEN << Token(kind, v) >>
    ELSE LET sh == Shape(kind)  ps == TLCEval(Parts(kind, v)) IN << T(sh[1], Len(ps)) >> \o EncParts(sh, ps, 1) \o << END >>

(* << value, next position >>                                               *)
RECURSIVE Dec(_, _, _), DecParts(_, _, _, _, _)
DecParts(sh, ts, i, k, n) ==
    IF k > n THEN << <<>>, i >>
    ELSE LET a == TLCEval(Dec(PartKind(sh, k), ts, IF sh[1] = "struct" THEN i + 1 ELSE i))
             b == TLCEval(DecParts(sh, ts, a[2], k + 1, n))
         IN  << << a[1] >> \o b[1], b[2] >>
Dec(kind, ts, i) ==
    IF Scalar(kind) THEN << IF kind \in {"f64b", "f32b"} THEN ts[i].n * 1000 ELSE ts[i].n, i + 1 >>
    ELSE LET sh == Shape(kind)
             r == TLCEval(DecParts(sh, ts, i + 1, 1, ts[i].n))
         IN  << Build(kind, r[1]), r[2] + 1 >>

(* every compound declares as many parts as it has: the count that a reader  *)
(* of a length-prefixed format relies on                                    *)
RECURSIVE Skip(_, _), SkipParts(_, _, _, _)
(* position after the value at i, or 0 if it is not well formed              *)
Skip(ts, i) ==
    IF i = 0 \/ i > Len(ts) THEN 0
    ELSE IF ts[i].t \in {"seq", "tuple", "struct"}
         THEN LET e == TLCEval(SkipParts(ts, i + 1, ts[i].n, ts[i].t = "struct"))
              IN  IF e = 0 \/ e > Len(ts) THEN 0 ELSE IF ts[e].t = "end" THEN e + 1 ELSE 0
    ELSE IF ts[i].t \in {"end", "field"} THEN 0 ELSE i + 1
SkipParts(ts, p, n, named) ==
    IF p = 0 \/ n = 0 THEN p
    ELSE IF ~named THEN SkipParts(ts, TLCEval(Skip(ts, p)), n - 1, named)
    ELSE IF p <= Len(ts) /\ ts[p].t = "field" THEN SkipParts(ts, TLCEval(Skip(ts, p + 1)), n - 1, named) ELSE 0
WellFormed(ts) == Skip(ts, 1) = Len(ts) + 1
=============================================================================
