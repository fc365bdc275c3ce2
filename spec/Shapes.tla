------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* A catalogue of simple (non self-crossing) closed polylines made of lines *)
(* and arcs, and polyomino boundaries.  Everything is counter-clockwise     *)
(* here; users reverse, rotate, turn and move the shapes.                   *)
(***************************************************************************)
EXTENDS Geom

(* Bulges used often: quarter turn, half turn, and others                   *)
B90 == 414213562     \* tan(pi/8): a quarter turn
B60 == 267949192     \* tan(pi/12)
B120 == 577350269    \* tan(pi/6)
Closed(vs) == [c |-> 1, v |-> vs]
OpenPl(vs) == [c |-> 0, v |-> vs]
V(x, y, b) == <<x, y, b>>

Rect(w, h) == Closed(<< V(0,0,0), V(w,0,0), V(w,h,0), V(0,h,0) >>)
Circle2(r) == Closed(<< V(-r,0,G), V(r,0,G) >>)
Circle4(r) == Closed(<< V(r,0,B90), V(0,r,B90), V(-r,0,B90), V(0,-r,B90) >>)
Capsule(l, r) == Closed(<< V(0,-r,0), V(l,-r,G), V(l,r,0), V(0,r,G) >>)
HalfDisc(r) == Closed(<< V(-r,0,0), V(r,0,G) >>)
Quarter(r) == Closed(<< V(0,0,0), V(r,0,B90), V(0,r,0) >>)
(* two arcs over one chord: a lens when both positive, a crescent otherwise *)
Lens(l, b1, b2) == Closed(<< V(0,0,b1), V(l,0,b2) >>)
RoundRect(w, h, r) == Closed(<< V(r,0,0), V(w-r,0,B90), V(w,r,0), V(w,h-r,B90),
                                V(w-r,h,0), V(r,h,B90), V(0,h-r,0), V(0,r,B90) >>)
(* concave (scooped) corners                                                *)
ScoopRect(w, h, r) == Closed(<< V(r,0,0), V(w-r,0,-B90), V(w,r,0), V(w,h-r,-B90),
                                V(w-r,h,0), V(r,h,-B90), V(0,h-r,0), V(0,r,-B90) >>)
(* half ring between radii r < s                                            *)
HalfRing(r, s) == Closed(<< V(r,0,0), V(s,0,G), V(-s,0,0), V(-r,0,-G) >>)
QuarterRing(r, s) == Closed(<< V(r,0,0), V(s,0,B90), V(0,s,0), V(0,r,-B90) >>)
EllShape(w, h, t) == Closed(<< V(0,0,0), V(w,0,0), V(w,t,0), V(t,t,0), V(t,h,0), V(0,h,0) >>)
UShape(w, h, t) == Closed(<< V(0,0,0), V(w,0,0), V(w,h,0), V(w-t,h,0), V(w-t,t,0), V(t,t,0), V(t,h,0), V(0,h,0) >>)
(* U with a round bottom                                                    *)
URound(r, t, h) == Closed(<< V(-r-t,0,G), V(r+t,0,0), V(r+t,h,0), V(r,h,0), V(r,0,-G), V(-r,0,0), V(-r,h,0), V(-r-t,h,0) >>)
PlusShape(a, t) == Closed(<< V(a,0,0), V(a+t,0,0), V(a+t,a,0), V(a+a+t,a,0), V(a+a+t,a+t,0), V(a+t,a+t,0),
                             V(a+t,a+a+t,0), V(a,a+a+t,0), V(a,a+t,0), V(0,a+t,0), V(0,a,0), V(a,a,0) >>)
Triangle(w, h, k) == Closed(<< V(0,0,0), V(w,0,0), V(k,h,0) >>)
(* rectangle with an arc bump (b>0) or dent (b<0) in the middle of its top  *)
BumpRect(w, h, k, b) == Closed(<< V(0,0,0), V(w,0,0), V(w,h,0), V(w-k,h,b), V(k,h,0), V(0,h,0) >>)
(* bow: rectangle whose four sides are arcs                                 *)
Pillow(w, h, b) == Closed(<< V(0,0,b), V(w,0,b), V(w,h,b), V(0,h,b) >>)
(* comb with n teeth, each with a rounded (b) tip                           *)
Comb(n, t, h, b) ==
    Closed(<< V(0,-t,0), V((2*n-1)*t,-t,0) >> \o
      [i \in 1..(4*n) |->
         LET k == n - ((i - 1) \div 4)     \* tooth number from the right
             j == (i - 1) % 4
         IN  IF j = 0 THEN V((2*k-1)*t, IF k = n THEN 0 ELSE 0, 0)
             ELSE IF j = 1 THEN V((2*k-1)*t, h, b)
             ELSE IF j = 2 THEN V((2*k-2)*t, h, 0)
             ELSE V((2*k-2)*t, 0, 0)])
(* saw-edged slab                                                           *)
Saw(n, t, h) ==
    Closed(<< V(0,-t,0), V(2*n*t,-t,0) >> \o
      [i \in 1..(2*n+1) |-> V((2*n+1-i)*t, IF i % 2 = 1 THEN 0 ELSE h, 0)])

(* Star: radii at the 8 or 12 directions (exact multiples of rational unit  *)
(* vectors); always star-shaped around the origin, so simple when lines     *)
Dirs12 == << <<5,0>>, <<4,3>>, <<3,4>>, <<0,5>>, <<-3,4>>, <<-4,3>>, <<-5,0>>, <<-4,-3>>, <<-3,-4>>, <<0,-5>>, <<3,-4>>, <<4,-3>> >>
Star(rs) == Closed([i \in 1..12 |-> V((Dirs12[i][1] * rs[i]) \div 5, (Dirs12[i][2] * rs[i]) \div 5, 0)])
StarB(rs, bs) == Closed([i \in 1..12 |-> V((Dirs12[i][1] * rs[i]) \div 5, (Dirs12[i][2] * rs[i]) \div 5, bs[i])])

-----------------------------------------------------------------------------
(* Polyomino boundaries.  A cell <<i, j>> is the unit square with lower     *)
(* left corner <<i, j>>.                                                    *)

CellEdges(c) == LET i == c[1]  j == c[2] IN
    { << <<i,j>>, <<i+1,j>> >>, << <<i+1,j>>, <<i+1,j+1>> >>,
      << <<i+1,j+1>>, <<i,j+1>> >>, << <<i,j+1>>, <<i,j>> >> }
(* directed boundary edges with the cells on the left                       *)
Edges(cs) == LET all == UNION { CellEdges(c) : c \in cs }
             IN  { e \in all : << e[2], e[1] >> \notin all }
Nbrs(c) == { <<c[1]+1,c[2]>>, <<c[1]-1,c[2]>>, <<c[1],c[2]+1>>, <<c[1],c[2]-1>> }
NoPinch(es) == Cardinality({ e[1] : e \in es }) = Cardinality(es)
RECURSIVE Follow(_, _, _)
Follow(es, start, e) ==
    LET nx == CHOOSE f \in es : f[1] = e[2]
    IN  IF nx[1] = start THEN <<>> ELSE << nx[1] >> \o Follow(es, start, nx)
(* boundary loop, as corner points                                          *)
Loop(es) == LET e0 == CHOOSE e \in es : \A f \in es :
                        e[1][2] < f[1][2] \/ (e[1][2] = f[1][2] /\ e[1][1] <= f[1][1])
            IN  << e0[1] >> \o Follow(es, e0[1], e0)
(* a single loop without pinch points: a simple polygon without holes       *)
IsDisc(cs) == LET es == TLCEval(Edges(cs)) IN NoPinch(es) /\ Len(Loop(es)) = Cardinality(es)
(* every unit edge its own segment, unit length u, bulges bs[1..n] (or 0)   *)
PolyUnit(cs, u) == LET lp == TLCEval(Loop(TLCEval(Edges(cs)))) IN
    Closed(TLCEval([i \in 1..Len(lp) |-> V(lp[i][1] * u, lp[i][2] * u, 0)]))
(* drop the vertexes in the middle of straight runs                         *)
Corners(pl) ==
    LET n == Len(pl.v)
        keep(i) == LET p == pl.v[IF i = 1 THEN n ELSE i - 1]  q == pl.v[i]  r == pl.v[NextI(pl, i)]
                   IN  q[3] # 0 \/ p[3] # 0 \/ Orient(PosOf(p), PosOf(q), PosOf(r)) # 0
        pick[i \in 0..n] == IF i = 0 THEN <<>>
                            ELSE IF keep(i) THEN Append(pick[i - 1], pl.v[i]) ELSE pick[i - 1]
    IN  Closed(pick[n])
(* give edge i the bulge bs[i] (a sequence or function on 1..n)             *)
Bulged(pl, bs) == [c |-> pl.c, v |-> TLCEval([i \in DOMAIN pl.v |-> <<pl.v[i][1], pl.v[i][2], bs[i]>>])]
Scale(pl, k) == [c |-> pl.c, v |-> TLCEval([i \in DOMAIN pl.v |-> <<pl.v[i][1] * k, pl.v[i][2] * k, pl.v[i][3]>>])]

(* a set of integer pairs as a sequence in lexicographic order              *)
RECURSIVE SetToSeqLex(_)
SetToSeqLex(ps) ==
    IF ps = {} THEN <<>>
    ELSE LET m == CHOOSE p \in ps : \A q \in ps : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
         IN  << m >> \o SetToSeqLex(ps \ {m})

-----------------------------------------------------------------------------
(* Pseudo-random choices: a generator state x gives a stream At(x, 1..).    *)
RECURSIVE At(_, _)
At(x, k) == IF k = 0 THEN x ELSE At(Rnd(x), k - 1)
Pick(x, k, n) == RndPick(At(x, k), n)            \* 0..n-1
PickOf(x, k, seq) == seq[1 + Pick(x, k, Len(seq))]
Chance(x, k, pct) == Pick(x, k, 100) < pct

(* growing polyominoes                                                      *)
Box == 0..3
(* grow by one cell next to the polyomino; keep it a disc at the end        *)
GrowStep(cs, y) ==
    IF cs = {} THEN { <<1, 1>> }
    ELSE LET cand == UNION { Nbrs(c) : c \in cs } \ cs
             inb == { c \in cand : c[1] \in Box /\ c[2] \in Box }
             ok == { c \in inb : IsDisc(cs \cup {c}) }
             sq == SetToSeqLex(ok)
         IN  IF ok = {} THEN cs ELSE cs \cup { PickOf(y, 2, sq) }

Deco(pl, y) ==    \* bulge some of the unit edges
    LET m == Pick(y, 3, 3) IN
    IF m = 0 THEN pl
    ELSE Bulged(pl, [i \in DOMAIN pl.v |->
            PickOf(y, 3 + i, IF m = 1 THEN <<0, 0, 0, 300000000, -300000000, B60>>
                             ELSE <<0, 0, 200000000, -200000000, B60, -B60, 300000000, -300000000>>)])
FromCells(cs, y) ==
    LET u == PickOf(y, 1, <<U, U, 2 * U>>)
        p == Deco(PolyUnit(cs, u), y)
    IN  IF Chance(y, 2, 70) THEN Corners(p) ELSE p

H == U \div 2
Sizes == <<H, U, U, U + H, 2 * U, 2 * U, 3 * U>>
NFam == 20
(* catalogue member f with parameters drawn from x; unit sizes              *)
Member(f, x) ==
    LET w == PickOf(x, 1, <<2*U, 3*U, 4*U, 5*U, 2*U + H>>)
        h == PickOf(x, 2, <<2*U, 3*U, 4*U, U + H, U>>)
        r == PickOf(x, 3, <<U, U + H, 2*U, H>>)
        t == PickOf(x, 4, <<H, U>>)
        b == PickOf(x, 5, <<B60, 200000000, 300000000>>)
        sg == IF Chance(x, 6, 50) THEN 1 ELSE -1
    IN  CASE f = 0 -> Rect(w, h)
          [] f = 1 -> Circle2(r)
          [] f = 2 -> Circle4(r)
          [] f = 3 -> Capsule(w, r)
          [] f = 4 -> HalfDisc(r + H)
          [] f = 5 -> Quarter(r + U)
          [] f = 6 -> Lens(w, PickOf(x, 7, <<B60, B90, G, B120, 800000000>>), PickOf(x, 8, <<B60, B90, G, 700000000>>))
          [] f = 7 -> Lens(w, PickOf(x, 7, <<G, 800000000, 900000000>>), -PickOf(x, 8, <<B60, B90, 500000000>>))
          [] f = 8 -> RoundRect(w + U, h + 2 * U, PickOf(x, 7, <<H, H \div 2, U>>))
          [] f = 9 -> ScoopRect(w + U, h + U, PickOf(x, 7, <<H, H \div 2>>))
          [] f = 10 -> HalfRing(r, r + t)
          [] f = 11 -> QuarterRing(r, r + t + H)
          [] f = 12 -> EllShape(w + U, h + U, t)
          [] f = 13 -> UShape(w + U, h + U, t)
          [] f = 14 -> URound(r, t, h)
          [] f = 15 -> PlusShape(r, t + H)
          [] f = 16 -> Triangle(w, h, PickOf(x, 7, <<0, U, -U, w \div 2>>))
          [] f = 17 -> BumpRect(w, h + H, H, sg * PickOf(x, 7, <<B60, B90, 300000000>>))
          [] f = 18 -> Pillow(w, w, sg * b)
          [] f = 19 -> Star([i \in 1..12 |-> PickOf(x, 6 + i, <<U, U, 2*U, U + H, 3*U, 2*U + H>>)])
-----------------------------------------------------------------------------
(* some of the lines of a shape become arcs that hardly bend                  *)
ShallowB == << 0, 0, 18000000, -18000000, 9000000, -9000000, 40000000, -40000000 >>
Soften(p, y) == TLCEval([c |-> p.c, v |-> [i \in DOMAIN p.v |-> IF p.v[i][3] # 0 \/ (p.c = 0 /\ i = Len(p.v)) THEN p.v[i]
                  ELSE << p.v[i][1], p.v[i][2], PickOf(y, i, ShallowB) >>]])
SoftenSimple(p, y) == LET q == Soften(p, y) IN IF Simple(q, 2000) THEN q ELSE p
=============================================================================
