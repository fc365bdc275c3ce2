------------------------------ MODULE FixTest ------------------------------
(* Fix.tla's overridden operators agree with their TLA+ definitions.  The   *)
(* definitions are repeated here under other names so that TLC evaluates    *)
(* the TLA+ text for them.                                                  *)
EXTENDS Fix, TLC
RECURSIVE SP(_)
SP(ts) == IF ts = <<>> THEN 0 ELSE Prod(Head(ts)) + SP(Tail(ts))
DefSgn(ts) == Sgn(SP(ts))
DefDiv(ts, ds) ==
    LET n0 == SP(ts)  d0 == SP(ds)
        n == IF d0 < 0 THEN -n0 ELSE n0
        d == IF d0 < 0 THEN -d0 ELSE d0
    IN  IF d = 0 THEN Sgn(n) * MaxInt ELSE Sat((2 * n + d) \div (2 * d))
DefSqrt(ts) == LET n == SP(ts) IN
    IF n <= 0 THEN 0 ELSE CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
R == -4..4
ASSUME \A a, b, c, d \in R : LET t == << <<a, b>>, <<c, d>> >> IN
          SgnSum(t) = DefSgn(t) /\ SqrtSum(t) = DefSqrt(t)
ASSUME \A a, b, c \in R : \A d, e \in -3..3 : LET t == << <<a, b>>, <<c>> >> IN
          LET u == << <<d, e>>, <<a>> >> IN DivSum(t, u) = DefDiv(t, u)
ASSUME SgnSum(<< <<2000000000, 2000000000, 2000000000>>, <<-2000000000, 2000000000, 1999999999>> >>) = 1
ASSUME DivSum(<< <<2000000000, 2000000000>> >>, << <<2000000000>> >>) = 2000000000
ASSUME DivSum(<< <<2000000000, 2000000000>> >>, << <<-2>> >>) = -MaxInt
ASSUME SqrtSum(<< <<2000000000, 2000000000>> >>) = 2000000000
ASSUME SqrtSum(<< <<2000000000, 2000000000>>, <<2000000000, 2000000000>> >>) = MaxInt
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
