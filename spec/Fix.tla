-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Exact integer arithmetic on sums of products, used for fixed-point       *)
(* geometry.  TLC's own integers are 32 bits wide, so the three operators   *)
(* marked OVERRIDDEN below are evaluated by java/verif/FixOverrides.java    *)
(* with unbounded intermediates; the definitions here are what they mean    *)
(* (FixTest.tla checks, on small values, that both agree).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxInt == 2147483647
Sat(n) == IF n > MaxInt THEN MaxInt ELSE IF n < -MaxInt THEN -MaxInt ELSE n
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Abs(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE Prod(_)
Prod(t) == IF t = <<>> THEN 1 ELSE Head(t) * Prod(Tail(t))

RECURSIVE SumProd(_)
SumProd(ts) == IF ts = <<>> THEN 0 ELSE Prod(Head(ts)) + SumProd(Tail(ts))

(* OVERRIDDEN: sign of the sum of the products *)
SgnSum(ts) == Sgn(SumProd(ts))

(* OVERRIDDEN: round(SumProd(ts) / SumProd(ds)), halves up, saturated to 32 *)
(* bits; a zero divisor saturates by the sign of the numerator.             *)
DivSum(ts, ds) ==
    LET n0 == SumProd(ts)
        d0 == SumProd(ds)
        n  == IF d0 < 0 THEN -n0 ELSE n0
        d  == IF d0 < 0 THEN -d0 ELSE d0
    IN  IF d = 0 THEN Sgn(n) * MaxInt
        ELSE Sat((2 * n + d) \div (2 * d))

(* OVERRIDDEN: floor of the square root of the sum (0 when negative)        *)
SqrtSum(ts) ==
    LET n == SumProd(ts)
    IN  IF n <= 0 THEN 0
        ELSE Sat(CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n)

(* Lehmer generator (Schrage's method keeps it in 32 bits)                  *)
Rnd(x) == LET y == 16807 * (x % 127773) - 2836 * (x \div 127773)
          IN  IF y > 0 THEN y ELSE y + 2147483647
RndSeed(seed, i) == 
    LET s0 == 1 + ((((seed * 7919) % 2147483) + (i % 20000) * 104729 + (i \div 20000) * 5557) % 2147483)
    IN  Rnd(Rnd(Rnd(Rnd(s0))))
(* a value in 0..n-1 from the generator state, from its high-order part     *)
RndPick(x, n) == (x \div 16384) % n
=============================================================================
