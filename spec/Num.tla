---------------------------------- MODULE Num ----------------------------------
(* Exact arithmetic on rational numbers.  The definitions below are the meaning; *)
(* TLC evaluates them with the override java/Num.java (arbitrary precision).     *)
(* A number that is not a 32-bit integer enters as a string "n" or "n/d" in      *)
(* lowest terms: a float is logged as the exact dyadic rational it stands for.   *)
LOCAL INSTANCE Reals
LOCAL INSTANCE TLC

NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NDiv(a, b) == a / b
NNeg(a)    == 0 - a
NAbs(a)    == IF a < 0 THEN 0 - a ELSE a
NLe(a, b)  == a <= b
NLt(a, b)  == a < b
NEq(a, b)  == a = b
NSgn(a)    == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
NFloor(a)  == CHOOSE n \in Int : n <= a /\ a < n + 1
NIsInt(a)  == a \in Int
NIs(a)     == a \in Real
NTrunc(a, k)  == CHOOSE x \in Real : \E n \in Int : x * 2^k = n /\ n <= a * 2^k /\ a * 2^k < n + 1
NSqrtK(a, k)  == CHOOSE x \in Real : \E n \in Nat : x * 2^k = n /\ x * x <= a /\ a < (x + 1 / 2^k) * (x + 1 / 2^k)
NStr(a)    == ToString(a)

---------------------------------------------------------------------------------
(* Derived operators (no override).                                              *)
NRint(a)   == NFloor(NAdd(a, NDiv(1, 2)))                 \* nearest integer
NDistInt(a) == NAbs(NSub(a, NRint(a)))                    \* distance to the nearest integer
NMax(a, b) == IF NLe(a, b) THEN b ELSE a
NMin(a, b) == IF NLe(a, b) THEN a ELSE b
NSq(a)     == NMul(a, a)
NClose(a, b, tol) == NLe(NAbs(NSub(a, b)), tol)
(* |a-b| <= tol * max(1, |b|)                                                    *)
NCloseRel(a, b, tol) == NLe(NAbs(NSub(a, b)), NMul(tol, NMax(1, NAbs(b))))
NSqrt(a)   == NSqrtK(a, 100)
Rat(n, d)  == NDiv(n, d)
RECURSIVE NTenPow(_)
NTenPow(k) == IF k = 0 THEN 1 ELSE NMul(10, NTenPow(k - 1))
NTen(k)    == NDiv(1, NTenPow(k))                          \* 10^-k
=================================================================================
