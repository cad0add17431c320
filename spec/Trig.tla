---------------------------------- MODULE Trig ----------------------------------
(* Sine and cosine of angles in degrees, as rationals accurate to about 2^-90    *)
(* (Taylor series after reduction to -180..180, every step rounded to 2^-120).   *)
EXTENDS Num, Integers
K == 120
Pi == NDiv("314159265358979323846264338327950288419716939937510582", "100000000000000000000000000000000000000000000000000000")
Reduce(deg) == NSub(deg, NMul(360, NRint(NDiv(deg, 360))))
Rad(deg) == NTrunc(NDiv(NMul(deg, Pi), 180), K)
RECURSIVE Series(_, _, _, _)
(* sum of terms t, -t x2/((n+1)(n+2)), ...                                       *)
Series(t, x2, n, acc) ==
  IF n > 60 THEN acc
  ELSE LET t2 == NTrunc(NDiv(NNeg(NMul(t, x2)), (n + 1) * (n + 2)), K)
       IN Series(t2, x2, n + 2, NAdd(acc, t2))
CosR(x) == Series(1, NTrunc(NSq(x), K), 0, 1)
SinR(x) == LET y == NTrunc(x, K) IN Series(y, NTrunc(NSq(y), K), 1, y)
(* angles in radians of any size                                                 *)
RedR(x) == NTrunc(NSub(x, NMul(NMul(2, Pi), NRint(NDiv(x, NMul(2, Pi))))), K)
CosRad(x) == CosR(RedR(x))
SinRad(x) == SinR(RedR(x))
Cos(deg) == CosR(Rad(Reduce(deg)))
Sin(deg) == SinR(Rad(Reduce(deg)))
=================================================================================
