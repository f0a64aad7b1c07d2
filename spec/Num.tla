-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* The numeric vocabulary used by the sureal specifications.  Every        *)
(* operator is DEFINED by NumPure; java/Num.java evaluates the same        *)
(* definitions with BigInteger when it is on TLC's class path (a standard  *)
(* TLC module override), and NumCheck.tla makes TLC compare the two digit  *)
(* for digit.  Without the class everything still runs, only slower.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL P == INSTANCE NumPure

NaN    == <<2>>
PosInf == <<3>>
NegInf == <<-3>>
Zero   == <<0>>
One    == <<1, 0, 0, 0, 0, 0, 1>>
Two    == <<1, 0, 0, 0, 0, 0, 2>>

IsNaN(a)  == a[1] = 2
IsInf(a)  == a[1] = 3 \/ a[1] = -3
IsFin(a)  == a[1] # 2 /\ a[1] # 3 /\ a[1] # -3

NInt(n)    == P!NInt(n)
NNeg(a)    == P!NNeg(a)
NAbs(a)    == P!NAbs(a)
NAdd(a, b) == P!NAdd(a, b)
NSub(a, b) == P!NSub(a, b)
NMul(a, b) == P!NMul(a, b)
NDiv(a, b) == P!NDiv(a, b)
NCmp(a, b) == P!NCmp(a, b)
NSqrt(a)   == P!NSqrt(a)
NExp(a)    == P!NExp(a)
NLn(a)     == P!NLn(a)
NTrunc(a)  == P!NTrunc(a)
NClose(a, b, tol) == P!NClose(a, b, tol)
NSum(s)    == P!NSum(s)
DropNaN(s) == P!DropNaN(s)
============================================================================
