------------------------------ MODULE NumPure ------------------------------
(***************************************************************************)
(* Extended fixed-point reals for TLC (whose integers are 32 bit).         *)
(*                                                                         *)
(* A number is a tuple <<sgn, l1, l2, ..., ln>>:  sgn in {-1,0,1}, limbs   *)
(* little-endian in base 10^4, no leading (most significant) zero limb.    *)
(* Its value is  sgn * (l1 + l2*10^4 + ...) * 10^-20 .                     *)
(* <<0>> is zero, <<2>> is NaN ("no score"), <<3>>/<<-3>> are +/-Inf.      *)
(* All operators are total; every rounding truncates toward zero, so the   *)
(* definitions are deterministic and can be compared digit for digit with  *)
(* the Java accelerated versions (see Num.tla / NumCheck.tla).             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base   == 10000
FracL  == 5                       \* fractional limbs: scale 10^20

NaN    == <<2>>
PosInf == <<3>>
NegInf == <<-3>>
Zero   == <<0>>

IsNaN(a)    == a[1] = 2
IsInf(a)    == a[1] = 3 \/ a[1] = -3
IsFin(a)    == a[1] \in {-1, 0, 1}

LOCAL Mx(a, b) == IF a > b THEN a ELSE b
LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

----------------------------------------------------------------------------
(* magnitudes: little-endian limb sequences, normalised                     *)

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN <<>>
            ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE MCmpAt(_, _, _)
MCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] > b[i] THEN 1
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE MCmpAt(a, b, i - 1)
MCmp(a, b) == IF Len(a) > Len(b) THEN 1
              ELSE IF Len(a) < Len(b) THEN -1
              ELSE MCmpAt(a, b, Len(a))

RECURSIVE MAddR(_, _, _, _, _)
MAddR(a, b, i, c, acc) ==
    IF i > Mx(Len(a), Len(b))
    THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET t == Limb(a, i) + Limb(b, i) + c
         IN MAddR(a, b, i + 1, t \div Base, Append(acc, t % Base))
MAdd(a, b) == MAddR(a, b, 1, 0, <<>>)

RECURSIVE MSubR(_, _, _, _, _)
MSubR(a, b, i, c, acc) ==      \* requires a >= b
    IF i > Len(a) THEN Strip(acc)
    ELSE LET t == a[i] - Limb(b, i) - c
         IN IF t < 0 THEN MSubR(a, b, i + 1, 1, Append(acc, t + Base))
                     ELSE MSubR(a, b, i + 1, 0, Append(acc, t))
MSub(a, b) == MSubR(a, b, 1, 0, <<>>)

RECURSIVE MMul1R(_, _, _, _, _)
MMul1R(a, d, i, c, acc) ==
    IF i > Len(a) THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET t == a[i] * d + c
         IN MMul1R(a, d, i + 1, t \div Base, Append(acc, t % Base))
MMul1(a, d) == IF d = 0 THEN <<>> ELSE MMul1R(a, d, 1, 0, <<>>)

LOCAL Zeros(n) == [i \in 1..n |-> 0]
MShift(a, n) == IF a = <<>> THEN <<>> ELSE Zeros(n) \o a
MDrop(a, n)  == IF Len(a) <= n THEN <<>> ELSE SubSeq(a, n + 1, Len(a))

RECURSIVE MMulR(_, _, _, _)
MMulR(a, b, i, acc) ==
    IF i > Len(b) THEN Strip(acc)
    ELSE MMulR(a, b, i + 1, MAdd(acc, MShift(MMul1(a, b[i]), i - 1)))
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MMulR(a, b, 1, <<>>)

\* largest d in lo..hi with b*d <= r
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF MCmp(MMul1(b, mid), r) <= 0 THEN QDigit(r, b, mid, hi)
                                           ELSE QDigit(r, b, lo, mid - 1)
RECURSIVE MDivR(_, _, _, _, _)
MDivR(a, b, i, r, q) ==          \* schoolbook, most significant limb first
    IF i = 0 THEN Strip(q)
    ELSE LET r1 == Strip(<<a[i]>> \o r)
             d  == QDigit(r1, b, 0, Base - 1)
             r2 == MSub(r1, MMul1(b, d))
         IN MDivR(a, b, i - 1, r2, <<d>> \o q)
MDiv(a, b) == IF a = <<>> THEN <<>> ELSE MDivR(a, b, Len(a), <<>>, <<>>)

\* integer square root by Newton from above
RECURSIVE MSqrtR(_, _)
MSqrtR(a, x) ==
    LET y == MDiv(MAdd(x, MDiv(a, x)), <<2>>)
    IN IF MCmp(y, x) >= 0 THEN x ELSE MSqrtR(a, y)
MSqrt(a) == IF a = <<>> THEN <<>>
            ELSE MSqrtR(a, MShift(<<1>>, (Len(a) + 1) \div 2))

----------------------------------------------------------------------------
Mag(a) == Tail(a)
Mk(s, m) == IF m = <<>> THEN Zero ELSE <<s>> \o m

RECURSIVE IntLimbs(_)
IntLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o IntLimbs(n \div Base)
NInt(n) == IF n = 0 THEN Zero
           ELSE IF n > 0 THEN <<1>> \o MShift(IntLimbs(n), FracL)
           ELSE <<-1>> \o MShift(IntLimbs(-n), FracL)

NNeg(a) == IF IsNaN(a) THEN NaN ELSE [a EXCEPT ![1] = -a[1]]
NAbs(a) == IF a[1] < 0 THEN NNeg(a) ELSE a

NAdd(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF IsInf(a) THEN (IF IsInf(b) /\ b # a THEN NaN ELSE a)
    ELSE IF IsInf(b) THEN b
    ELSE IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Mag(a), Mag(b)))
    ELSE LET c == MCmp(Mag(a), Mag(b))
         IN IF c = 0 THEN Zero
            ELSE IF c > 0 THEN Mk(a[1], MSub(Mag(a), Mag(b)))
            ELSE Mk(b[1], MSub(Mag(b), Mag(a)))
NSub(a, b) == NAdd(a, NNeg(b))

LOCAL Sg(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

NMul(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF IsInf(a) \/ IsInf(b)
         THEN (IF Sg(a) * Sg(b) = 0 THEN NaN
               ELSE IF Sg(a) * Sg(b) > 0 THEN PosInf ELSE NegInf)
    ELSE Mk(Sg(a) * Sg(b), MDrop(MMul(Mag(a), Mag(b)), FracL))

NDiv(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF IsInf(a) THEN (IF IsInf(b) THEN NaN
                           ELSE IF Sg(b) < 0 THEN NNeg(a) ELSE a)
    ELSE IF IsInf(b) THEN Zero
    ELSE IF b[1] = 0 THEN (IF a[1] = 0 THEN NaN
                           ELSE IF a[1] > 0 THEN PosInf ELSE NegInf)
    ELSE Mk(Sg(a) * Sg(b), MDiv(MShift(Mag(a), FracL), Mag(b)))

\* exact comparison; NaN handled by callers
NCmp(a, b) ==
    IF a = b THEN 0
    ELSE IF a = PosInf \/ b = NegInf THEN 1
    ELSE IF a = NegInf \/ b = PosInf THEN -1
    ELSE LET d == NSub(a, b) IN IF d[1] > 0 THEN 1 ELSE IF d[1] < 0 THEN -1 ELSE 0

NSqrt(a) == IF IsNaN(a) \/ a[1] < 0 THEN NaN
            ELSE IF IsInf(a) THEN a
            ELSE Mk(1, MSqrt(MShift(Mag(a), FracL)))

----------------------------------------------------------------------------
(* exp and ln, by argument reduction and power series                       *)
One  == NInt(1)
Two  == NInt(2)
Half == NDiv(One, Two)
Ln2  == <<1, 942, 9453, 559, 4718, 6931>>    \* ln 2 = 0.6931 4718 0559 9453 0942

\* e^y for |y| <= 1 : sum y^k / k!
RECURSIVE ExpSer(_, _, _, _)
ExpSer(y, k, term, acc) ==
    IF term[1] = 0 THEN acc
    ELSE LET t == NDiv(NMul(term, y), NInt(k)) IN ExpSer(y, k + 1, t, NAdd(acc, t))

\* integer part of a fixed-point number that fits 31 bits (truncation)
RECURSIVE LimbsToInt(_)
LimbsToInt(m) == IF m = <<>> THEN 0 ELSE m[1] + Base * LimbsToInt(Tail(m))
NTrunc(a) == LET v == LimbsToInt(MDrop(Mag(a), FracL)) IN IF a[1] < 0 THEN -v ELSE v

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN One ELSE NMul(Two, Pow2(k - 1))

NExp(a) ==
    IF IsNaN(a) THEN NaN
    ELSE IF a = PosInf THEN PosInf
    ELSE IF a = NegInf THEN Zero
    ELSE IF NCmp(a, NInt(-60)) < 0 THEN Zero
    ELSE IF NCmp(a, NInt(700)) > 0 THEN PosInf
    ELSE LET k == NTrunc(NDiv(a, Ln2))
             y == NSub(a, NMul(NInt(k), Ln2))
             e == ExpSer(y, 1, One, One)
         IN IF k >= 0 THEN NMul(e, Pow2(k)) ELSE NDiv(e, Pow2(-k))

\* bring a into [1,2) by powers of two: returns <<mantissa, k>>
RECURSIVE Reduce(_, _)
Reduce(a, k) == IF NCmp(a, Two) >= 0 THEN Reduce(NDiv(a, Two), k + 1)
                ELSE IF NCmp(a, One) < 0 THEN Reduce(NMul(a, Two), k - 1)
                ELSE <<a, k>>
\* 2 * atanh(z) = ln((1+z)/(1-z))
RECURSIVE AtanhSer(_, _, _, _)
AtanhSer(z2, k, pw, acc) ==
    IF pw[1] = 0 THEN acc
    ELSE AtanhSer(z2, k + 2, NMul(pw, z2), NAdd(acc, NDiv(pw, NInt(k))))

NLn(a) ==
    IF IsNaN(a) \/ a[1] < 0 THEN NaN
    ELSE IF a[1] = 0 THEN NegInf
    ELSE IF IsInf(a) THEN PosInf
    ELSE LET rk == Reduce(a, 0)
             z  == NDiv(NSub(rk[1], One), NAdd(rk[1], One))
         IN NAdd(NMul(NInt(rk[2]), Ln2),
                 NMul(Two, AtanhSer(NMul(z, z), 1, z, Zero)))

\* closeness: |a - b| <= tol * (1 + max(|a|,|b|))
NClose(a, b, tol) ==
    IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(a) /\ IsNaN(b)
    ELSE IF IsInf(a) \/ IsInf(b) THEN a = b
    ELSE LET m == IF NCmp(NAbs(a), NAbs(b)) > 0 THEN NAbs(a) ELSE NAbs(b)
         IN NCmp(NAbs(NSub(a, b)), NMul(tol, NAdd(One, m))) <= 0

----------------------------------------------------------------------------
RECURSIVE NSumR(_, _, _)
NSumR(s, i, acc) == IF i > Len(s) THEN acc ELSE NSumR(s, i + 1, NAdd(acc, s[i]))
NSum(s) == NSumR(s, 1, Zero)          \* NaN-propagating sum of a sequence

\* numeric sequence without its NaN entries
RECURSIVE DropNaNR(_, _, _)
DropNaNR(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE DropNaNR(s, i + 1, IF IsNaN(s[i]) THEN acc ELSE Append(acc, s[i]))
DropNaN(s) == DropNaNR(s, 1, <<>>)
============================================================================
