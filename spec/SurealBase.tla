----------------------------- MODULE SurealBase -----------------------------
(* Sequences of numbers, sample statistics, closeness.                       *)
EXTENDS Integers, Sequences, FiniteSets, Num, TLC

Range(s)  == { s[i] : i \in DOMAIN s }
MaxI(a,b) == IF a > b THEN a ELSE b
AbsI(a)   == IF a < 0 THEN -a ELSE a

RECURSIVE CatR(_, _, _)
CatR(ss, i, acc) == IF i > Len(ss) THEN acc ELSE CatR(ss, i + 1, acc \o ss[i])
Cat(ss) == CatR(ss, 1, <<>>)                    \* concatenation

RECURSIVE FilterR(_, _, _, _)
FilterR(s, T(_), i, acc) == IF i > Len(s) THEN acc
                            ELSE FilterR(s, T, i + 1, IF T(s[i]) THEN Append(acc, s[i]) ELSE acc)
Filter(s, T(_)) == FilterR(s, T, 1, <<>>)

Idx(n) == [i \in 1..n |-> i]
Positions(n, T(_)) == Filter(Idx(n), T)         \* increasing indices satisfying T

RECURSIVE MaxOfR(_, _, _)
MaxOfR(s, i, m) == IF i > Len(s) THEN m ELSE MaxOfR(s, i + 1, MaxI(m, s[i]))
MaxOf(s, m) == MaxOfR(s, 1, m)                  \* integer maximum with floor m

RECURSIVE SumIR(_, _, _)
SumIR(s, i, acc) == IF i > Len(s) THEN acc ELSE SumIR(s, i + 1, acc + s[i])
SumI(s) == SumIR(s, 1, 0)

RECURSIVE IndexOfR(_, _, _)
IndexOfR(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE IndexOfR(s, x, i + 1)
IndexOf(s, x) == IndexOfR(s, x, 1)              \* 0 if absent

\* the elements of a finite set of integers in increasing order
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                   IN <<m>> \o SortSet(S \ {m})

----------------------------------------------------------------------------
(* numbers *)
Lt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ NCmp(a, b) < 0
Le(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ NCmp(a, b) <= 0
Sq(a)    == NMul(a, a)
Ratio(p, q) == NDiv(NInt(p), NInt(q))
NMax(a, b) == IF Lt(a, b) THEN b ELSE a
NMin(a, b) == IF Lt(b, a) THEN b ELSE a

Eps(k) == CASE k = 4  -> Ratio(1, 10000)
            [] k = 5  -> Ratio(1, 100000)
            [] k = 6  -> Ratio(1, 1000000)
            [] k = 7  -> Ratio(1, 10000000)
            [] k = 8  -> Ratio(1, 100000000)
            [] k = 9  -> Ratio(1, 1000000000)
            [] k = 3  -> Ratio(1, 1000)
            [] k = 12 -> NMul(Ratio(1, 1000000), Ratio(1, 1000000))
            [] k = 2  -> Ratio(1, 100)
            [] OTHER  -> Ratio(1, 10)
E4 == Eps(4)
E5 == Eps(5)
E6 == Eps(6)
E7 == Eps(7)
E8 == Eps(8)
E9 == Eps(9)

\* |a - b| <= tol * (1 + max(|a|,|b|)); NaN close only to NaN, Inf only to itself
Close(a, b, tol) == NClose(a, b, tol)
Exact(a, b) == a = b
CloseV(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Close(u[i], v[i], tol)
CloseM(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : CloseV(u[i], v[i], tol)
CloseT(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : CloseM(u[i], v[i], tol)

----------------------------------------------------------------------------
(* sample statistics over the present (non-NaN) entries of a sequence        *)
Cnt(s)  == Len(DropNaN(s))
Mean(s) == LET d == DropNaN(s) IN NDiv(NSum(d), NInt(Len(d)))
SumSqDev(d, m) == NSum([i \in 1..Len(d) |-> Sq(NSub(d[i], m))])
VarP(s) == LET d == DropNaN(s) IN IF Len(d) = 0 THEN NaN
                                  ELSE NDiv(SumSqDev(d, Mean(d)), NInt(Len(d)))
StdP(s) == NSqrt(VarP(s))                                    \* population
StdS(s) == LET d == DropNaN(s) IN IF Len(d) <= 1 THEN NaN    \* sample (ddof 1)
                                  ELSE NSqrt(NDiv(SumSqDev(d, Mean(d)), NInt(Len(d) - 1)))
Mom4(s) == LET d == DropNaN(s)
               m == Mean(d)
           IN NDiv(NSum([i \in 1..Len(d) |-> Sq(Sq(NSub(d[i], m)))]), NInt(Len(d)))
Kurt(s) == LET v == VarP(s) IN NDiv(Mom4(s), Sq(v))          \* m4 / m2^2, NaN if m2 = 0

MinN(s) == LET d == DropNaN(s) IN CHOOSE x \in Range(d) : \A y \in Range(d) : NCmp(x, y) <= 0
MaxN(s) == LET d == DropNaN(s) IN CHOOSE x \in Range(d) : \A y \in Range(d) : NCmp(x, y) >= 0

(* correlation of two sequences without NaN *)
Pearson(xs, ys) ==
    LET n  == Len(xs)
        mx == Mean(xs)
        my == Mean(ys)
        sxy == NSum([i \in 1..n |-> NMul(NSub(xs[i], mx), NSub(ys[i], my))])
    IN NDiv(sxy, NMul(NSqrt(SumSqDev(xs, mx)), NSqrt(SumSqDev(ys, my))))
\* average ranks
RankOf(xs, i) == LET lt == Cardinality({ j \in 1..Len(xs) : NCmp(xs[j], xs[i]) < 0 })
                     eq == Cardinality({ j \in 1..Len(xs) : xs[j] = xs[i] })
                 IN NAdd(NInt(lt), Ratio(eq + 1, 2))
Ranks(xs) == [i \in 1..Len(xs) |-> RankOf(xs, i)]
Spearman(xs, ys) == Pearson(Ranks(xs), Ranks(ys))
\* entries so close that floating point may order them either way: rank statistics are then
\* not decided (equal entries are only tied for sure if the arithmetic was exact in binary)
NearTie(xs, tol, exact) == \E i, j \in 1..Len(xs) : i # j /\ (exact => xs[i] # xs[j]) /\ Close(xs[i], xs[j], tol)

Pi2 == <<1, 7692, 5864, 7179, 8530, 2831, 6>>     \* 2*pi = 6.2831 8530 7179 5864 7692
SqrtPi == NSqrt(NDiv(Pi2, NInt(2)))
\* log density of N(mu, sd^2) at x
LogGauss(x, mu, sd) ==
    NSub(NNeg(NAdd(NDiv(NLn(Pi2), NInt(2)), NLn(sd))),
         NDiv(Sq(NSub(x, mu)), NMul(NInt(2), Sq(sd))))
Gauss(x, mu, sd) == NExp(LogGauss(x, mu, sd))

\* standard normal density and distribution function (series, |x| < 8)
Phi0(x) == NDiv(NExp(NNeg(NDiv(Sq(x), NInt(2)))), NSqrt(Pi2))
RECURSIVE PhiSer(_, _, _, _)
PhiSer(x2, k, term, acc) ==
    IF term = Zero THEN acc
    ELSE LET t == NDiv(NMul(term, x2), NInt(2 * k + 1)) IN PhiSer(x2, k + 1, t, NAdd(acc, t))
PhiCdf(x) == NAdd(Ratio(1, 2), NMul(Phi0(x), PhiSer(Sq(x), 1, x, x)))

\* chi-square distribution function, df a positive integer, x > 0
RECURSIVE ProdHalf(_, _)
ProdHalf(k, acc) == IF k <= 0 THEN acc ELSE ProdHalf(k - 2, NMul(acc, Ratio(k, 2)))
\* Gamma(df/2 + 1) = prod (df/2)(df/2-1)... [ * sqrt(pi) for odd df ]
GammaHalf(df) == IF df % 2 = 0 THEN ProdHalf(df, One) ELSE NMul(ProdHalf(df, One), SqrtPi)
RECURSIVE GamSer(_, _, _, _)
GamSer(z, a, term, acc) ==                 \* a runs a+1, a+2, ...
    IF NCmp(term, <<1, 1, 0>>) <= 0 \/ IsInf(acc) THEN acc
    ELSE LET t == NDiv(NMul(term, z), a) IN GamSer(z, NAdd(a, One), t, NAdd(acc, t))
ChiCdf(x, df) ==
    IF IsNaN(x) \/ IsInf(x) \/ NCmp(x, Zero) <= 0 \/ NCmp(x, NInt(2000)) > 0 THEN NaN ELSE
    LET z == NDiv(x, NInt(2))
        a == Ratio(df, 2)
        s == GamSer(z, NAdd(a, One), One, One)
    IN NExp(NAdd(NSub(NSub(NMul(a, NLn(z)), z), NLn(GammaHalf(df))), NLn(s)))

----------------------------------------------------------------------------
(* clauses: a verdict is the set of the names of the clauses that fail       *)
Chk(name, b) == IF b THEN {} ELSE { name }

(* recorded values are tagged: [t |-> kind, v |-> value]                     *)
Has(res, k)     == k \in DOMAIN res
IsKind(res, k, kind) == Has(res, k) /\ res[k].t = kind
\* a recorded vector/matrix/tensor/number close to the expected one
EqNum(res, k, x, tol) == IsKind(res, k, "num") /\ Close(res[k].v, x, tol)
IsVec(res, k, n) == IsKind(res, k, "vec") /\ Len(res[k].v) = n
EqVec(res, k, x, tol) == IsKind(res, k, "vec") /\ CloseV(res[k].v, x, tol)
EqMat(res, k, x, tol) == IsKind(res, k, "mat") /\ CloseM(res[k].v, x, tol)
EqTen(res, k, x, tol) == IsKind(res, k, "ten") /\ CloseT(res[k].v, x, tol)
=============================================================================
