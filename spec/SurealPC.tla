------------------------------ MODULE SurealPC ------------------------------
(***************************************************************************)
(* Paired comparisons: conversion of raw votes (C14), the comparison       *)
(* tensor (C15) and the scale models (C16).                                *)
(*                                                                         *)
(* A paired-comparison dataset is [dis : Seq([aid, cid, path,              *)
(*   votes : Seq([k, o, a, v])])]: the video was compared by observer k    *)
(* (rank o) with the video of asset id a, and was preferred with weight v. *)
(***************************************************************************)
EXTENDS SurealPrep

Half == Ratio(1, 2)

----------------------------------------------------------------------------
(* C14: conversion.  opt = [type, tie, rate, rates, coin, coins, noise,      *)
(*  noises, means] with "" / <<>> for what is not given; numbers are Nums.   *)
Opt(v)   == v # <<>>                       \* a scalar option is <<>> or <<number>>
Neg(v)   == Lt(v, Zero)
BadRates(v, n, hi) == Len(v) # n \/ \E i \in 1..Len(v) : Neg(v[i]) \/ (hi # <<>> /\ Lt(hi[1], v[i]))
PcOptionsBad(opt, n) ==
    \/ opt.type \notin {"", "within_subject_within_content", "within_subject"}
    \/ opt.tie \notin {"", "even_split", "coin_toss"}
    \/ Opt(opt.rate) /\ opt.hasrates
    \/ Opt(opt.rate) /\ Neg(opt.rate[1])
    \/ opt.hasrates /\ BadRates(opt.rates, n, <<>>)
    \/ Opt(opt.coin) /\ opt.hascoins
    \/ Opt(opt.coin) /\ (Neg(opt.coin[1]) \/ Lt(One, opt.coin[1]))
    \/ opt.hascoins /\ BadRates(opt.coins, n, <<One>>)
    \/ Opt(opt.noise) /\ opt.hasnoises
    \/ Opt(opt.noise) /\ Neg(opt.noise[1])
    \/ opt.hasnoises /\ BadRates(opt.noises, n, <<>>)
    \/ opt.hasmeans /\ Len(opt.means) # n

\* the subjects, as they are named in the converted dataset
VoteName(ds, vote) == IF ListStyle(ds) THEN ToString(vote.o - 1) ELSE vote.k
RECURSIVE FindNamed(_, _, _, _)
FindNamed(ds, e, s, i) == IF i > Len(ds.dis[e].votes) THEN NaN
                          ELSE IF VoteName(ds, ds.dis[e].votes[i]) = s THEN ds.dis[e].votes[i].v[1]
                          ELSE FindNamed(ds, e, s, i + 1)
Names(ds) == UNION { { VoteName(ds, ds.dis[e].votes[i]) : i \in 1..Len(ds.dis[e].votes) } : e \in 1..NumDis(ds) }
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

PairRate(opt, i, j) == IF Opt(opt.rate) THEN opt.rate[1]
                       ELSE IF opt.hasrates THEN NDiv(NAdd(opt.rates[i], opt.rates[j]), Two) ELSE One
PairCoin(opt, i, j) == IF Opt(opt.coin) THEN opt.coin[1]
                       ELSE IF opt.hascoins THEN NDiv(NAdd(opt.coins[i], opt.coins[j]), Two) ELSE Zero
PairNoise(opt, i, j) == IF Opt(opt.noise) THEN opt.noise[1]
                        ELSE IF opt.hasnoises THEN NMax(opt.noises[i], opt.noises[j]) ELSE Zero

\* what is recorded for subject s and the pair {i, j}: the value of i's entry and of j's entry, NaN if absent
RECURSIVE FindCmp(_, _, _, _)
FindCmp(votes, s, a, i) == IF i > Len(votes) THEN NaN
                           ELSE IF votes[i].k = s /\ votes[i].a = a THEN votes[i].v ELSE FindCmp(votes, s, a, i + 1)
Entry(out, s, i, j) == FindCmp(out.dis[i].votes, s, out.dis[j].aid, 1)
WinI == <<One, NaN>>
WinJ == <<NaN, One>>
Split == <<Half, Half>>
Nothing == <<NaN, NaN>>
Both == <<One, One>>
\* the outcomes one comparison may record
Outcomes(ds, opt, s, i, j) ==
    LET a == IF opt.hasmeans THEN opt.means[i] ELSE FindNamed(ds, i, s, 1)
        b == IF opt.hasmeans THEN opt.means[j] ELSE FindNamed(ds, j, s, 1)
        coin == PairCoin(opt, i, j)
        noise == PairNoise(opt, i, j)
        far  == Lt(NMul(NInt(30), noise), NAbs(NSub(a, b)))
        tie  == IF opt.tie = "coin_toss" THEN {WinI, WinJ} ELSE {Split}
        plain == IF noise # Zero /\ ~far THEN {WinI, WinJ}
                 ELSE IF NCmp(a, b) > 0 THEN {WinI} ELSE IF NCmp(a, b) < 0 THEN {WinJ} ELSE tie
    IN (IF coin # One THEN plain ELSE {}) \cup (IF coin # Zero THEN {WinI, WinJ} ELSE {})
\* several rounds leave the last entry of each side
Recorded == {NaN, Half, One} \X {NaN, Half, One}
Merge(S) == { u \in Recorded : \E o, p \in S : u = <<IF IsNaN(o[1]) THEN p[1] ELSE o[1], IF IsNaN(o[2]) THEN p[2] ELSE o[2]>> }
Allowed(ds, opt, s, i, j) ==
    LET r == PairRate(opt, i, j)
        one == Outcomes(ds, opt, s, i, j)
    IN IF r = Zero THEN {Nothing}
       ELSE IF Lt(r, One) THEN one \cup {Nothing}
       ELSE IF r = One THEN one
       ELSE Merge(Merge(one))
Compared(ds, opt, s, i, j) ==
    /\ ~IsNaN(FindNamed(ds, i, s, 1)) /\ ~IsNaN(FindNamed(ds, j, s, 1))
    /\ opt.type = "within_subject" \/ ds.dis[i].cid = ds.dis[j].cid

\* |k - n p| within six standard deviations of a binomial
Plausible(k, n, p) == Le(Sq(NSub(NInt(k), NMul(NInt(n), p))),
                         NMul(NInt(36), NAdd(One, NMul(NInt(n), NMul(p, NSub(One, p))))))
\* the same for trials of different probabilities
PlausibleSum(k, ps) == Le(Sq(NSub(NInt(k), NSum(ps))), NMul(NInt(36), NAdd(One, NSum([i \in 1..Len(ps) |-> NMul(ps[i], NSub(One, ps[i]))]))))
ToPcBad(ds, ev) ==
    LET opt == ev.opt
        n == NumDis(ds)
        out == ev.res
        names == TLCEval(SetSeq(Names(ds)))
        Pairs == { p \in (1..n) \X (1..n) : p[1] < p[2] }
        Cmp == TLCEval({ <<s, p[1], p[2]>> : s \in Range(names), p \in Pairs })
        Real == TLCEval({ c \in Cmp : Compared(ds, opt, c[1], c[2], c[3]) })
        Got(c) == <<Entry(out, c[1], c[2], c[3]), Entry(out, c[1], c[3], c[2])>>
        kept == Cardinality({ c \in Real : Got(c) # Nothing })
        nentries == SumI([i \in 1..n |-> Len(out.dis[i].votes)])
        nfound == SumI([k \in 1..1 |-> Cardinality({ c \in Cmp : ~IsNaN(Got(c)[1]) }) + Cardinality({ c \in Cmp : ~IsNaN(Got(c)[2]) })])
        ties == { c \in Real : Got(c) # Nothing /\ ~opt.hasmeans /\ FindNamed(ds, c[2], c[1], 1) = FindNamed(ds, c[3], c[1], 1) }
        clear == { c \in Real : Got(c) # Nothing /\ ~opt.hasmeans /\ FindNamed(ds, c[2], c[1], 1) # FindNamed(ds, c[3], c[1], 1) }
        upset == { c \in clear : Got(c) = (IF NCmp(FindNamed(ds, c[2], c[1], 1), FindNamed(ds, c[3], c[1], 1)) > 0 THEN WinJ ELSE WinI) }
        nonoise == ~Opt(opt.noise) /\ ~opt.hasnoises
    IN IF PcOptionsBad(opt, n) THEN Chk("bad_options_accepted", ev.err # "")
       ELSE IF ev.err # "" THEN {"raised"}
       ELSE IF ~(Len(out.dis) = n /\ \A i \in 1..n : out.dis[i].aid = ds.dis[i].aid /\ out.dis[i].cid = ds.dis[i].cid
                     /\ out.dis[i].path = ds.dis[i].path) THEN {"videos"}
       ELSE Chk("ref_videos", out.refs = ds.refs)
            \cup Chk("name", out.name = ds.name)
            \cup Chk("stray_entries", nentries = nfound)
            \cup Chk("not_comparable", \A c \in Cmp : c \in Real \/ Got(c) = Nothing)
            \cup Chk("outcome", \A c \in Real : Got(c) \in Allowed(ds, opt, c[1], c[2], c[3]))
            \cup (IF Opt(opt.rate) /\ Lt(opt.rate[1], One) THEN Chk("sampling_share", Plausible(kept, Cardinality(Real), opt.rate[1])) ELSE {})
            \cup (IF opt.hasrates
                  THEN LET part == { c \in Real : Lt(PairRate(opt, c[2], c[3]), One) }
                           q == SetSeq(part)
                       IN Chk("sampling_share", PlausibleSum(Cardinality({ c \in part : Got(c) # Nothing }), [i \in 1..Len(q) |-> PairRate(opt, q[i][2], q[i][3])]))
                  ELSE {})
            \cup (IF opt.hascoins /\ nonoise /\ (~Opt(opt.rate) \/ Le(opt.rate[1], One)) /\ ~opt.hasrates
                  THEN LET q == SetSeq(clear)
                       IN Chk("cointoss_share", PlausibleSum(Cardinality(upset), [i \in 1..Len(q) |-> NDiv(PairCoin(opt, q[i][2], q[i][3]), Two)]))
                  ELSE {})
            \cup (IF Opt(opt.coin) /\ nonoise /\ (~Opt(opt.rate) \/ Le(opt.rate[1], One)) /\ ~opt.hasrates
                  THEN Chk("cointoss_share", Plausible(Cardinality(upset), Cardinality(clear), NDiv(opt.coin[1], Two))) ELSE {})
            \cup (IF opt.tie = "coin_toss" /\ nonoise /\ ~Opt(opt.coin) /\ ~opt.hascoins /\ (~Opt(opt.rate) \/ Le(opt.rate[1], One)) /\ ~opt.hasrates
                  THEN Chk("tie_share", Plausible(Cardinality({ c \in ties : Got(c) = WinI }), Cardinality(ties), Half)) ELSE {})

----------------------------------------------------------------------------
(* C15: the comparison tensor *)
PcRanks(pc) == SortSet(UNION { { pc.dis[e].votes[i].o : i \in 1..Len(pc.dis[e].votes) } : e \in 1..Len(pc.dis) })
RECURSIVE FindPref(_, _, _, _)
FindPref(votes, o, a, i) == IF i > Len(votes) THEN NaN
                            ELSE IF votes[i].o = o /\ votes[i].a = a THEN votes[i].v ELSE FindPref(votes, o, a, i + 1)
PcTensor(pc) ==
    LET ranks == TLCEval(PcRanks(pc))
        M == Len(pc.dis)
    IN TLCEval([i \in 1..M |-> [j \in 1..M |-> [s \in 1..Len(ranks) |->
          LET d == FindPref(pc.dis[i].votes, ranks[s], pc.dis[j].aid, 1)
              r == FindPref(pc.dis[j].votes, ranks[s], pc.dis[i].aid, 1)
          IN IF i = j THEN NaN ELSE IF ~IsNaN(d) THEN d ELSE IF ~IsNaN(r) THEN NSub(One, r) ELSE NaN]]])
PcReaderBad(pc, ev) ==
    IF ev.err # "" THEN {"raised"} ELSE
    LET x == TLCEval(PcTensor(pc)) res == ev.res IN
    Chk("tensor", IsKind(res, "tensor", "ten") /\ res.tensor.v = x)
    \cup Chk("tensor_again", IsKind(res, "tensor2", "ten") /\ res.tensor2.v = x)
    \cup Chk("num_observers", IsKind(res, "num_observers", "int") /\ res.num_observers.v = Len(PcRanks(pc)))
    \cup Chk("observers", IsKind(res, "observers", "ranks") /\ res.observers.v = PcRanks(pc))
    \cup Chk("antisymmetric", \A i, j \in 1..Len(x) : \A s \in 1..Len(PcRanks(pc)) :
               (IsNaN(x[i][j][s]) /\ IsNaN(x[j][i][s])) \/ NAdd(x[i][j][s], x[j][i][s]) = One)

----------------------------------------------------------------------------
(* linear algebra: Gauss-Jordan inverse of a matrix of numbers               *)
RECURSIVE BestRow(_, _, _, _)
BestRow(A, k, i, b) == IF i > Len(A) THEN b ELSE BestRow(A, k, i + 1, IF Lt(NAbs(A[b][k]), NAbs(A[i][k])) THEN i ELSE b)
RECURSIVE Jordan(_, _, _)
Jordan(A, k, n) ==
    IF k > n THEN A
    ELSE LET b == BestRow(A, k, k, k)
             S == TLCEval([i \in 1..n |-> IF i = k THEN A[b] ELSE IF i = b THEN A[k] ELSE A[i]])
             piv == S[k][k]
         IN IF Lt(NAbs(piv), E9) THEN <<>>          \* singular
            ELSE LET pr == TLCEval([c \in 1..Len(S[k]) |-> NDiv(S[k][c], piv)])
                 IN Jordan(TLCEval([i \in 1..n |-> IF i = k THEN pr
                                                   ELSE LET f == S[i][k] IN [c \in 1..Len(pr) |-> NSub(S[i][c], NMul(f, pr[c]))]]), k + 1, n)
Inverse(A) ==
    LET n == Len(A)
        J == Jordan([i \in 1..n |-> [c \in 1..2*n |-> IF c <= n THEN A[i][c] ELSE IF c - n = i THEN One ELSE Zero]], 1, n)
    IN IF J = <<>> THEN <<>> ELSE TLCEval([i \in 1..n |-> [c \in 1..n |-> J[i][n + c]]])
\* [[-H, 1], [1', 0]]
Border(H) == LET M == Len(H) IN
    [i \in 1..M+1 |-> [j \in 1..M+1 |-> IF i <= M /\ j <= M THEN NNeg(H[i][j]) ELSE IF i = M+1 /\ j = M+1 THEN Zero ELSE One]]
ConstrainedCov(H) == LET C == Inverse(Border(H)) IN
    IF C = <<>> THEN <<>> ELSE TLCEval([i \in 1..Len(H) |-> [j \in 1..Len(H) |-> C[i][j]]])
MaxAbs(C) == LET f == Cat(C) IN MaxN([i \in 1..Len(f) |-> NAbs(f[i])])
\* close relative to the largest entry
CovClose(a, b, tol) == LET m == NMax(MaxAbs(b), Eps(12)) IN
    Len(a) = Len(b) /\ \A i \in 1..Len(b) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(b) :
        ~IsNaN(a[i][j]) /\ Le(NAbs(NSub(a[i][j], b[i][j])), NMul(tol, m))

----------------------------------------------------------------------------
(* C16: scale models on a comparison matrix alpha[i][j] (wins of i over j)   *)
AlphaOf(pc) == LET x == PcTensor(pc) IN TLCEval([i \in 1..Len(x) |-> [j \in 1..Len(x) |-> NSum(DropNaN(x[i][j]))]])
RECURSIVE Warshall(_, _, _)
Warshall(R, k, M) == IF k > M THEN R
    ELSE Warshall(TLCEval([i \in 1..M |-> [j \in 1..M |-> R[i][j] \/ (R[i][k] /\ R[k][j])]]), k + 1, M)
Connected(al) == LET M == Len(al)
                     R == Warshall([i \in 1..M |-> [j \in 1..M |-> i = j \/ Lt(Zero, al[i][j])]], 1, M)
                 IN \A i, j \in 1..M : R[i][j]
Wins(al, i) == NSum(al[i])
NN(al, i, j) == NAdd(al[i][j], al[j][i])
Total(al) == NSum([i \in 1..Len(al) |-> NSum(al[i])])

\* one step of the Bradley-Terry fixed-point map, normalised
BtMap(al, p) ==
    LET M == Len(al)
        u == TLCEval([i \in 1..M |-> NDiv(Wins(al, i), NSum([j \in 1..M |-> NDiv(NN(al, i, j), NAdd(p[i], p[j]))]))])
        t == NSum(u)
    IN TLCEval([i \in 1..M |-> NDiv(u[i], t)])
\* sum of the off-diagonal rule F over j, for the diagonal and off-diagonal of H
BtHess(al, p, Off(_, _)) ==
    LET M == Len(al) IN
    TLCEval([i \in 1..M |-> [j \in 1..M |->
        NAdd(Off(NN(al, i, j), NAdd(p[i], p[j])),
             IF i # j THEN Zero ELSE
             NSum([k \in 1..M |-> NSub(NDiv(NN(al, i, k), Sq(NAdd(p[i], p[k]))), NDiv(al[i][k], Sq(p[i])))]))]])
OffDocumented(n, s) == NDiv(n, Sq(s))
OffKnown(n, s) == NMul(NDiv(n, s), Two)
SdOf(C) == [i \in 1..Len(C) |-> NSqrt(C[i][i])]

IsMat(res, k, n) == IsKind(res, k, "mat") /\ Len(res[k].v) = n /\ \A i \in 1..n : Len(res[k].v[i]) = n
NoNaN(v) == \A i \in 1..Len(v) : IsFin(v[i])

BtCovBad(al, p, res) ==
    LET M == Len(al)
        Match(C) == C # <<>> /\ IsMat(res, "quality_scores_p_cov", M) /\ CovClose(res.quality_scores_p_cov.v, C, E6)
        doc == ConstrainedCov(BtHess(al, p, OffDocumented))
        kno == ConstrainedCov(BtHess(al, p, OffKnown))
        C == IF Match(doc) THEN doc ELSE kno
        rc == res.quality_scores_p_cov.v
    IN IF doc = <<>> \/ kno = <<>> THEN {}
       ELSE IF ~Match(C) THEN {"p_covariance"}
       ELSE (IF Match(doc) THEN {} ELSE {"p_covariance_offdiagonal_2n_over_p"})
            \cup Chk("p_std", IsVec(res, "quality_scores_p_std", M) /\ \A i \in 1..M :
                     Close(res.quality_scores_p_std.v[i], NSqrt(rc[i][i]), E7))
            \cup Chk("v_covariance", IsMat(res, "quality_scores_v_cov", M) /\ \A i, j \in 1..M :
                     Close(NDiv(res.quality_scores_v_cov.v[i][j], NAdd(One, NAbs(NDiv(rc[i][j], NMul(p[i], p[j]))))),
                           NDiv(NDiv(rc[i][j], NMul(p[i], p[j])), NAdd(One, NAbs(NDiv(rc[i][j], NMul(p[i], p[j]))))), E6))
            \cup Chk("quality_scores_std", IsVec(res, "quality_scores_std", M) /\ \A i \in 1..M :
                     Close(res.quality_scores_std.v[i], NDiv(NSqrt(rc[i][i]), p[i]), E6))

BtMleBad(al, res) ==
    LET M == Len(al)
        shape == IsVec(res, "quality_scores_p", M) /\ IsVec(res, "quality_scores", M) /\ NoNaN(res.quality_scores_p.v)
        p == res.quality_scores_p.v
    IN IF ~shape THEN {"shape"} ELSE
       Chk("p_is_distribution", (\A i \in 1..M : Lt(Zero, p[i])) /\ Close(NSum(p), One, E9))
       \cup Chk("quality_is_log_p", \A i \in 1..M : Lt(Zero, p[i]) => Close(res.quality_scores.v[i], NLn(p[i]), E7))
       \cup Chk("p_stationary", CloseV(BtMap(al, p), p, E7))
       \cup Chk("ci95", IsKind(res, "quality_scores_std", "vec") /\ EqMat(res, "quality_scores_ci95",
                <<[i \in 1..M |-> NMul(NAdd(One, Ratio(95996, 100000)), res.quality_scores_std.v[i])],
                  [i \in 1..M |-> NMul(NAdd(One, Ratio(95996, 100000)), res.quality_scores_std.v[i])]>>, E7))
       \cup (IF \A i \in 1..M : Lt(Eps(4), p[i]) THEN BtCovBad(al, p, res) ELSE {})

BtGrad(al, g, i) == NSub(Wins(al, i), NSum([j \in 1..Len(al) |-> IF i = j THEN Zero ELSE
                          NDiv(NN(al, i, j), NAdd(One, NExp(NSub(g[j], g[i]))))]))
\* zs: the scale is reported standardised, so only equality with the standardised estimate of another call is decided
BtNrBad(al, zs, res) ==
    LET M == Len(al) IN
    IF ~(IsVec(res, "quality_scores", M) /\ NoNaN(res.quality_scores.v)) THEN {"shape"}
    ELSE LET g == res.quality_scores.v
         IN Chk("no_std", IsKind(res, "quality_scores_std", "none"))
            \cup (IF zs THEN Chk("standardised", Close(Mean(g), Zero, E7) /\ Close(StdP(g), One, E7))
                  ELSE Chk("last_is_zero", g[M] = Zero)
                       \cup Chk("g_stationary", \A i \in 1..M : Le(NAbs(BtGrad(al, g, i)), NMul(E6, NAdd(One, Total(al))))))

\* Thurstone: gradient and curvature of the log likelihood sum alpha_ij log Phi(v_i - v_j)
Ratio1(d) == NDiv(Phi0(d), PhiCdf(d))
ThGrad(al, v, i) == NSum([j \in 1..Len(al) |-> IF i = j THEN Zero ELSE
        NSub(NMul(al[i][j], Ratio1(NSub(v[i], v[j]))), NMul(al[j][i], Ratio1(NSub(v[j], v[i]))))])
\* second derivative of log Phi
D2(d) == NDiv(NSub(NNeg(NMul(d, NMul(PhiCdf(d), Phi0(d)))), Sq(Phi0(d))), Sq(PhiCdf(d)))
\* the "simplified" curvature matrix the reported deviations are based on
ThHess(al, v) ==
    LET M == Len(al)
        L == TLCEval([i \in 1..M |-> [j \in 1..M |-> NMul(NN(al, i, j), D2(NSub(v[i], v[j])))]])
    IN TLCEval([i \in 1..M |-> [j \in 1..M |-> NAdd(NNeg(L[i][j]), IF i = j THEN NSum(L[i]) ELSE Zero)]])
\* the full one
ThHessFull(al, v) ==
    LET M == Len(al)
        L == TLCEval([i \in 1..M |-> [j \in 1..M |-> NAdd(NMul(al[i][j], D2(NSub(v[i], v[j]))), NMul(al[j][i], D2(NSub(v[j], v[i]))))]])
    IN TLCEval([i \in 1..M |-> [j \in 1..M |-> NAdd(NNeg(L[i][j]), IF i = j THEN NSum(L[i]) ELSE Zero)]])
ThTol == Ratio(1, 1000)
ThBad(al, zs, simp, res) ==
    LET M == Len(al) IN
    IF ~(IsVec(res, "quality_scores", M) /\ NoNaN(res.quality_scores.v)) THEN {"shape"}
    ELSE LET v == res.quality_scores.v
             far == \E i, j \in 1..M : Lt(NInt(4), NAbs(NSub(v[i], v[j])))
         IN Chk("ci95", IsKind(res, "quality_scores_std", "vec") /\ EqMat(res, "quality_scores_ci95",
                <<[i \in 1..M |-> NMul(NAdd(One, Ratio(95996, 100000)), res.quality_scores_std.v[i])],
                  [i \in 1..M |-> NMul(NAdd(One, Ratio(95996, 100000)), res.quality_scores_std.v[i])]>>, E7))
            \cup (IF zs THEN Chk("standardised", Close(Mean(v), Zero, E7) /\ Close(StdP(v), One, E7))
                  ELSE IF far THEN {}
                  ELSE LET C == ConstrainedCov(ThHess(al, v))
                           F == ConstrainedCov(ThHessFull(al, v))
                           Std(D) == D # <<>> /\ IsVec(res, "quality_scores_std", M) /\ \A i \in 1..M :
                                        Close(res.quality_scores_std.v[i], NSqrt(D[i][i]), E5)
                       IN
                       Chk("v_stationary", \A i \in 1..M :
                           Le(NAbs(ThGrad(al, v, i)), NMul(ThTol, NAdd(One, NSum([j \in 1..M |-> NN(al, i, j)])))))
                       \cup (IF C = <<>> \/ F = <<>> THEN {}
                             ELSE IF simp THEN Chk("v_std", Std(C))
                             ELSE IF Std(F) THEN {} ELSE IF Std(C) THEN {"full_std_is_the_simplified_one"} ELSE {"v_std"}))
\* a standardised call agrees with the plain call recorded before it
ZsAgree(a, b) ==      \* a plain, b standardised
    LET M == Len(a.quality_scores.v)
        m == Mean(a.quality_scores.v)
        d == StdP(a.quality_scores.v)
    IN /\ \A i \in 1..M : Close(b.quality_scores.v[i], NDiv(NSub(a.quality_scores.v[i], m), d), E6)
       /\ IsKind(a, "quality_scores_std", "vec") =>
            (IsVec(b, "quality_scores_std", M) /\ \A i \in 1..M :
                 Close(b.quality_scores_std.v[i], NDiv(a.quality_scores_std.v[i], d), E6))

\* ev.must: the data are such that the estimate has to be found
PcModelBad(pc, ev, prev) ==
    LET al == TLCEval(IF ev.src = "alpha" THEN ev.alpha ELSE AlphaOf(pc))
    IN IF ~Connected(al) THEN {}
       ELSE IF ev.err # "" THEN Chk("raised", ~ev.must)
       \* a scale on which all videos are equal cannot be standardised
       ELSE IF ev.zs /\ prev # <<>> /\ IsVec(prev[1].res, "quality_scores", Len(al)) /\ ~Lt(E4, StdP(prev[1].res.quality_scores.v)) THEN {}
       ELSE (CASE ev.model = "BT_MLE" -> BtMleBad(al, ev.res)
               [] ev.model = "BT_NR" -> BtNrBad(al, ev.zs, ev.res)
               [] OTHER -> ThBad(al, ev.zs, ev.simp, ev.res))
            \cup (IF ev.zs /\ prev # <<>> /\ prev[1].err = "" /\ IsVec(ev.res, "quality_scores", Len(al)) /\ IsVec(prev[1].res, "quality_scores", Len(al))
                  THEN Chk("zscore_output", ZsAgree(prev[1].res, ev.res)) ELSE {})
=============================================================================
