----------------------------- MODULE SurealPrep -----------------------------
(***************************************************************************)
(* The preprocessing pipeline every subjective model starts with:          *)
(*   differential scoring -> z-scoring -> bias removal -> subject rejection*)
(* on a tensor x[e][s][r] (video, observer, repetition; NaN = no vote).    *)
(***************************************************************************)
EXTENDS SurealData

NE(x) == Len(x)
NS(x) == IF Len(x) = 0 THEN 0 ELSE Len(x[1])
NR(x) == IF NS(x) = 0 THEN 0 ELSE Len(x[1][1])

\* all votes of a video / of an observer (missing ones included as NaN)
Row(x, e) == Cat(x[e])
Col(x, s) == Cat([e \in 1..Len(x) |-> x[e][s]])
MapT(x, F(_, _, _)) == TLCEval([e \in 1..Len(x) |-> [s \in 1..Len(x[e]) |-> [r \in 1..Len(x[e][s]) |-> F(e, s, r)]]])
Mos(x) == TLCEval([e \in 1..Len(x) |-> Mean(Row(x, e))])
PickObs(x, keep) == TLCEval([e \in 1..Len(x) |-> [i \in 1..Len(keep) |-> x[e][keep[i]]]])

----------------------------------------------------------------------------
(* differential scoring *)
RefOf(ds, isref, e) == { f \in 1..NumDis(ds) : isref[f] /\ ds.dis[f].cid = ds.dis[e].cid }
DscoreOk(ds) == ds.hasref /\ LET ir == TLCEval(IsRef(ds)) IN \A e \in 1..NumDis(ds) : Cardinality(RefOf(ds, ir, e)) = 1
Dscore(ds, x) ==
    LET m   == Mos(x)
        ir  == TLCEval(IsRef(ds))
        off == TLCEval([e \in 1..Len(x) |-> NSub(ds.ref, m[CHOOSE f \in RefOf(ds, ir, e) : TRUE])])
    IN MapT(x, LAMBDA e, s, r : NAdd(x[e][s][r], off[e]))

(* z-scoring *)
Zscore(x) ==
    LET mu == TLCEval([s \in 1..NS(x) |-> Mean(Col(x, s))])
        sd == TLCEval([s \in 1..NS(x) |-> StdS(Col(x, s))])
    IN MapT(x, LAMBDA e, s, r : NDiv(NSub(x[e][s][r], mu[s]), sd[s]))
\* z-scores are not comparable when an observer's votes are (nearly) constant
ZscoreDegenerate(x) == \E s \in 1..NS(x) : LET d == StdS(Col(x, s)) IN IsNaN(d) \/ Lt(d, E6)

(* bias removal *)
BiasOf(x) == LET m == Mos(x) IN
    TLCEval([s \in 1..NS(x) |-> Mean(Cat([e \in 1..Len(x) |-> [r \in 1..NR(x) |-> NSub(x[e][s][r], m[e])]]))])
SubBias(x, b) == MapT(x, LAMBDA e, s, r : NSub(x[e][s][r], b[s]))

----------------------------------------------------------------------------
(* BT.500 screening.  Decisions are three-valued: "y", "n", or "?" when the   *)
(* quantity lies so close to its threshold that floating point may decide     *)
(* either way and the arithmetic is not exact in binary.                      *)
Dyadic(a) == IsFin(a) /\ NCmp(NAbs(a), NInt(1000000)) < 0 /\
             LET b == NMul(a, NInt(256)) IN NMul(NInt(1), b) = NInt(NTrunc(b))
\* is a >= b ?
GeQ(a, b, exact) == IF exact THEN IF NCmp(a, b) >= 0 THEN "y" ELSE "n"
                    ELSE IF Close(a, b, E9) THEN "?"
                    ELSE IF NCmp(a, b) > 0 THEN "y" ELSE "n"
NotQ(q) == IF q = "y" THEN "n" ELSE IF q = "n" THEN "y" ELSE "?"
AndQ(p, q) == IF p = "n" \/ q = "n" THEN "n" ELSE IF p = "y" /\ q = "y" THEN "y" ELSE "?"

Sqrt20 == NSqrt(NInt(20))
\* per video: centre, deviation and its exactness, regime of the kurtosis
RowInfo(x, e) ==
    LET row == TLCEval(Row(x, e))
        d   == TLCEval(DropNaN(row))
        mu  == TLCEval(Mean(d))
        v   == TLCEval(VarP(d))
        sd  == TLCEval(NSqrt(v))
        m4  == TLCEval(Mom4(d))
        rowx == \A i \in 1..Len(d) : Dyadic(d[i])
        varx == rowx /\ Dyadic(mu) /\ Dyadic(v) /\ NMul(mu, NInt(Len(d))) = NSum(d)
                     /\ NMul(v, NInt(Len(d))) = SumSqDev(d, mu)
        sdx == varx /\ Sq(sd) = v /\ Dyadic(sd)
        kx  == varx /\ Dyadic(m4) /\ Dyadic(Sq(v))
        kurt == NDiv(m4, Sq(v))
        reg == IF Len(d) = 0 THEN "n"
               ELSE IF varx /\ v = Zero THEN "n"
               ELSE IF ~varx /\ Lt(v, Eps(12)) THEN "?"
               ELSE AndQ(GeQ(kurt, NInt(2), kx), GeQ(NInt(4), kurt, kx))
    IN [n |-> Len(d), mu |-> mu, sd |-> sd, regime |-> reg, sdx |-> sdx]
\* is vote v at or beyond centre + k*sigma (up = TRUE) / centre - k*sigma ?
Beyond(info, v, up) ==
    LET c == NSub(v, info.mu)
        w == IF up THEN c ELSE NNeg(c)
        two == GeQ(w, NMul(NInt(2), info.sd), info.sdx)
        wide == IF info.sd = Zero /\ info.sdx THEN GeQ(w, Zero, TRUE)
                ELSE GeQ(w, NMul(Sqrt20, info.sd), FALSE)
    IN IF info.regime = "y" THEN two
       ELSE IF info.regime = "n" THEN wide
       ELSE IF two = wide THEN two ELSE "?"
CountQ(x, infos, s, up, what) ==
    SumI([e \in 1..Len(x) |-> Cardinality({ r \in 1..Len(x[e][s]) :
              ~IsNaN(x[e][s][r]) /\ Beyond(infos[e], x[e][s][r], up) = what })])
(* result: [amb, p, q, first, second, rej] per observer *)
Kurtosis(x) ==
    LET infos == TLCEval([e \in 1..Len(x) |-> RowInfo(x, e)])
        S  == NS(x)
        p  == TLCEval([s \in 1..S |-> CountQ(x, infos, s, TRUE, "y")])
        q  == TLCEval([s \in 1..S |-> CountQ(x, infos, s, FALSE, "y")])
        amb == \E s \in 1..S : CountQ(x, infos, s, TRUE, "?") + CountQ(x, infos, s, FALSE, "?") > 0
        cells == Len(x) * NR(x)
        want == TLCEval([s \in 1..S |-> /\ (p[s] + q[s]) * 20 > cells
                                         /\ AbsI(p[s] - q[s]) * 10 < 3 * (p[s] + q[s])])
        all == \A s \in 1..S : want[s]
    IN [amb |-> TLCEval(amb), p |-> p, q |-> q,
        first  |-> TLCEval([s \in 1..S |-> Ratio(p[s] + q[s], cells)]),
        second |-> TLCEval([s \in 1..S |-> IF p[s] + q[s] = 0 THEN NaN ELSE Ratio(AbsI(p[s] - q[s]), p[s] + q[s])]),
        rej |-> TLCEval([s \in 1..S |-> want[s] /\ ~all])]

(* correlation screening *)
RepMean(x) == TLCEval([e \in 1..Len(x) |-> [s \in 1..Len(x[e]) |-> Mean(x[e][s])]])
CorrStat(kind, xs, ys) ==
    IF Lt(VarP(xs), Eps(12)) \/ Lt(VarP(ys), Eps(12)) THEN NaN
    ELSE IF kind = "pearson" THEN Pearson(xs, ys) ELSE Spearman(xs, ys)
Corr(x, kind) ==
    LET m2  == RepMean(x)
        S   == NS(x)
        mos == TLCEval([e \in 1..Len(x) |-> Mean(m2[e])])
        on  == TLCEval([s \in 1..S |-> Positions(Len(x), LAMBDA e : ~IsNaN(m2[e][s]))])
        xs  == TLCEval([s \in 1..S |-> [i \in 1..Len(on[s]) |-> m2[on[s][i]][s]]])
        ys  == TLCEval([s \in 1..S |-> [i \in 1..Len(on[s]) |-> mos[on[s][i]]]])
        r   == TLCEval([s \in 1..S |-> CorrStat(kind, xs[s], ys[s])])
        binary == \A e \in 1..Len(x), s \in 1..S : IsNaN(m2[e][s]) \/ Dyadic(m2[e][s])
        \* a (nearly) constant voter has no correlation; rank statistics need untied-or-equal values
        degen == \E s \in 1..S : \/ Len(xs[s]) < 2
                                 \/ Lt(VarP(xs[s]), E9) /\ ~(\A i \in 1..Len(xs[s]) : xs[s][i] = xs[s][1] /\ Dyadic(xs[s][i]))
                                 \/ Lt(VarP(ys[s]), E9)
                                 \/ kind = "spearman" /\ (NearTie(xs[s], E9, binary) \/ NearTie(ys[s], E9, binary))
        d   == TLCEval(DropNaN(r))
        thr == TLCEval(NMin(Ratio(7, 10), NSub(Mean(d), StdP(d))))
        amb == degen \/ Len(d) = 0 \/ \E s \in 1..S : ~IsNaN(r[s]) /\ Close(r[s], thr, E9)
    IN [amb |-> TLCEval(amb), undef |-> TLCEval(degen), first |-> r, second |-> [s \in 1..S |-> Zero],
        \* the cap decides: the threshold is 0.7 itself
        capped |-> TLCEval(~degen /\ Len(d) > 0 /\ Lt(NAdd(Ratio(7, 10), E9), NSub(Mean(d), StdP(d)))),
        rej |-> TLCEval([s \in 1..S |-> IsNaN(r[s]) \/ NCmp(r[s], thr) <= 0])]

----------------------------------------------------------------------------
(* The whole pipeline.  o = [d, z, b : BOOLEAN, rej : "" | "kurtosis" |       *)
(* "pearson" | "spearman"].  flags: the rejection flags to assume when the    *)
(* screening is ambiguous (those the implementation reported), <<>> if none.  *)
Prep(ds, o, flags) ==
    LET x0 == TLCEval(Tensor(ds))
        x1 == TLCEval(IF o.d THEN Dscore(ds, x0) ELSE x0)
        zdeg == o.z /\ ZscoreDegenerate(x1)
        x2 == TLCEval(IF o.z THEN Zscore(x1) ELSE x1)
        b  == TLCEval(IF o.b THEN BiasOf(x2) ELSE <<>>)
        x3 == TLCEval(IF o.b THEN SubBias(x2, b) ELSE x2)
        sc == TLCEval(IF o.rej = "kurtosis" THEN Kurtosis(x3)
              ELSE IF o.rej = "" THEN [amb |-> FALSE, first |-> <<>>, second |-> <<>>, rej |-> [s \in 1..NS(x3) |-> FALSE]]
              ELSE Corr(x3, o.rej))
        use == IF sc.amb /\ Len(flags) = NS(x3) THEN flags ELSE sc.rej
        keep == TLCEval(Positions(NS(x3), LAMBDA s : ~use[s]))
    IN [x0 |-> x0, x |-> IF o.rej = "" THEN x3 ELSE PickObs(x3, keep), bias |-> b, screen |-> sc,
        rej |-> use, keep |-> keep, zdeg |-> zdeg, norig |-> TLCEval(NumVotes(x0)),
        e0 |-> NE(x0), s0 |-> NS(x0), r0 |-> NR(x0)]
=============================================================================
