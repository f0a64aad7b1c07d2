------------------------------ MODULE SurealAP ------------------------------
(***************************************************************************)
(* ITU-T P.910 Annex E / alternating projection: the transition system     *)
(*   s, b  --Sweep-->  s', b'                                              *)
(* started at MOS, and the relation between its limit and the report.      *)
(***************************************************************************)
EXTENDS SurealModels

\* present votes only: xx[e][s] = the votes of observer s on video e
Present(x) == TLCEval([e \in 1..Len(x) |-> [s \in 1..Len(x[e]) |-> DropNaN(x[e][s])]])
ColResid(xx, s, q, b) == Cat([e \in 1..Len(xx) |-> [i \in 1..Len(xx[e][s]) |-> NSub(NSub(xx[e][s][i], q[e]), b[s])]])
RowResid(xx, e, q, b) == Cat([s \in 1..Len(xx[e]) |-> [i \in 1..Len(xx[e][s]) |-> NSub(NSub(xx[e][s][i], q[e]), b[s])]])

Incons(xx, q, b) == TLCEval([s \in 1..Len(xx[1]) |-> StdP(ColResid(xx, s, q, b))])
WQual(xx, b, v) ==
    LET w == TLCEval([s \in 1..Len(v) |-> NDiv(One, NAdd(Sq(v[s]), E8))])
    IN TLCEval([e \in 1..Len(xx) |->
          NDiv(NSum([s \in 1..Len(v) |-> NMul(w[s], NSub(NSum(xx[e][s]), NMul(NInt(Len(xx[e][s])), b[s])))]),
               NSum([s \in 1..Len(v) |-> NMul(w[s], NInt(Len(xx[e][s])))]))])
MeanDev(xx, q) ==
    TLCEval([s \in 1..Len(xx[1]) |->
        NDiv(NSum([e \in 1..Len(xx) |-> NSub(NSum(xx[e][s]), NMul(NInt(Len(xx[e][s])), q[e]))]),
             NInt(SumI([e \in 1..Len(xx) |-> Len(xx[e][s])])))])
Norm(u, v) == NSqrt(NSum([i \in 1..Len(u) |-> Sq(NSub(u[i], v[i]))]))

ApInit(xx) == LET q == TLCEval([e \in 1..Len(xx) |-> Mean(Cat(xx[e]))])
              IN [q |-> q, b |-> MeanDev(xx, q), v |-> <<>>, pq |-> q, pb |-> <<>>, n |-> 0, done |-> FALSE]
ApSweep(xx, st) ==
    LET v  == Incons(xx, st.q, st.b)
        q2 == WQual(xx, st.b, v)
        b2 == MeanDev(xx, q2)
    IN [q |-> q2, b |-> b2, v |-> v, pq |-> st.q, pb |-> st.b, n |-> st.n + 1,
        done |-> TLCEval(Lt(Norm(q2, st.q), E8) \/ st.n + 1 >= 1000)]
RECURSIVE ApRun(_, _)
ApRun(xx, st) == IF st.done THEN st ELSE ApRun(xx, TLCEval(ApSweep(xx, st)))
ApLimit(xx) == TLCEval(ApRun(xx, TLCEval(ApInit(xx))))

\* chi-square interval of a standard deviation estimated from n samples:
\* the half-widths are right iff the quantiles they imply have the right probability
ChiOk(v, n, lo, hi) ==
    LET chi == NDiv(NInt(n), Sq(NSub(One, NDiv(lo, v))))
        clo == NDiv(NInt(n), Sq(NAdd(One, NDiv(hi, v))))
    IN /\ Close(ChiCdf(chi, n), Ratio(975, 1000), E6)
       /\ Close(ChiCdf(clo, n), Ratio(25, 1000), E6)

Recon(q, b, r) == [e \in 1..Len(q) |-> [s \in 1..Len(b) |-> [i \in 1..r |-> NAdd(q[e], b[s])]]]

ApBad(alt, kw, res, p) ==
    LET x   == p.x
        xx  == Present(x)
        E   == Len(x)
        S   == NS(x)
        st  == ApLimit(xx)
        mb  == IF kw.zm THEN Mean(st.b) ELSE Zero
        q   == TLCEval([e \in 1..E |-> NAdd(st.q[e], mb)])
        b   == TLCEval([s \in 1..S |-> NSub(st.b[s], mb)])
        v   == st.v
        cs  == TLCEval([s \in 1..S |-> SumI([e \in 1..E |-> Len(xx[e][s])])])
        ce  == TLCEval([e \in 1..E |-> SumI([s \in 1..S |-> Len(xx[e][s])])])
        iv2 == TLCEval([s \in 1..S |-> NDiv(One, Sq(v[s]))])
        vj  == TLCEval([e \in 1..E |-> StdP(RowResid(xx, e, st.pq, st.pb))])
        regular == \A s \in 1..S : Lt(Eps(3), v[s])
        jreg == \A e \in 1..E : Lt(Eps(3), vj[e])
        qstd == TLCEval(IF alt THEN [e \in 1..E |-> NDiv(vj[e], NSqrt(NInt(ce[e])))]
                ELSE [e \in 1..E |-> NDiv(One, NSqrt(NSum([s \in 1..S |-> NMul(iv2[s], NInt(Len(xx[e][s])))])))])
        bstd == TLCEval([s \in 1..S |-> NDiv(v[s], NSqrt(NInt(cs[s])))])
        curv == TLCEval([s \in 1..S |-> LET rs == ColResid(xx, s, st.q, st.b) IN
                    NSub(NMul(NInt(3), NMul(NMul(iv2[s], iv2[s]), NSum([i \in 1..Len(rs) |-> Sq(rs[i])]))),
                         NMul(NInt(cs[s]), iv2[s]))])
        vstd == TLCEval([s \in 1..S |-> NDiv(One, NSqrt(NMax(Zero, curv[s])))])
        n   == SumI(cs)
        ll  == NDiv(NSum(Cat([s \in 1..S |-> LET rs == ColResid(xx, s, st.q, st.b) IN
                        [i \in 1..Len(rs) |-> LogGauss(rs[i], Zero, v[s])]])), NInt(n))
        dof == Ratio(p.e0 + 2 * p.s0 * p.r0, p.norig)
    IN (IF PostDegenerate(q, kw) THEN {} ELSE Chk("quality_scores", EqVec(res, "quality_scores", Post(q, kw), E6)))
       \cup Chk("observer_bias", EqVec(res, "observer_bias", b, E6))
       \cup Chk("observer_inconsistency", EqVec(res, "observer_inconsistency", v, E6))
       \cup Chk("raw_scores", EqTen(res, "raw_scores", x, E7))
       \cup Chk("reconstructions", EqTen(res, "reconstructions", Recon(q, b, NR(x)), E6))
       \cup Chk("observer_scores_mean", EqVec(res, "observer_scores_mean", [s \in 1..S |-> Mean(Col(x, s))], E7))
       \cup Chk("observer_scores_std", EqVec(res, "observer_scores_std", [s \in 1..S |-> StdP(Col(x, s))], E7))
       \cup Chk("dof", EqNum(res, "dof", dof, E7))
       \cup Chk("num_iter", IsKind(res, "num_iter", "num") /\ Le(One, res.num_iter.v) /\ Le(res.num_iter.v, NInt(1000)))
       \cup (IF ~regular THEN {} ELSE
             Chk("observer_bias_std", EqVec(res, "observer_bias_std", bstd, E5))
             \cup Chk("observer_bias_ci95", EqCi(res, "observer_bias_ci95", bstd, E5))
             \cup Chk("observer_inconsistency_std", EqVec(res, "observer_inconsistency_std", vstd, E5))
             \cup Chk("observer_inconsistency_ci95", IsKind(res, "observer_inconsistency_ci95", "mat")
                      /\ Len(res.observer_inconsistency_ci95.v) = 2
                      /\ \A k \in {1, 2} : Len(res.observer_inconsistency_ci95.v[k]) = S
                      /\ \A s \in 1..S : ChiOk(v[s], cs[s], res.observer_inconsistency_ci95.v[1][s],
                                               res.observer_inconsistency_ci95.v[2][s]))
             \cup AicBic(res, dof, ll, p.norig, E5))
       \cup (IF ~(IF alt THEN jreg ELSE regular) THEN {} ELSE
             Chk("quality_scores_std", EqVec(res, "quality_scores_std", qstd, E5))
             \cup Chk("quality_scores_ci95", EqCi(res, "quality_scores_ci95", qstd, E5)))
=============================================================================
