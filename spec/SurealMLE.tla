------------------------------ MODULE SurealMLE ------------------------------
(***************************************************************************)
(* The belief-propagation maximum-likelihood models: votes of observer s   *)
(* on video e are N(q_e + b_s, v_s^2 + a_c(e)^2).  A report is right when  *)
(* it is a stationary point of the likelihood of the present votes and     *)
(* everything else in it follows from the estimate.                        *)
(***************************************************************************)
EXTENDS SurealAP

MLETol == Eps(4)
VecOf(res, k, n) == IsKind(res, k, "vec") /\ Len(res[k].v) = n

(* converged: below the iteration limit, finite, no variance run away          *)
Bounded(res, k) == ~Has(res, k) \/ (res[k].t = "vec" /\ \A i \in 1..Len(res[k].v) : IsNaN(res[k].v[i]) \/ Lt(res[k].v[i], NInt(200)))
NoNaN(res, k) == ~Has(res, k) \/ (res[k].t = "vec" /\ \A i \in 1..Len(res[k].v) : ~IsNaN(res[k].v[i]))
MleConverged(res) == /\ IsKind(res, "num_iter", "num") /\ Lt(res.num_iter.v, NInt(10000))
                     /\ NoNaN(res, "quality_scores") /\ NoNaN(res, "observer_bias") /\ NoNaN(res, "observer_inconsistency")
                     /\ Bounded(res, "observer_inconsistency") /\ Bounded(res, "content_ambiguity")
\* on well-posed data the estimates must exist
MleExists(res) == /\ IsKind(res, "num_iter", "num") /\ Lt(res.num_iter.v, NInt(10000))
                  /\ \A k \in {"quality_scores", "observer_bias", "observer_inconsistency", "content_ambiguity"} : NoNaN(res, k)
ConvergedBad(evs) ==
    LET ok == Cardinality({ i \in 1..Len(evs) : evs[i].err = "" /\ MleExists(evs[i].res) })
    IN Chk("estimates_exist", ok = Len(evs))

(* sums over the present votes of observer s / video e / content c            *)
MleBad(ds, fam, kw, res, p) ==
    LET x  == p.x
        xx == Present(x)
        E  == Len(x)
        S  == NS(x)
        C  == MaxCid(ds) + 1
        so == fam = "mle_so"
        co == fam = "mle_co"
        shape == /\ VecOf(res, "quality_scores", E)
                 /\ so \/ (VecOf(res, "observer_bias", S) /\ VecOf(res, "observer_inconsistency", S))
                 /\ co \/ VecOf(res, "content_ambiguity", C)
    IN Chk("shape", shape)
       \cup Chk("absent_parts", (so => ~Has(res, "observer_bias") /\ ~Has(res, "observer_inconsistency"))
                                /\ (co => ~Has(res, "content_ambiguity")))
       \cup (IF ~shape \/ kw.norm \/ kw.tf THEN {} ELSE
    LET q  == res.quality_scores.v
        b  == IF so THEN [s \in 1..S |-> Zero] ELSE res.observer_bias.v
        v  == IF so THEN [s \in 1..S |-> Zero] ELSE res.observer_inconsistency.v
        a  == IF co THEN [c \in 1..C |-> Zero] ELSE res.content_ambiguity.v
        cid == ContentIds(ds)
        t2 == TLCEval([e \in 1..E |-> [s \in 1..S |-> NAdd(Sq(v[s]), Sq(a[cid[e] + 1]))]])
        \* residuals, their sums and sums of squares per cell
        n1 == TLCEval([e \in 1..E |-> [s \in 1..S |-> Len(xx[e][s])]])
        rs == TLCEval([e \in 1..E |-> [s \in 1..S |-> [i \in 1..Len(xx[e][s]) |-> NSub(xx[e][s][i], NAdd(q[e], b[s]))]]])
        r1 == TLCEval([e \in 1..E |-> [s \in 1..S |-> NSum(rs[e][s])]])
        r2 == TLCEval([e \in 1..E |-> [s \in 1..S |-> NSum([i \in 1..Len(rs[e][s]) |-> Sq(rs[e][s][i])])]])
        \* cells where the model has no variance at all cannot be judged
        \* converged = below the iteration limit and every variance well inside the domain
        regular == /\ \A e \in 1..E, s \in 1..S : n1[e][s] = 0 \/ Lt(Eps(3), t2[e][s])
                   /\ \A e \in 1..E : ~IsNaN(q[e])
                   /\ \A s \in 1..S : ~IsNaN(b[s]) /\ ~IsNaN(v[s])
                   /\ \A e \in 1..E : ~IsNaN(a[cid[e] + 1])
                   /\ S >= 3 /\ MleConverged(res)
        w  == TLCEval([e \in 1..E |-> [s \in 1..S |-> IF n1[e][s] = 0 THEN Zero ELSE NDiv(NInt(n1[e][s]), t2[e][s])]])
        g  == TLCEval([e \in 1..E |-> [s \in 1..S |-> IF n1[e][s] = 0 THEN Zero ELSE NDiv(r1[e][s], t2[e][s])]])
        \* relative variance mismatch per cell: sum (r^2/t2 - 1) weighted by 1/t2
        h  == TLCEval([e \in 1..E |-> [s \in 1..S |-> IF n1[e][s] = 0 THEN Zero
                   ELSE NDiv(NSub(NDiv(r2[e][s], t2[e][s]), NInt(n1[e][s])), t2[e][s])]])
        sumE(mx, s) == NSum([e \in 1..E |-> mx[e][s]])
        sumC(mx, c) == NSum(Cat([e \in 1..E |-> IF cid[e] + 1 = c THEN mx[e] ELSE <<>>]))
        wq == TLCEval([e \in 1..E |-> NSum(w[e])])
        wb == TLCEval([s \in 1..S |-> sumE(w, s)])
        wc == TLCEval([c \in 1..C |-> sumC(w, c)])
        \* curvature of the likelihood in v_s and a_c (formula of the second derivative)
        Curv(u2, o2, k1, k2, t) == \* u2: own variance, o2: other variance, k1 = count, k2 = sum r^2, t = u2+o2
            NAdd(NDiv(NMul(NInt(k1), NSub(u2, o2)), Sq(t)),
                 NDiv(NMul(k2, NSub(NSub(Sq(o2), NMul(NInt(3), Sq(u2))), NMul(Two, NMul(u2, o2)))), Sq(Sq(t))))
        cv == TLCEval([s \in 1..S |-> NSum([e \in 1..E |-> IF n1[e][s] = 0 THEN Zero
                  ELSE Curv(Sq(v[s]), Sq(a[cid[e] + 1]), n1[e][s], r2[e][s], t2[e][s])])])
        ca == TLCEval([c \in 1..C |-> NSum(Cat([e \in 1..E |-> IF cid[e] + 1 # c THEN <<>>
                  ELSE [s \in 1..S |-> IF n1[e][s] = 0 THEN Zero
                  ELSE Curv(Sq(a[c]), Sq(v[s]), n1[e][s], r2[e][s], t2[e][s])]]))])
        InvSqrt(c) == NDiv(One, NSqrt(NMax(Zero, c)))
        qstd == TLCEval([e \in 1..E |-> InvSqrt(wq[e])])
        bstd == TLCEval([s \in 1..S |-> InvSqrt(wb[s])])
        vstd == TLCEval([s \in 1..S |-> InvSqrt(NNeg(cv[s]))])
        astd == TLCEval([c \in 1..C |-> InvSqrt(NNeg(ca[c]))])
        \* away from the boundary of the parameter space, and curved enough to be judged
        vreg(s) == Lt(Ratio(1, 50), NNeg(cv[s])) /\ Lt(Ratio(1, 50), v[s])
        areg(c) == wc[c] # Zero /\ Lt(Ratio(1, 50), NNeg(ca[c])) /\ Lt(Ratio(1, 50), a[c])
        cs  == TLCEval([s \in 1..S |-> SumI([e \in 1..E |-> n1[e][s]])])
        n   == SumI(cs)
        ll  == NDiv(NSum(Cat([e \in 1..E |-> Cat([s \in 1..S |->
                   [i \in 1..Len(rs[e][s]) |-> LogGauss(rs[e][s][i], Zero, NSqrt(t2[e][s]))]])])), NInt(n))
        dofn == p.e0 + (IF so THEN 0 ELSE 2 * p.s0 * p.r0) + (IF co THEN 0 ELSE C)
        dof == Ratio(dofn, p.norig)
    IN Chk("raw_scores", EqTen(res, "raw_scores", x, E7))
       \cup Chk("reconstructions", EqTen(res, "reconstructions", Recon(q, b, NR(x)), E7))
       \cup Chk("nonnegative", (\A s \in 1..S : ~Lt(v[s], Zero)) /\ (\A c \in 1..C : ~Lt(a[c], Zero)))
       \cup Chk("dof", EqNum(res, "dof", dof, E7))
       \cup (IF so \/ ~kw.zm THEN {} ELSE Chk("zero_mean_bias", (\E s \in 1..S : IsNaN(b[s])) \/ Close(Mean(b), Zero, E7)))
       \cup (IF ~regular THEN {} ELSE
             Chk("quality_stationary", \A e \in 1..E : Close(NDiv(NSum(g[e]), wq[e]), Zero, MLETol))
             \cup Chk("bias_stationary", so \/ \A s \in 1..S : Close(NDiv(sumE(g, s), wb[s]), Zero, MLETol))
             \cup Chk("inconsistency_stationary", so \/ \A s \in 1..S :
                        Lt(v[s], Ratio(1, 50)) \/ Close(NDiv(sumE(h, s), wb[s]), Zero, Eps(3)))
             \cup Chk("ambiguity_stationary", co \/ \A c \in 1..C :
                        wc[c] = Zero \/ Lt(a[c], Ratio(1, 50)) \/ Close(NDiv(sumC(h, c), wc[c]), Zero, Eps(3)))
             \cup Chk("quality_scores_std", EqVec(res, "quality_scores_std", qstd, Eps(3)))
             \cup Chk("quality_scores_ci95", IsKind(res, "quality_scores_std", "vec") /\ EqCi(res, "quality_scores_ci95", res.quality_scores_std.v, E7))
             \cup (IF so THEN {} ELSE
                   Chk("observer_bias_std", EqVec(res, "observer_bias_std", bstd, Eps(3)))
                   \cup Chk("observer_bias_ci95", IsKind(res, "observer_bias_std", "vec") /\ EqCi(res, "observer_bias_ci95", res.observer_bias_std.v, E7))
                   \cup Chk("observer_inconsistency_std", IsVec(res, "observer_inconsistency_std", S)
                            /\ \A s \in 1..S : vreg(s) => Close(res.observer_inconsistency_std.v[s], vstd[s], Eps(2)))
                   \cup Chk("observer_inconsistency_ci95", IsKind(res, "observer_inconsistency_ci95", "mat")
                            /\ Len(res.observer_inconsistency_ci95.v) = 2
                            /\ \A k \in {1, 2} : Len(res.observer_inconsistency_ci95.v[k]) = S
                            /\ \A s \in 1..S : Lt(v[s], Ratio(1, 50)) \/
                                 ChiOk(v[s], cs[s], res.observer_inconsistency_ci95.v[1][s],
                                       res.observer_inconsistency_ci95.v[2][s])))
             \cup (IF co THEN {} ELSE
                   Chk("content_ambiguity_std", IsVec(res, "content_ambiguity_std", C)
                       /\ \A c \in 1..C : areg(c) => Close(res.content_ambiguity_std.v[c], astd[c], Eps(2)))
                   \cup Chk("content_ambiguity_ci95", IsKind(res, "content_ambiguity_std", "vec")
                             /\ EqCi(res, "content_ambiguity_ci95", res.content_ambiguity_std.v, E7)))
             \cup AicBic(res, dof, ll, p.norig, E6)))

(* MLE_legacy: content-free model, judged on full single-vote data             *)
LegacyBad(kw, res, p) ==
    LET x == p.x
        xx == Present(x)
        E == Len(x)
        S == NS(x)
        full == \A e \in 1..E, s \in 1..S : Len(xx[e][s]) = 1
        shape == VecOf(res, "quality_scores", E) /\ VecOf(res, "observer_bias", S) /\ VecOf(res, "observer_inconsistency", S)
    IN Chk("shape", shape)
       \cup (IF ~shape \/ ~full \/ kw.norm \/ kw.tf THEN {} ELSE
    LET q == res.quality_scores.v
        b == res.observer_bias.v
        v == res.observer_inconsistency.v
        regular == (\A e \in 1..E : ~IsNaN(q[e])) /\ \A s \in 1..S : ~IsNaN(v[s]) /\ Lt(Ratio(1, 20), v[s])
    IN (IF ~kw.zm THEN {} ELSE Chk("zero_mean_bias", ~regular \/ Close(Mean(b), Zero, E7)))
       \cup (IF ~regular THEN {} ELSE
        Chk("quality_stationary", \A e \in 1..E :
              Close(q[e], NDiv(NSum([s \in 1..S |-> NDiv(NSub(xx[e][s][1], b[s]), Sq(v[s]))]),
                               NSum([s \in 1..S |-> NDiv(One, Sq(v[s]))])), MLETol))
        \cup Chk("bias_stationary", \A s \in 1..S : Close(b[s], Mean([e \in 1..E |-> NSub(xx[e][s][1], q[e])]), MLETol))
        \cup Chk("inconsistency_stationary", \A s \in 1..S :
              Close(Sq(v[s]), Mean([e \in 1..E |-> Sq(NSub(NSub(xx[e][s][1], q[e]), b[s]))]), Eps(3)))))

----------------------------------------------------------------------------
(* one run_modeling event                                                     *)
ModelBad(ds, ev) ==
    LET m   == Registry[ev.model]
        kw  == ev.kw
        ref == TLCEval(Refuses(ds, m, kw))
    IN IF ref THEN Chk("not_refused", ev.err # "")
       ELSE IF ev.err = "ValueError" /\ m.fam \in {"mle", "mle_co", "mle_so", "legacy"} THEN {}    \* no convergence
       \* rejecting observers may leave a video without any vote; what the iterative models do then is open
       ELSE IF ev.err = "ValueError" /\ m.fam \in {"ap", "ap2"} /\ Effective(m, kw).rej # ""
               /\ LET p == TLCEval(Prep(ds, Effective(m, kw), <<>>))
                  IN p.screen.amb \/ \E e \in 1..Len(p.x) : Cnt(Row(p.x, e)) = 0 THEN {}
       ELSE IF ev.err # "" THEN {"raised"}
       ELSE LET res == ev.res
                o == Effective(m, kw)
                p == TLCEval(Prep(ds, o, Flags(res)))
                skip == p.zdeg \/ (p.screen.amb /\ m.fam \notin {"mos", "br"})
            IN ObserversBad(ds, res)
               \cup (IF m.fam \in {"mos", "br"} THEN (IF p.zdeg THEN {} ELSE ScreenBad(p, o.rej, res)) ELSE {})
               \cup (IF skip THEN {} ELSE
                     CASE m.fam \in {"mos", "br"} -> MosBad(ds, m, kw, res, p, p.bias)
                       [] m.fam = "live"       -> LiveBad(kw, res, p)
                       [] m.fam = "persubject" -> PersubjectBad(kw, res, p)
                       [] m.fam = "ls"         -> LsBad(kw, res, p)
                       [] m.fam = "legacy"     -> LegacyBad(kw, res, p)
                       [] m.fam \in {"ap", "ap2"} -> ApBad(m.fam = "ap2", kw, res, p)
                       [] OTHER                -> MleBad(ds, m.fam, kw, res, p))
=============================================================================
