------------------------------ MODULE SurealBoot ------------------------------
(***************************************************************************)
(* Maximum-likelihood models with bootstrapped intervals (C25).            *)
(*                                                                         *)
(* An event carries the full estimate without zero-mean biases (ev.base),  *)
(* one resampling of the observers per seed (ev.subj[i].sel, numbered from *)
(* 1) with the estimate of the plain model on the resampled votes          *)
(* (ev.subj[i].res), the same for videos (ev.vid), and the report ev.res.  *)
(***************************************************************************)
EXTENDS SurealSub

Cis == {"quality_scores_ci95", "observer_bias_ci95", "observer_inconsistency_ci95"}
PlainOf(model) == IF model = "MLE_BSTP" THEN "MLE" ELSE "MLE_CO"

\* votes of the selected observers / videos (with repetition)
SubjSample(ds, sel) == LET x == Tensor(ds) IN OfTensor(ds, [e \in 1..Len(x) |-> [j \in 1..Len(sel) |-> x[e][sel[j]]]])
VidSample(ds, sel)  == [ds EXCEPT !.dis = [j \in 1..Len(sel) |-> ds.dis[sel[j]]]]

\* linear interpolation between order statistics; p in thousandths
Percentile(s, p) ==
    LET t == Sorted(s)
        n == Len(t)
        k == ((n - 1) * p) \div 1000
        f == Ratio((n - 1) * p - 1000 * k, 1000)
    IN IF k + 1 >= n THEN t[n] ELSE NAdd(t[k + 1], NMul(f, NSub(t[k + 2], t[k + 1])))
Interval(q, smp) == [lo |-> [i \in 1..Len(q) |-> NSub(q[i], Percentile([k \in 1..Len(smp) |-> smp[k][i]], 25))],
                     hi |-> [i \in 1..Len(q) |-> NSub(Percentile([k \in 1..Len(smp) |-> smp[k][i]], 975), q[i])]]
IsInterval(res, k, q, smp) ==
    LET w == TLCEval(Interval(q, smp))
    IN IsKind(res, k, "mat") /\ Len(res[k].v) = 2 /\ CloseV(res[k].v[1], w.lo, E5) /\ CloseV(res[k].v[2], w.hi, E5)

AddAll(v, d) == [i \in 1..Len(v) |-> NAdd(v[i], d)]
MeanDiff(u, v) == Mean([i \in 1..Len(u) |-> NSub(u[i], v[i])])

SampleOk(ss) == \A i \in 1..Len(ss) : ss[i].err = "" /\ MleConverged(ss[i].res)

BootBad(ds, ev) ==
    LET fam == PlainOf(ev.model)
        plain(d, r) == ModelBad(d, [model |-> fam, kw |-> [ev.kw EXCEPT !.zm = FALSE], err |-> r.err, res |-> r.res]) \ {"observers"}
        \* the likelihood of resampled votes may be too flat to fix its parameters: only what they are estimated from is judged
        inner(d, r) == plain(d, r) \cap {"raised", "not_refused", "shape", "absent_parts", "raw_scores", "reconstructions", "nonnegative", "dof"}
        refs == plain(ds, ev.base)
                \cup UNION { inner(SubjSample(ds, ev.subj[i].sel), ev.subj[i]) : i \in 1..Len(ev.subj) }
                \cup UNION { inner(VidSample(ds, ev.vid[i].sel), ev.vid[i]) : i \in 1..Len(ev.vid) }
    IN IF ev.bad THEN Chk("options_refused", ev.err # "")
       ELSE IF refs # {} THEN { "plain_model_" \o c : c \in refs }
       ELSE IF ev.err # "" THEN Chk("raised", ev.base.err # "" \/ (\E i \in 1..Len(ev.subj) : ev.subj[i].err # "") \/ (\E i \in 1..Len(ev.vid) : ev.vid[i].err # ""))
       ELSE IF ev.base.err # "" THEN {}
       ELSE LET res == ev.res
                b0 == ev.base.res.observer_bias.v
                q0 == ev.base.res.quality_scores.v
                v0 == ev.base.res.observer_inconsistency.v
                m == IF ev.kw.zm THEN Mean(b0) ELSE Zero
                qs == [i \in 1..Len(ev.subj) |->
                         LET r == ev.subj[i].res sel == ev.subj[i].sel
                         IN AddAll(r.quality_scores.v, MeanDiff(r.observer_bias.v, [j \in 1..Len(sel) |-> b0[sel[j]]]))]
                bs == [i \in 1..Len(ev.vid) |->
                         LET r == ev.vid[i].res sel == ev.vid[i].sel
                         IN AddAll(r.observer_bias.v, MeanDiff(r.quality_scores.v, [j \in 1..Len(sel) |-> q0[sel[j]]]))]
                vs == [i \in 1..Len(ev.vid) |-> ev.vid[i].res.observer_inconsistency.v]
            IN (ModelBad(ds, [model |-> fam, kw |-> ev.kw, err |-> "", res |-> res]) \ Cis)
               \cup Chk("quality_interval_present", Has(res, "quality_scores_ci95") <=> ev.bs)
               \cup Chk("bias_interval_present", Has(res, "observer_bias_ci95") <=> ev.bv)
               \cup Chk("inconsistency_interval_present", Has(res, "observer_inconsistency_ci95") <=> ev.bv)
               \cup (IF ~MleConverged(ev.base.res) THEN {} ELSE
                     Chk("quality_of_plain_model", EqVec(res, "quality_scores", AddAll(q0, m), E6))
                     \cup Chk("bias_of_plain_model", EqVec(res, "observer_bias", AddAll(b0, NNeg(m)), E6))
                     \cup Chk("inconsistency_of_plain_model", EqVec(res, "observer_inconsistency", v0, E6))
                     \cup (IF ~ev.bs \/ ~SampleOk(ev.subj) THEN {} ELSE Chk("quality_interval", IsInterval(res, "quality_scores_ci95", q0, qs)))
                     \cup (IF ~ev.bv \/ ~SampleOk(ev.vid) THEN {} ELSE
                           Chk("bias_interval", IsInterval(res, "observer_bias_ci95", b0, bs))
                           \cup Chk("inconsistency_interval", IsInterval(res, "observer_inconsistency_ci95", v0, vs))))
=============================================================================
