---------------------------- MODULE SurealModels ----------------------------
(***************************************************************************)
(* The subjective models: what each published name means, which option     *)
(* combinations are refused, and the relation every result must satisfy.   *)
(***************************************************************************)
EXTENDS SurealPrep

M(fam, d, z, b, rej) == [fam |-> fam, d |-> d, z |-> z, b |-> b, rej |-> rej]
Registry ==
    [ MOS            |-> M("mos", FALSE, FALSE, FALSE, ""),
      DMOS           |-> M("mos", TRUE,  FALSE, FALSE, ""),
      SR_MOS         |-> M("mos", FALSE, FALSE, FALSE, "kurtosis"),
      BT500          |-> M("mos", FALSE, FALSE, FALSE, "kurtosis"),
      SR_MOS_PCC     |-> M("mos", FALSE, FALSE, FALSE, "pearson"),
      SR_MOS_SRCC    |-> M("mos", FALSE, FALSE, FALSE, "spearman"),
      ZS_MOS         |-> M("mos", FALSE, TRUE,  FALSE, ""),
      ZS_SR_MOS      |-> M("mos", FALSE, TRUE,  FALSE, "kurtosis"),
      SR_DMOS        |-> M("mos", TRUE,  FALSE, FALSE, "kurtosis"),
      ZS_SR_DMOS     |-> M("mos", TRUE,  TRUE,  FALSE, "kurtosis"),
      BR_MOS         |-> M("br",  FALSE, FALSE, TRUE,  ""),
      BR_SR_MOS      |-> M("br",  FALSE, FALSE, TRUE,  "kurtosis"),
      P913           |-> M("br",  FALSE, FALSE, TRUE,  "kurtosis"),
      BR_SR_MOS_PCC  |-> M("br",  FALSE, FALSE, TRUE,  "pearson"),
      BR_SR_MOS_SRCC |-> M("br",  FALSE, FALSE, TRUE,  "spearman"),
      LIVE_DMOS      |-> M("live", TRUE, TRUE,  FALSE, ""),
      PERSUBJECT     |-> M("persubject", FALSE, FALSE, FALSE, ""),
      P910                    |-> M("ap2", FALSE, FALSE, FALSE, ""),
      Subject_MLE_Projection  |-> M("ap",  FALSE, FALSE, FALSE, ""),
      Subject_MLE_Projection2 |-> M("ap2", FALSE, FALSE, FALSE, ""),
      MLE_CO_AP               |-> M("ap",  FALSE, FALSE, FALSE, ""),
      MLE_CO_AP2              |-> M("ap2", FALSE, FALSE, FALSE, ""),
      MLE         |-> M("mle",    FALSE, FALSE, FALSE, ""),
      MLE_CO      |-> M("mle_co", FALSE, FALSE, FALSE, ""),
      MLE_SO      |-> M("mle_so", FALSE, FALSE, FALSE, ""),
      DMOS_MLE    |-> M("mle",    TRUE,  FALSE, FALSE, ""),
      DMOS_MLE_CO |-> M("mle_co", TRUE,  FALSE, FALSE, ""),
      MLE_legacy  |-> M("legacy", FALSE, FALSE, FALSE, ""),
      LS          |-> M("ls",     FALSE, FALSE, FALSE, "") ]
ModelNames == DOMAIN Registry
\* names seen in the results of the classes the names resolve to
AliasOf(n) == n
PcNames == {"BT_NR", "BT_MLE", "THURSTONE_MLE"}
RegistryBad(names) ==
    Chk("registry", \A i \in 1..Len(names) :
        IF names[i].name \in ModelNames \cup PcNames THEN names[i].err = "" /\ names[i].type = AliasOf(names[i].name)
        ELSE names[i].err # "")
NoRejection == {"mle", "mle_co", "mle_so", "legacy", "ls"}

RejTypes == {"kurtosis", "pearson", "spearman"}
(* Effective preprocessing of model name under the caller's options           *)
(*   kw = [d, z, b, rej : BOOLEAN, rejtype : STRING ("" = not given), ...]    *)
Conflict(m, kw) ==
    \/ m.d /\ kw.d                       \* repeats a step the model already does
    \/ m.z /\ kw.z
    \/ m.b /\ kw.b
    \/ m.rej # "" /\ kw.rej
    \/ m.fam \in NoRejection /\ kw.rej
    \/ (m.z \/ kw.z) /\ (m.b \/ kw.b)
    \/ kw.rejtype # "" /\ m.rej = "" /\ ~kw.rej
    \/ kw.rejtype # "" /\ kw.rejtype \notin RejTypes
Effective(m, kw) ==
    [d |-> m.d \/ kw.d, z |-> m.z \/ kw.z, b |-> m.b \/ kw.b,
     rej |-> IF m.rej \in {"pearson", "spearman"} THEN m.rej
             ELSE IF m.rej = "" /\ ~kw.rej THEN ""
             ELSE IF kw.rejtype # "" THEN kw.rejtype ELSE "kurtosis"]
Refuses(ds, m, kw) ==
    \/ Conflict(m, kw)
    \/ Effective(m, kw).d /\ ~DscoreOk(ds)
    \/ m.fam \in {"ls", "legacy"} /\ MaxReps(ds) > 1

----------------------------------------------------------------------------
Z95 == NAdd(One, Ratio(95996, 100000))
Scale(k, v) == [i \in 1..Len(v) |-> NMul(k, v[i])]
TwoSided(v) == <<Scale(Z95, v), Scale(Z95, v)>>
\* ci95 recorded as a pair of vectors
EqCi(res, k, std, tol) == EqMat(res, k, TwoSided(std), tol)

Flags(res) == IF Has(res, "observer_rejected") /\ res.observer_rejected.t = "bools" THEN res.observer_rejected.v ELSE <<>>

(* final normalisation and transform of the quality scores *)
Post(q, kw) ==
    LET q1 == TLCEval(IF kw.norm THEN LET m == Mean(q)
                                          d == StdP(q) IN [i \in 1..Len(q) |-> NDiv(NSub(q[i], m), d)]
                      ELSE q)
    IN TLCEval(IF kw.tf THEN [i \in 1..Len(q1) |-> NAdd(NAdd(NMul(kw.p2, Sq(q1[i])), NMul(kw.p1, q1[i])), kw.p0)]
               ELSE q1)
PostDegenerate(q, kw) == kw.norm /\ ((\E i \in 1..Len(q) : IsNaN(q[i])) \/ Lt(StdP(q), E4))

AicBic(res, dof, ll, norig, tol) ==
    Chk("dof", EqNum(res, "dof", dof, E7))
    \cup Chk("loglikelihood", EqNum(res, "loglikelihood", ll, tol))
    \cup Chk("aic", EqNum(res, "aic", NMul(Two, NSub(dof, ll)), tol))
    \cup Chk("bic", EqNum(res, "bic", NSub(NMul(NLn(NInt(norig)), dof), NMul(Two, ll)), tol))

----------------------------------------------------------------------------
(* MOS family: per-video sample statistics of the preprocessed tensor         *)
MosBad(ds, m, kw, res, p, bias) ==
    LET x  == p.x
        E  == Len(x)
        q  == TLCEval(Mos(x))
        sd == TLCEval([e \in 1..E |-> StdS(Row(x, e))])
        se == TLCEval([e \in 1..E |-> NDiv(sd[e], NSqrt(NInt(Cnt(Row(x, e)))))])
        n  == NumVotes(x)
        dofn == IF m.fam = "br" THEN 2 * p.e0 + p.s0 * p.r0 ELSE 2 * p.e0
        llok == n > 0 /\ \A e \in 1..E : ~IsNaN(sd[e]) /\ Lt(E5, sd[e])
        ll == NDiv(NSum(Cat([e \in 1..E |-> LET d == DropNaN(Row(x, e)) IN
                                   [i \in 1..Len(d) |-> LogGauss(d[i], q[e], sd[e])]])), NInt(n))
        rec == [e \in 1..E |-> [s \in 1..NS(x) |-> [r \in 1..NR(x) |-> q[e]]]]
    IN (IF PostDegenerate(q, kw) THEN {} ELSE Chk("quality_scores", EqVec(res, "quality_scores", Post(q, kw), E7)))
       \cup Chk("quality_ambiguity", EqVec(res, "quality_ambiguity", sd, E7))
       \cup Chk("quality_scores_std", EqVec(res, "quality_scores_std", se, E7))
       \cup Chk("quality_scores_ci95", EqCi(res, "quality_scores_ci95", se, E7))
       \cup Chk("raw_scores", EqTen(res, "raw_scores", x, E7))
       \cup Chk("reconstructions", EqTen(res, "reconstructions", rec, E7))
       \cup (IF llok THEN AicBic(res, Ratio(dofn, p.norig), ll, p.norig, E7)
             ELSE Chk("dof", EqNum(res, "dof", Ratio(dofn, p.norig), E7)))
       \cup (IF m.fam = "br" THEN Chk("observer_bias", EqVec(res, "observer_bias", bias, E7)) ELSE {})

Double07 == <<1, 5559, 9999, 9999, 9999, 6999>>      \* the IEEE double nearest 0.7, to 20 decimals
ScreenBad(p, rejkind, res) ==
    IF rejkind = "" THEN Chk("unasked_rejection", ~Has(res, "observer_rejected"))
    ELSE LET sc == p.screen
             S  == p.s0
         IN Chk("rejected_flags_shape", IsKind(res, "observer_rejected", "bools") /\ Len(res.observer_rejected.v) = S)
            \cup (IF sc.amb THEN {} ELSE
                  Chk("observer_rejected", Flags(res) = sc.rej)
                  \cup Chk("rejected_2nd_stats", EqVec(res, "observer_rejected_2nd_stats", sc.second, E7)))
            \cup (IF sc.amb /\ (rejkind = "kurtosis" \/ sc.undef) THEN {}
                  ELSE Chk("rejected_1st_stats", EqVec(res, "observer_rejected_1st_stats", sc.first, E7)))
            \* a reported correlation of exactly the double 0.7 does not exceed a threshold of 0.7
            \cup (IF rejkind \in {"pearson", "spearman"} /\ sc.capped /\ Len(Flags(res)) = S
                  THEN Chk("threshold_tie", \A s \in 1..S : (IsKind(res, "observer_rejected_1st_stats", "vec")
                               /\ Len(res.observer_rejected_1st_stats.v) = S /\ res.observer_rejected_1st_stats.v[s] = Double07) => Flags(res)[s])
                  ELSE {})

ObserversBad(ds, res) ==
    IF ListStyle(ds) THEN Chk("observers_absent", ~Has(res, "observers"))
    ELSE Chk("observers", IsKind(res, "observers", "ranks") /\ res.observers.v = ObsRanks(ds))

----------------------------------------------------------------------------
(* LIVE DMOS *)
LiveBad(kw, res, p) ==
    LET y == MapT(p.x, LAMBDA e, s, r : NDiv(NMul(NAdd(p.x[e][s][r], NInt(3)), NInt(100)), NInt(6)))
        q == TLCEval(Mos(y))
    IN IF PostDegenerate(q, kw) THEN {} ELSE Chk("quality_scores", EqVec(res, "quality_scores", Post(q, kw), E7))

(* PERSUBJECT keeps the (preprocessed) votes themselves *)
PersubjectBad(kw, res, p) ==
    LET flat == TLCEval(Cat([e \in 1..Len(p.x) |-> Cat(p.x[e])]))
        y    == TLCEval(Post(flat, kw))
        S    == NS(p.x)
        R    == NR(p.x)
    IN IF PostDegenerate(flat, kw) THEN {}
       ELSE Chk("quality_scores", EqTen(res, "quality_scores",
                    MapT(p.x, LAMBDA e, s, r : y[((e - 1) * S + s - 1) * R + r]), E7))

(* LS: least-squares solution of vote = quality + bias anchored at the first  *)
(* video's MOS: normal equations of all votes plus the anchor row             *)
LsBad(kw, res, p) ==
    LET x == p.x
        E == Len(x)
        S == NS(x)
        full == \A e \in 1..E, s \in 1..S : ~IsNaN(x[e][s][1])
        q == res.quality_scores.v
        b == res.observer_bias.v
    IN IF ~full \/ kw.norm \/ kw.tf THEN {}
       ELSE Chk("shape", IsKind(res, "quality_scores", "vec") /\ Len(q) = E
                         /\ IsKind(res, "observer_bias", "vec") /\ Len(b) = S)
       \cup (IF ~(IsKind(res, "quality_scores", "vec") /\ IsKind(res, "observer_bias", "vec")
                  /\ Len(q) = E /\ Len(b) = S) THEN {} ELSE
         LET rr == TLCEval([e \in 1..E |-> [s \in 1..S |-> NSub(x[e][s][1], NAdd(q[e], b[s]))]])
         IN Chk("ls_video_residuals", \A e \in 2..E : Close(NSum(rr[e]), Zero, E6))
            \cup Chk("ls_observer_residuals", \A s \in 1..S : Close(NSum([e \in 1..E |-> rr[e][s]]), Zero, E6))
            \cup Chk("ls_anchor", Close(q[1], Mean(Row(x, 1)), E6)))
=============================================================================
