---------------------------- MODULE SurealReport ----------------------------
(***************************************************************************)
(* run_subjective_models, its formatted output and the command line (C20). *)
(***************************************************************************)
EXTENDS SurealMLE, SurealPC, SurealMetrics

NoneRes == [none |-> [t |-> "none"]]
CallEv(ev, i) == [model |-> ev.calls[i].model, kw |-> ev.calls[i].kw, err |-> ev.err, res |-> IF ev.err # "" THEN NoneRes ELSE ev.results[i]]
PcCallEv(ev, i) == [model |-> ev.calls[i].model, err |-> ev.err, res |-> IF ev.err # "" THEN NoneRes ELSE ev.results[i],
                    src |-> "ds", zs |-> FALSE, simp |-> TRUE, must |-> TRUE]
Paths(ds) == [e \in 1..Len(ds.dis) |-> ds.dis[e].path]

\* agreement of the votes kept by preprocessing with what the fitted model would have voted
Flat3(x) == Cat([e \in 1..Len(x) |-> Cat(x[e])])
ReconBad(res, rec) ==
    IF ~(IsKind(res, "raw_scores", "ten") /\ IsKind(res, "reconstructions", "ten")) THEN Chk("reconstruction_stats_absent", rec.t = "absent")
    ELSE IF rec.t = "absent" THEN {"reconstruction_stats"}
    ELSE LET a == TLCEval(Flat3(res.raw_scores.v))
             b == TLCEval(Flat3(res.reconstructions.v))
             k == TLCEval(Positions(Len(a), LAMBDA i : ~IsNaN(a[i]) /\ ~IsNaN(b[i])))
             xs == TLCEval([i \in 1..Len(k) |-> a[k[i]]])
             ys == TLCEval([i \in 1..Len(k) |-> b[k[i]]])
             flat == Len(k) < 3 \/ ~Lt(E6, StdP(xs)) \/ ~Lt(E6, StdP(ys))
         IN Chk("reconstruction_rmse", Close(rec.rmse, Rmse(xs, ys), E7))
            \cup (IF flat THEN {} ELSE
                  Chk("reconstruction_cc", Close(rec.cc, Pearson(xs, ys), E7))
                  \* equal ranks depend on rounding when two reconstructions agree to the last digits
                  \cup (IF Len(k) > 60 \/ NearTie(xs, E9, TRUE) \/ NearTie(ys, E9, TRUE) THEN {}
                        ELSE Chk("reconstruction_srocc", Close(rec.srocc, Spearman(xs, ys), E7))))

\* a recorded finding of C16 (see known_findings.json), judged there
C16Finding == {"p_covariance_offdiagonal_2n_over_p"}
RunBad(ds, ev) ==
    LET n == Len(ev.calls)
        One1(i) == IF ev.pc THEN PcModelBad(ds, PcCallEv(ev, i), <<>>) \ C16Finding ELSE ModelBad(ds, CallEv(ev, i))
    IN IF ~ev.known THEN Chk("file_type", ev.err = "AssertionError")
       ELSE IF ev.err # "" THEN Chk("raised", \E i \in 1..n : One1(i) = {})
       ELSE Chk("models_in_order", ev.types = [i \in 1..n |-> ev.calls[i].model] /\ Len(ev.results) = n)
            \cup (IF Len(ev.results) # n THEN {} ELSE
                  UNION { One1(i) : i \in 1..n }
                  \cup Chk("dis_video_names", \A i \in 1..n : IsKind(ev.results[i], "dis_video_names", "strs") /\ ev.results[i].dis_video_names.v = Paths(ds))
                  \cup UNION { ReconBad(ev.results[i], ev.recon[i]) : i \in 1..n })

----------------------------------------------------------------------------
(* the formatted report as a function of the results                         *)
\* output name -> result name
QFig == [quality_score |-> "quality_scores", quality_score_std |-> "quality_scores_std", quality_score_ci95 |-> "quality_scores_ci95"]
OFig == [observer_bias |-> "observer_bias", observer_bias_std |-> "observer_bias_std", observer_bias_ci95 |-> "observer_bias_ci95",
         observer_inconsistency |-> "observer_inconsistency", observer_inconsistency_std |-> "observer_inconsistency_std",
         observer_inconsistency_ci95 |-> "observer_inconsistency_ci95", observer_scores_mean |-> "observer_scores_mean",
         observer_scores_std |-> "observer_scores_std"]
CFig == [content_ambiguity |-> "content_ambiguity", content_ambiguity_std |-> "content_ambiguity_std",
         content_ambiguity_ci95 |-> "content_ambiguity_ci95"]
SFig == [aic |-> "aic", bic |-> "bic"]
Pair == {"quality_score_ci95", "observer_bias_ci95", "observer_inconsistency_ci95", "content_ambiguity_ci95"}
Given(res, k) == Has(res, k) /\ res[k].t # "none"
FigEntry(res, fig, k, i) == IF k \in Pair THEN <<res[fig[k]].v[1][i], res[fig[k]].v[2][i]>> ELSE res[fig[k]].v[i]
Figures(res, fig, i) == [k \in { k \in DOMAIN fig : Given(res, fig[k]) } |-> FigEntry(res, fig, k, i)]
\* index of the last run of a model of that name, among those that report key
Runs(ev, key) == { i \in 1..Len(ev.calls) : Given(ev.results[i], key) }
LastRun(ev, key, m) == CHOOSE i \in Runs(ev, key) : ev.calls[i].model = m /\ \A j \in Runs(ev, key) : ev.calls[j].model = m => j <= i
PerModel(ev, key, fig, i) == [m \in { ev.calls[j].model : j \in Runs(ev, key) } |-> Figures(ev.results[LastRun(ev, key, m)], fig, i)]

ObsName(ds, s) == IF ListStyle(ds) THEN "observer" \o ToString(s - 1)
                  ELSE LET r == ObsRanks(ds)[s]
                           e == CHOOSE e \in 1..NumDis(ds) : \E i \in 1..Len(ds.dis[e].votes) : ds.dis[e].votes[i].o = r
                       IN ds.dis[e].votes[CHOOSE i \in 1..Len(ds.dis[e].votes) : ds.dis[e].votes[i].o = r].k
ContentIdx(ds, c) == SortSet({ ds.refs[i].cid : i \in 1..Len(ds.refs) })[c]
\* the name of a content: that of its last reference entry
RECURSIVE ContentNameR(_, _, _)
ContentNameR(refs, c, i) == IF refs[i].cid = c THEN refs[i].name ELSE ContentNameR(refs, c, i - 1)
ContentName(ds, refs, c) == ContentNameR(refs, ContentIdx(ds, c), Len(refs))

VecLen(res, k) == Len(res[k].v)
ReportBad(ds, run, ev) ==
    IF ev.err # "" THEN {"raised"}
    ELSE LET out == ev.out
             nS == IF Runs(run, "observer_bias") = {} THEN 0 ELSE VecLen(run.results[CHOOSE i \in Runs(run, "observer_bias") : TRUE], "observer_bias")
             nC == IF Runs(run, "content_ambiguity") = {} THEN 0 ELSE VecLen(run.results[CHOOSE i \in Runs(run, "content_ambiguity") : TRUE], "content_ambiguity")
             st == Runs(run, "aic") \cup Runs(run, "bic")
         IN Chk("videos", Len(out.dis_videos) = Len(ds.dis))
            \cup (IF Len(out.dis_videos) # Len(ds.dis) THEN {} ELSE
                  Chk("video_names", \A e \in 1..Len(ds.dis) : out.dis_videos[e].name = ds.dis[e].path)
                  \cup Chk("video_figures", \A e \in 1..Len(ds.dis) : out.dis_videos[e].models = PerModel(run, "quality_scores", QFig, e)))
            \cup Chk("observers", Len(out.observers) = nS)
            \cup (IF Len(out.observers) # nS THEN {} ELSE
                  Chk("observer_names", \A s \in 1..nS : out.observers[s].name = ObsName(ds, s))
                  \cup Chk("observer_figures", \A s \in 1..nS : out.observers[s].models = PerModel(run, "observer_bias", OFig, s)))
            \cup Chk("contents", Len(out.contents) = nC)
            \cup (IF Len(out.contents) # nC THEN {} ELSE
                  Chk("content_names", \A c \in 1..nC : out.contents[c].name = ContentName(ds, ev.refnames, c))
                  \cup Chk("content_figures", \A c \in 1..nC : out.contents[c].models = PerModel(run, "content_ambiguity", CFig, c)))
            \cup Chk("stats", IF st = {} THEN ~out.hasstats
                              ELSE /\ out.hasstats
                                   /\ DOMAIN out.stats = { run.calls[i].model : i \in st }
                                   /\ \A m \in DOMAIN out.stats :
                                        LET i == CHOOSE i \in st : run.calls[i].model = m /\ \A j \in st : run.calls[j].model = m => j <= i
                                        IN out.stats[m] = [k \in { k \in {"aic", "bic"} : Given(run.results[i], k) } |-> run.results[i][k].v])

\* the command line: refused exactly when a name is unknown, the kinds are mixed or the file type is unknown
CliBad(ds, run, ev) ==
    IF ev.fault # "" THEN Chk("refused", ev.err # "") \cup Chk("nothing_written", ~ev.written)
    ELSE IF run.err # "" THEN Chk("raised", ev.err # "")
    ELSE Chk("exit_code", ev.code = 0) \cup ReportBad(ds, run, ev)
\* the deprecated command line: the results of its one model as they are; what JSON cannot hold is left out or marked
CliOldBad(ds, run, ev) ==
    IF ev.fault \in {"unknown", "mixed"} \/ run.pc THEN Chk("refused", ev.err # "" \/ ev.code # 0) \cup Chk("nothing_written", ~ev.written)
    ELSE IF ev.fault # "" THEN Chk("refused", ev.err # "") \cup Chk("nothing_written", ~ev.written)
    ELSE IF run.err # "" THEN {}
    ELSE IF ev.err # "" THEN {"raised"}
    ELSE LET res == run.results[ev.at]
             nums == {"vec", "mat", "ten", "num"}
             given == DOMAIN ev.out \ {"none"}
         IN Chk("exit_code", ev.code = 0) \cup Chk("written", ev.written)
            \cup Chk("results_known", \A k \in given : k = "reconstruction_stats" \/ Has(res, k))
            \cup Chk("results_complete", ev.file => DOMAIN res \subseteq given \cup Range(ev.marked))
            \cup Chk("result_figures", \A k \in given \cap DOMAIN res : res[k].t \in nums => ev.out[k] = res[k].v)
=============================================================================
