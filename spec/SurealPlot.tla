----------------------------- MODULE SurealPlot -----------------------------
(***************************************************************************)
(* What the plots draw (C28).  A series is [name, kind, x, y, haserr, lo,  *)
(* hi, figs]: the labelled data of one model in one axes, with the error   *)
(* bars and the figures printed in its label.                              *)
(***************************************************************************)
EXTENDS SurealSub

\* a figure printed with limited digits
Shows(figs, k, x) == k \in DOMAIN figs /\ (IF IsNaN(x) THEN IsNaN(figs[k].v) ELSE IF IsInf(x) THEN figs[k].v = x
                                           ELSE Le(NAbs(NSub(figs[k].v, x)), NAdd(figs[k].half, NMul(E6, NAdd(One, NAbs(x))))))
\* neighbours one apart, the first within the width of the group of bars
Spaced(x) == \A i \in 1..Len(x) : Close(NSub(x[i], x[1]), NInt(i - 1), E6)
NearPos(x) == \A i \in 1..Len(x) : Le(NAbs(NSub(x[i], NInt(i - 1))), One)

MeanCi(ci) == Mean([i \in 1..Len(ci[1]) |-> NAdd(ci[1][i], ci[2][i])])
\* a bar without end is not drawn
Bar(drawn, x) == IF IsNaN(x) \/ IsInf(x) THEN IsNaN(drawn) \/ IsInf(drawn) ELSE Close(drawn, x, E7)
\* the models that report key, in order
With(ev, key) == Positions(Len(ev.models), LAMBDA i : Given(ev.results[i], key))
Values(r) == IF r.t = "vec" THEN r.v ELSE <<>>

\* series s shows y in the order ord, with the intervals under cikey
SeriesBad(s, name, y, ord, res, cikey, bars, nm) ==
    LET n == Len(ord)
        errs == ~bars /\ cikey # "" /\ Given(res, cikey)
    IN Chk("name", s.name = name)
       \cup (IF ~(Len(s.y) = n /\ Len(s.x) = n) THEN {"number_of_points"} ELSE
             Chk("points", \A i \in 1..n : Close(s.y[i], y[ord[i]], E9))
             \cup Chk("positions", Spaced(s.x) /\ (n = 0 \/ (Le(Ratio(-1, 2), s.x[1]) /\ Le(s.x[1], NAdd(Ratio(1, 2), NMul(NInt(nm), Ratio(2, 5)))))))
             \cup Chk("kind", (s.kind = "bars") = bars)
             \cup (IF bars THEN {} ELSE Chk("interval_shown", s.haserr = errs))
             \cup (IF ~(errs /\ s.haserr) THEN {}
                   ELSE Chk("intervals", \A i \in 1..n : Bar(s.lo[i], res[cikey].v[1][ord[i]]) /\ Bar(s.hi[i], res[cikey].v[2][ord[i]]))
                        \cup Chk("average_ci", Shows(s.figs, "avg CI", MeanCi(res[cikey].v)))))
AllSeries(ev, draw, key, ord, cikey, bars) ==
    LET ms == With(ev, key)
    IN IF Len(draw.series) # Len(ms) THEN {"series"}
       ELSE UNION { SeriesBad(draw.series[k], ev.models[ms[k]], ev.results[ms[k]][key].v,
                              IF ord = <<>> THEN Idx(Len(ev.results[ms[k]][key].v)) ELSE ord, ev.results[ms[k]], cikey, bars, Len(ev.models)) : k \in 1..Len(ms) }

\* positions in increasing order of q (distinct entries)
ByValue(q) == [i \in 1..Len(q) |-> CHOOSE j \in 1..Len(q) : Cardinality({ k \in 1..Len(q) : Lt(q[k], q[j]) }) = i - 1]
QualityDrawn(ev, draw) ==
    LET q == ev.results[1].quality_scores.v
        und == ev.sort /\ NearTie(q, E9, FALSE)
    IN IF und THEN {}
       ELSE AllSeries(ev, draw, "quality_scores", IF ev.sort THEN ByValue(q) ELSE <<>>, "quality_scores_ci95", ev.bars)
            \cup (IF Len(draw.series) # Len(With(ev, "quality_scores")) THEN {} ELSE
                  Chk("nbic", \A k \in 1..Len(draw.series) :
                    LET i == With(ev, "quality_scores")[k] IN
                    IF Given(ev.results[i], "bic") /\ ev.recon[i] THEN Shows(draw.series[k].figs, "NBIC", ev.results[i].bic.v)
                    ELSE "NBIC" \notin DOMAIN draw.series[k].figs))

\* the tensor averaged over repetitions: row s, column e
RawImage(ds) == LET x == TLCEval(Tensor(ds)) IN TLCEval([s \in 1..NS(x) |-> [e \in 1..Len(x) |-> Mean(x[e][s])]])
CountsBad(groups, pts) ==      \* groups[k]: the values shown at position k - 1
    LET At(k, v) == { i \in 1..Len(pts) : pts[i][1] = NInt(k - 1) /\ Close(pts[i][2], v, E9) }
        Same(k, v) == Cardinality({ j \in 1..Len(groups[k]) : Close(groups[k][j], v, E9) })
    IN Chk("counts", \A k \in 1..Len(groups) : \A j \in 1..Len(groups[k]) :
              IsNaN(groups[k][j]) \/
              LET P == SortSet(At(k, groups[k][j])) IN Close(NSum([i \in 1..Len(P) |-> pts[P[i]][3]]), NInt(2 * Same(k, groups[k][j])), E9))
       \cup Chk("stray_points", \A i \in 1..Len(pts) : \E k \in 1..Len(groups) : pts[i][1] = NInt(k - 1) /\ \E j \in 1..Len(groups[k]) : Close(groups[k][j], pts[i][2], E9))
Cols(m) == [e \in 1..Len(m[1]) |-> [s \in 1..Len(m) |-> m[s][e]]]

ResidualWant(ds, ev, d, i) == LET m == RawImage(ds) q == ev.results[i].quality_scores.v
                              IN [s \in 1..Len(m) |-> [e \in 1..Len(m[1]) |->
                                    NSub(NSub(m[s][e], q[e]), IF d.bias THEN ev.results[i].observer_bias.v[s] ELSE Zero)]]
VersusBad(ds, ev, d, i) ==
    LET m == TLCEval(RawImage(ds)) q == ev.results[i].quality_scores.v
    IN Chk("boxes", Len(d.boxes) = Len(m) /\ \A s \in 1..Len(d.boxes) : d.boxes[s].title = "#" \o ToString(s) /\ Len(d.boxes[s].series) = 1)
       \cup (IF Len(d.boxes) # Len(m) \/ \E s \in 1..Len(d.boxes) : Len(d.boxes[s].series) # 1 THEN {} ELSE
             Chk("raw_against_quality", \A s \in 1..Len(m) : LET z == d.boxes[s].series[1] IN
                 /\ Len(z.x) = Len(q) /\ Len(z.y) = Len(q)
                 /\ \A e \in 1..Len(q) : IsNaN(m[s][e]) \/ (Close(z.x[e], m[s][e], E9) /\ Close(z.y[e], q[e], E9))))
ModelAt(ev, name) == CHOOSE i \in 1..Len(ev.models) : ev.models[i] = name

DrawBad(ds, ev, d) ==
    CASE d.what = "raw_scores" -> Chk("raw_scores_image", d.image.n = 1 /\ CloseM(d.image.v, RawImage(ds), E9))
      [] d.what = "raw_counts" -> CountsBad(Cols(RawImage(ds)), d.scatter)
      [] d.what = "raw_counts_per_subject" -> CountsBad(RawImage(ds), d.scatter)
      [] d.what = "quality_scores" -> QualityDrawn(ev, d)
      [] d.what \in {"observer_bias", "observer_inconsistency"} -> AllSeries(ev, d, d.what, <<>>, d.what \o "_ci95", ev.bars)
      [] d.what \in {"observer_rejected_1st_stats", "observer_rejected_2nd_stats"} -> AllSeries(ev, d, d.what, <<>>, "", TRUE)
      [] d.what = "observer_rejected" ->
            LET ms == With(ev, d.what) IN
            IF Len(d.series) # Len(ms) THEN {"series"}
            ELSE Chk("rejected", \A k \in 1..Len(ms) : LET f == ev.results[ms[k]].observer_rejected.v IN
                     d.series[k].name = ev.models[ms[k]] /\ d.series[k].y = [j \in 1..Len(f) |-> IF f[j] THEN One ELSE Zero] /\ Spaced(d.series[k].x))
      [] d.what = "observer_names" ->
            LET named == { i \in 1..Len(ev.models) : Given(ev.results[i], "observer_bias") /\ ev.names[i] # <<>> }
                any == \E i \in 1..Len(ev.models) : \E k \in {"observer_bias", "observer_inconsistency"} : Given(ev.results[i], k)
            IN IF ~any THEN {}
               ELSE Chk("observer_names", /\ d.ticks.t = (IF named # {} THEN ev.names[CHOOSE i \in named : TRUE] ELSE [s \in 1..NumObs(ds) |-> "#" \o ToString(s)])
                                          /\ NearPos(d.ticks.x) /\ Spaced(d.ticks.x))
      [] d.what = "content_ambiguity" -> AllSeries(ev, d, d.what, <<>>, "content_ambiguity_ci95", ev.bars)
      [] d.what = "content_names" ->
            IF With(ev, "content_ambiguity") = <<>> THEN {} ELSE Chk("content_names", d.ticks.t = ev.contents /\ NearPos(d.ticks.x) /\ Spaced(d.ticks.x))
      [] d.what = "residual" -> IF d.model \notin Range(ev.models) THEN {"residual_model"}
                                ELSE Chk("residual_image", d.image.n = 1 /\ CloseM(d.image.v, ResidualWant(ds, ev, d, ModelAt(ev, d.model)), E9))
      [] d.what = "versus" -> IF d.model \notin Range(ev.models) THEN {"versus_model"} ELSE VersusBad(ds, ev, d, ModelAt(ev, d.model))
      [] d.what = "kinds" ->
            LET names(w, b) == LET k == Positions(Len(ev.draws), LAMBDA j : ev.draws[j].what = w /\ (w = "versus" \/ ev.draws[j].bias = b))
                               IN [j \in 1..Len(k) |-> ev.draws[k[j]].model]
                of(ms) == [j \in 1..Len(ms) |-> ev.models[ms[j]]]
                both == Positions(Len(ev.models), LAMBDA i : Given(ev.results[i], "quality_scores") /\ Given(ev.results[i], "observer_bias"))
            IN Chk("residual_figures", names("residual", FALSE) = (IF d.residual THEN of(With(ev, "quality_scores")) ELSE <<>>))
               \cup Chk("residual_and_bias_figures", names("residual", TRUE) = (IF d.residual2 THEN of(both) ELSE <<>>))
               \cup Chk("versus_figures", names("versus", FALSE) = (IF d.versus THEN of(With(ev, "quality_scores")) ELSE <<>>))
      [] OTHER -> {"unknown_plot"}
PlotBad(ds, ev) ==
    IF ev.err # "" THEN {"raised"}
    ELSE UNION { DrawBad(ds, ev, ev.draws[k]) : k \in 1..Len(ev.draws) }

\* a kind of plot there is not
BadPlotBad(ev) == Chk("unknown_plot_type_accepted", ev.drawn => ev.err # "")

----------------------------------------------------------------------------
WinningBad(pc, ev) ==
    IF ev.err # "" THEN {"raised"}
    ELSE LET x == TLCEval(PcTensor(pc))
             W(i, j) == NSum(DropNaN(x[i][j]))
             rate(i, j) == LET a == W(i, j) b == W(j, i) IN IF NAdd(a, b) = Zero THEN NaN ELSE NDiv(a, NAdd(a, b))
         IN Chk("winning_rate", ev.image.n = 1 /\ CloseM(ev.image.v, [i \in 1..Len(x) |-> [j \in 1..Len(x) |-> rate(i, j)]], E9))

\* recovered figures against the true ones
RecoveredBad(ev) ==
    IF ev.err # "" THEN {"raised"}
    ELSE UNION { LET ms == Positions(Len(ev.models), LAMBDA i : Given(ev.results[ev.models[i]], key))
                     d == ev.draws[key]
                     ci == key \o "_ci95"
                 IN IF Len(d) # Len(ms) THEN {"series_" \o key}
                    ELSE UNION { LET s == d[k]
                                     res == ev.results[ev.models[ms[k]]]
                                     errs == ev.bars /\ Given(res, ci)
                                     n == Len(ev.syn[key])
                                 IN IF Len(res[key].v) # n THEN {}
                                    ELSE Chk("name", s.name = ev.models[ms[k]])
                                         \cup Chk("true_values", CloseV(s.x, ev.syn[key], E9))
                                         \cup Chk("recovered_values", CloseV(s.y, res[key].v, E9))
                                         \cup Chk("rmse", Shows(s.figs, "RMSE", Rmse(ev.syn[key], res[key].v)))
                                         \cup Chk("interval_shown", s.haserr = errs)
                                         \cup (IF ~(errs /\ s.haserr) THEN {}
                                               ELSE Chk("intervals", \A i \in 1..n : Bar(s.lo[i], res[ci].v[1][i]) /\ Bar(s.hi[i], res[ci].v[2][i]))
                                                    \cup Chk("ci_percentage", Shows(s.figs, "CI%", Percent(ev.syn[key], res[key].v, res[ci].v[1], res[ci].v[2]))))
                                 : k \in 1..Len(ms) }
                 : key \in DOMAIN ev.syn }

\* one figure per dataset; pair k compares target model k with compared model k
ScatterBad(ev) ==
    IF ev.err # "" THEN {"raised"}
    ELSE Chk("figures", ev.nfig = ev.nset)
         \cup UNION { LET p == ev.pairs[k]
                          n == Len(p.target)
                          diff == [i \in 1..n |-> NSub(p.compared[i], p.target[i])]
                      IN IF Len(p.series) # 1 THEN {"scatter"}
                         ELSE Chk("scatter", CloseV(p.series[1].x, p.target, E9) /\ CloseV(p.series[1].y, p.compared, E9) /\ p.series[1].name = p.label)
                              \cup Chk("axis_names", p.xl = p.tt /\ p.yl = p.ct)
                              \cup Chk("histogram", p.count = n)
                              \cup Chk("difference", Shows(p.figs, "mean", Mean(diff)) /\ Shows(p.figs, "std", StdP(diff)))
                              \cup Chk("plcc", Shows(p.figs, "plcc", Pearson(p.target, p.compared)))
                              \cup (IF NearTie(p.target, E9, FALSE) \/ NearTie(p.compared, E9, FALSE) THEN {}
                                    ELSE Chk("srocc", Shows(p.figs, "srocc", Spearman(p.target, p.compared))))
                    : k \in 1..Len(ev.pairs) }
=============================================================================
