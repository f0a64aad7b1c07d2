------------------------------ MODULE SurealSub ------------------------------
(***************************************************************************)
(* Sub-sampled statistics and synthetic validation (C27).                  *)
(***************************************************************************)
EXTENDS SurealReport

\* the dataset whose list-style votes are the columns of tensor x
OfTensor(ds, x) ==
    [ds EXCEPT !.dis = [e \in 1..Len(ds.dis) |->
        [ds.dis[e] EXCEPT !.style = "list",
                          !.votes = [s \in 1..Len(x[e]) |-> [k |-> "", o |-> s, v |-> x[e][s], rep |-> Len(x[e][s]) > 1, kind |-> "list"]]]]]
Nameless(res) == [k \in DOMAIN res \ {"observers"} |-> res[k]]
SubCall(model, kw, res) == [model |-> model, kw |-> kw, err |-> "", res |-> res]

\* columns of y matched, in order, with different columns of x
RECURSIVE MatchCols(_, _, _, _)
MatchCols(x, y, j, acc) ==
    IF j > NS(y) THEN acc
    ELSE LET C == { s \in 1..NS(x) : IndexOf(acc, s) = 0 /\ \A e \in 1..Len(x) : x[e][s] = y[e][j] }
         IN MatchCols(x, y, j + 1, Append(acc, IF C = {} THEN 0 ELSE CHOOSE s \in C : \A q \in C : s <= q))

\* one run of get_sample_stats on one dataset: results of the models ev.models, the one at ev.mos being MOS
OneStatBad(ds, ev, rs) ==
    IF Len(rs) # Len(ev.models) THEN {"models"}
    ELSE IF ~ev.hasfrac THEN UNION { ModelBad(ds, SubCall(ev.models[i], ev.kw, rs[i])) : i \in 1..Len(rs) }
    ELSE IF ~IsKind(rs[ev.mos], "raw_scores", "ten") THEN {"raw_scores"}
    ELSE LET x == Tensor(ds)
             y == rs[ev.mos].raw_scores.v
             n == NTrunc(NMul(ev.frac, NInt(NumObs(ds))))
             sel == TLCEval(MatchCols(x, y, 1, <<>>))
             sub == TLCEval(OfTensor(ds, y))
         IN Chk("number_of_observers", NS(y) = n)
            \cup Chk("videos", Len(y) = NumDis(ds))
            \cup (IF Len(y) # NumDis(ds) THEN {}
                  ELSE Chk("all_votes_of_distinct_observers", 0 \notin Range(sel))
                       \cup UNION { ModelBad(sub, SubCall(ev.models[i], ev.kw, Nameless(rs[i]))) : i \in 1..Len(rs) }
                       \cup (IF ListStyle(ds) \/ 0 \in Range(sel) THEN {}
                             ELSE Chk("observers", \A i \in 1..Len(rs) : IsKind(rs[i], "observers", "ranks") /\ rs[i].observers.v = [j \in 1..Len(sel) |-> ObsRanks(ds)[sel[j]]])))

\* ev.runs[r][d][i]: call r, dataset d, model i
StatsBad(dss, ev) ==
    IF ev.bad THEN Chk("fraction_refused", ev.err # "")
    ELSE IF ev.err # "" THEN {"raised"}
    ELSE IF \E r \in 1..Len(ev.runs) : Len(ev.runs[r]) # Len(dss) THEN {"datasets"}
    ELSE UNION { OneStatBad(dss[d], ev, ev.runs[r][d]) : r \in 1..Len(ev.runs), d \in 1..Len(dss) }
         \cup Chk("same_seed_differs", ~ev.seeded \/ \A r \in 1..Len(ev.runs) : ev.runs[r] = ev.runs[1])

----------------------------------------------------------------------------
Percent(xs, ys, lo, hi) ==
    LET in == { i \in 1..Len(xs) : Le(NSub(ys[i], lo[i]), xs[i]) /\ Le(xs[i], NAdd(ys[i], hi[i])) }
    IN NDiv(NInt(100 * Cardinality(in)), NInt(Len(xs)))
CiBad(ev) ==
    IF ~(Len(ev.xs) = Len(ev.ys) /\ Len(ev.ci) = 2 /\ \A k \in 1..Len(ev.ci) : Len(ev.ci[k]) = Len(ev.xs)) THEN Chk("shape_refused", ev.err # "")
    ELSE IF ev.err # "" THEN {"raised"}
    ELSE Chk("ci_percentage", EqNum(ev.res, "perc", Percent(ev.xs, ev.ys, ev.ci[1], ev.ci[2]), E9))

SynPerc(ev, res, key) ==
    LET rk == key \o "_ci95"
        ok == key \o "_ci_perc"
    IN IF ~(Given(res, key) /\ Given(res, rk) /\ key \in DOMAIN ev.syn) THEN Chk(ok \o "_absent", ~Has(res, ok))
       ELSE IF Len(res[key].v) # Len(ev.syn[key]) THEN {}
       ELSE Chk(ok, EqNum(res, ok, Percent(ev.syn[key], res[key].v, res[rk].v[1], res[rk].v[2]), E9))
SynthBad(ds, ev) ==
    IF ev.bad THEN Chk("probability_refused", ev.err # "")
    ELSE IF ev.err # "" THEN Chk("raised", \E i \in 1..Len(ev.models) : ModelBad(ds, [model |-> ev.models[i], kw |-> ev.kw, err |-> ev.err, res |-> [none |-> 0]]) = {})
    ELSE Chk("models", DOMAIN ev.res = Range(ev.models))
         \cup Chk("observers_and_videos", NumObs(ds) = ev.nobs /\ NumDis(ds) = ev.nvid)
         \cup Chk("copy_path", ev.path)
         \cup Chk("inputs_changed", ev.kept)
         \cup (IF DOMAIN ev.res # Range(ev.models) THEN {} ELSE
               UNION { ModelBad(ds, SubCall(m, ev.kw, Nameless(ev.res[m]))) : m \in Range(ev.models) }
               \cup UNION { SynPerc(ev, ev.res[m], k) : m \in Range(ev.models), k \in {"quality_scores", "observer_bias", "observer_inconsistency"} }
               \cup Chk("runtime", \A m \in Range(ev.models) : Has(ev.res[m], "runtime") = ev.timed))
=============================================================================
