---------------------------- MODULE SurealMetrics ----------------------------
(***************************************************************************)
(* Performance metrics (C19) and numeric helpers (C24).                    *)
(***************************************************************************)
EXTENDS SurealBase

\* sorted copy of a sequence without NaN (insertion)
RECURSIVE InsertN(_, _)
InsertN(s, a) == IF s = <<>> THEN <<a>> ELSE IF NCmp(a, s[1]) <= 0 THEN <<a>> \o s ELSE <<s[1]>> \o InsertN(Tail(s), a)
RECURSIVE SortN(_, _, _)
SortN(s, i, acc) == IF i > Len(s) THEN acc ELSE SortN(s, i + 1, InsertN(acc, s[i]))
Sorted(s) == SortN(s, 1, <<>>)
Median(s) == LET t == Sorted(s) n == Len(t)
             IN IF n % 2 = 1 THEN t[(n + 1) \div 2] ELSE NDiv(NAdd(t[n \div 2], t[n \div 2 + 1]), NInt(2))
Aggregate(s, how) == CASE how = "mean" -> Mean(s)
                       [] how = "median" -> Median(s)
                       [] how = "max" -> MaxN(s)
                       [] how = "min" -> MinN(s)
                       [] how = "first" -> s[1]
\* a ground truth is [list |-> BOOLEAN, v |-> scores]
Reduced(gs, how) == [i \in 1..Len(gs) |-> IF gs[i].list THEN Aggregate(gs[i].v, how) ELSE gs[i].v[1]]

Rmse(xs, ys) == NSqrt(NDiv(NSum([i \in 1..Len(xs) |-> Sq(NSub(xs[i], ys[i]))]), NInt(Len(xs))))
Pairs(n) == { p \in (1..n) \X (1..n) : p[1] < p[2] }
Sgn(a, b) == NCmp(a, b)
Kendall(xs, ys) ==
    LET P == Pairs(Len(xs))
        con == Cardinality({ p \in P : Sgn(xs[p[1]], xs[p[2]]) * Sgn(ys[p[1]], ys[p[2]]) > 0 })
        dis == Cardinality({ p \in P : Sgn(xs[p[1]], xs[p[2]]) * Sgn(ys[p[1]], ys[p[2]]) < 0 })
        tx == Cardinality({ p \in P : Sgn(xs[p[1]], xs[p[2]]) = 0 })
        ty == Cardinality({ p \in P : Sgn(ys[p[1]], ys[p[2]]) = 0 })
        n0 == Cardinality(P)
    IN NDiv(NInt(con - dis), NMul(NSqrt(NInt(n0 - tx)), NSqrt(NInt(n0 - ty))))

\* enable_mapping: the logistic curve between min - 0.1 and max + 0.1 of the ground truth whose
\* logit is the least-squares line through (logit of ground truth, prediction)
MapFit(g, xs) ==
    LET lo == TLCEval(NSub(MinN(g), Ratio(1, 10)))
        hi == TLCEval(NAdd(MaxN(g), Ratio(1, 10)))
        z  == TLCEval([i \in 1..Len(g) |-> NLn(NDiv(NSub(g[i], lo), NSub(hi, g[i])))])
        mz == TLCEval(Mean(z))
        mx == TLCEval(Mean(xs))
        sz == TLCEval(SumSqDev(z, mz))
        b  == TLCEval(IF Lt(sz, E5) THEN Zero
              ELSE NDiv(NSum([i \in 1..Len(g) |-> NMul(NSub(z[i], mz), NSub(xs[i], mx))]), sz))
        a  == TLCEval(NSub(mx, NMul(b, mz)))
        ok == Len(g) = Len(xs) /\ Lt(E5, NAbs(b))
        t  == TLCEval(IF ok THEN [i \in 1..Len(xs) |-> NDiv(NSub(xs[i], a), b)] ELSE <<>>)
        fit == ok /\ \A i \in 1..Len(xs) : Lt(NAbs(t[i]), NInt(25))
    IN [ok |-> TLCEval(fit),
        y |-> TLCEval(IF fit THEN [i \in 1..Len(xs) |-> NAdd(lo, NDiv(NSub(hi, lo), NAdd(One, NExp(NNeg(t[i])))))] ELSE <<>>)]

MetricBad(ev) ==
    LET g == Reduced(ev.gt, ev.aggr)
        fit == TLCEval(IF ev.map /\ Len(ev.gt) = Len(ev.pred) THEN MapFit(g, ev.pred) ELSE [ok |-> TRUE, y |-> ev.pred])
        p == fit.y
        undecided == ev.metric \in {"SRCC", "KENDALL"} /\ (NearTie(g, E9, ev.exact) \/ NearTie(p, E9, TRUE))
        const == Cardinality(Range(g)) = 1 \/ Cardinality(Range(p)) = 1
        \* a constant vector of rounded means may not be constant in floating point
        constund == const /\ ev.metric # "RMSE" /\ ~ev.exact
        want == CASE ev.metric = "RMSE" -> Rmse(g, p)
                  [] ev.metric = "PCC" -> Pearson(g, p)
                  [] ev.metric = "SRCC" -> Spearman(g, p)
                  [] ev.metric = "KENDALL" -> Kendall(g, p)
    IN IF Len(ev.gt) # Len(ev.pred) THEN Chk("unequal_lengths", ev.err # "")
       ELSE IF ~fit.ok THEN {}
       ELSE IF ev.err # "" THEN Chk("raised", Len(p) < 2)
       ELSE IF ev.score.t # "num" THEN {"score_kind"}
       ELSE IF undecided \/ constund THEN {}
       ELSE Chk("score", Close(ev.score.v, IF const /\ ev.metric # "RMSE" THEN NaN ELSE want, IF ev.map THEN E7 ELSE Eps(8)))
            \cup Chk("inputs_changed", ev.kept)

----------------------------------------------------------------------------
(* C24 *)
Col(a, j) == [i \in 1..Len(a) |-> a[i][j]]
WMean(xs, ws) ==
    LET here == Positions(Len(xs), LAMBDA i : ~IsNaN(xs[i]))
        num == NSum([k \in 1..Len(here) |-> NMul(xs[here[k]], ws[here[k]])])
        den == NSum([k \in 1..Len(here) |-> ws[here[k]]])
    IN NDiv(num, den)
WMeanBad(ev) ==
    LET a == ev.a
        want == IF ev.axis = 0 THEN [j \in 1..Len(a[1]) |-> WMean(Col(a, j), ev.w)] ELSE [i \in 1..Len(a) |-> WMean(a[i], ev.w)]
    IN Chk("weighed_nanmean_2d", ev.res.t = "vec" /\ CloseV(ev.res.v, want, E9))

HistcBad(ev) ==      \* res: Seq of <<value, count>>
    LET d == DropNaN(ev.xs)
    IN Chk("histc", /\ { ev.res[i][1] : i \in 1..Len(ev.res) } = Range(d)
                    /\ Len(ev.res) = Cardinality(Range(d))
                    /\ \A i \in 1..Len(ev.res) : ev.res[i][2] = Cardinality({ k \in 1..Len(d) : d[k] = ev.res[i][1] }))

(* equal-width bins over [min, max]; the last one is closed *)
Edges(xs, b) == LET lo0 == MinN(xs) hi0 == MaxN(xs)
                    lo == IF lo0 = hi0 THEN NSub(lo0, Ratio(1, 2)) ELSE lo0
                    hi == IF lo0 = hi0 THEN NAdd(hi0, Ratio(1, 2)) ELSE hi0
                IN [k \in 1..(b + 1) |-> NAdd(lo, NMul(NSub(hi, lo), Ratio(k - 1, b)))]
\* values on an inner edge are not decided (rounding), unless everything is exact
EdgeTie(xs, ed, exact) == ~exact /\ \E i \in 1..Len(xs), k \in 2..(Len(ed) - 1) : Close(xs[i], ed[k], E9)
\* the last bin ends at the largest value (automatic bins) or at its own edge (given ones)
BinCount(xs, ed, k, top) == Cardinality({ i \in 1..Len(xs) : Le(ed[k], xs[i]) /\ (Lt(xs[i], ed[k + 1]) \/ (k + 1 = Len(ed) /\ xs[i] = top)) })
HistBad(ev) ==
    LET given == Len(ev.edges) > 0
        ed == TLCEval(IF given THEN ev.edges ELSE Edges(ev.xs, ev.bins))
        b == Len(ed) - 1
        top == IF given THEN ed[b + 1] ELSE MaxN(ev.xs)
        cnt == TLCEval([k \in 1..b |-> BinCount(ev.xs, ed, k, top)])
        RECURSIVE Cum(_)
        Cum(k) == IF k = 0 THEN 0 ELSE Cum(k - 1) + cnt[k]
        n == Cum(b)
        pos == IF ev.fn = "get_cdf" THEN [k \in 1..b |-> ed[k + 1]] ELSE [k \in 1..b |-> NDiv(NAdd(ed[k], ed[k + 1]), NInt(2))]
        val == IF ev.fn = "get_cdf" THEN [k \in 1..b |-> Ratio(Cum(k), n)]
               ELSE IF ev.density THEN [k \in 1..b |-> NDiv(Ratio(cnt[k], n), NSub(ed[k + 1], ed[k]))]
               ELSE [k \in 1..b |-> NInt(cnt[k])]
    IN Chk(ev.fn \o "_positions", ev.res2.t = "vec" /\ CloseV(ev.res2.v, pos, E9))
       \cup (IF EdgeTie(ev.xs, ed, ev.exact) THEN {} ELSE Chk(ev.fn \o "_values", ev.res.t = "vec" /\ CloseV(ev.res.v, val, E9)))

\* density of U(loc1 +- s1/2) + U(loc2 +- s2/2): overlap of the two boxes
UniSum(x, l1, s1, l2, s2) ==
    LET z == NSub(NSub(x, l1), l2)
        h1 == NDiv(s1, NInt(2)) h2 == NDiv(s2, NInt(2))
        lo == NMax(NNeg(h1), NSub(z, h2))
        hi == NMin(h1, NAdd(z, h2))
    IN IF Lt(lo, hi) THEN NDiv(NSub(hi, lo), NMul(s1, s2)) ELSE Zero
Logistic(x, l, s) == LET e == NExp(NNeg(NAbs(NDiv(NSub(x, l), s)))) IN NDiv(e, NMul(s, Sq(NAdd(One, e))))

\* density of the sum of two logistics: Simpson's rule on [-40 s, 40 s] of the narrower one
SimpN == 320
ConvLogis(x, l1, s1, l2, s2) ==
    LET z == NSub(NSub(x, l1), l2)
        sa == NMin(s1, s2) sb == NMax(s1, s2)
        w == NMul(sa, NInt(30))
        h == NDiv(NMul(w, NInt(2)), NInt(SimpN))
        F(k) == LET u == NAdd(NNeg(w), NMul(h, NInt(k))) IN NMul(Logistic(u, Zero, sa), Logistic(NSub(z, u), Zero, sb))
        C(k) == IF k = 0 \/ k = SimpN THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2
    IN NMul(NDiv(h, NInt(3)), NSum([i \in 1..(SimpN + 1) |-> NMul(NInt(C(i - 1)), F(i - 1))]))
ConvGauss(x, s1, s2) == Gauss(x, Zero, NSqrt(NAdd(Sq(s1), Sq(s2))))

EachOk(ev, F(_), tol) == ev.res.t = "vec" /\ Len(ev.res.v) = Len(ev.rows) /\ \A i \in 1..Len(ev.rows) : Close(ev.res.v[i], F(ev.rows[i]), tol)
\* a density is compared relative to its scale: value * scale
EachRel(ev, F(_), S(_), tol) == ev.res.t = "vec" /\ Len(ev.res.v) = Len(ev.rows)
                                /\ \A i \in 1..Len(ev.rows) : Close(NMul(ev.res.v[i], S(ev.rows[i])), NMul(F(ev.rows[i]), S(ev.rows[i])), tol)

\* first position of an option in argv[begin..end) (0-based), or -1
FirstOpt(argv, b, e, o) == LET P == { i \in b..(e - 1) : argv[i + 1] = o } IN IF P = {} THEN -1 ELSE CHOOSE i \in P : \A j \in P : i <= j
CmdBad(ev) ==
    LET p == FirstOpt(ev.argv, ev.b, ev.e, ev.opt)
    IN Chk("cmd_option_exists", ev.exists = (p >= 0))
       \cup Chk("get_cmd_option", IF p >= 0 /\ p + 1 < ev.e THEN ev.hasval /\ ev.val = ev.argv[p + 2] ELSE ~ev.hasval)

\* numerical inverse of a strictly monotonic function a * g(x) + b on a domain
InvG(fam, x) == CASE fam = "lin" -> x [] fam = "cub" -> NAdd(x, NMul(x, Sq(x))) [] fam = "exp" -> NExp(x)
InvF(ev, x) == NAdd(NMul(ev.a, InvG(ev.fam, x)), ev.b)
InverseBad(ev) ==
    LET up == Lt(Zero, ev.a)
        flo == InvF(ev, ev.lo) fhi == InvF(ev, ev.hi)
        low == ev.dom # "none" high == ev.dom = "both"
        tol(y) == NMul(Eps(3), NAdd(One, NAbs(y)))
        \* beyond an end of the image, or on an open end
        Beyond(y, f, dir) == LET d == IF up = dir THEN NSub(y, f) ELSE NSub(f, y) IN Lt(Eps(6), d)
        On(y, f) == Le(NAbs(NSub(y, f)), Eps(6))
        Out(y) == (low /\ (Beyond(y, flo, FALSE) \/ (ev.openlo /\ On(y, flo)))) \/ (high /\ (Beyond(y, fhi, TRUE) \/ (ev.openhi /\ On(y, fhi))))
        out == \E i \in 1..Len(ev.ys) : Out(ev.ys[i])
        edge == \E i \in 1..Len(ev.ys) : (low /\ On(ev.ys[i], flo)) \/ (high /\ On(ev.ys[i], fhi))
    IN IF ev.fault # "" THEN Chk("inverse_bad_arguments", ev.err # "")
       ELSE IF out /\ ~edge THEN Chk("inverse_outside_image", ev.err = "ValueError")
       ELSE IF out THEN {}          \* an open end, up to rounding
       ELSE IF ev.err # "" THEN Chk("inverse_raised", edge)
       ELSE IF ~(ev.res.t = "vec" /\ Len(ev.res.v) = Len(ev.ys)) THEN {"inverse_shape"}
       ELSE Chk("inverse", \A i \in 1..Len(ev.ys) : LET x == ev.res.v[i] IN
                /\ ~IsNaN(x)
                /\ (low => Le(NSub(ev.lo, Eps(6)), x)) /\ (high => Le(x, NAdd(ev.hi, Eps(6))))
                /\ Le(NAbs(NSub(InvF(ev, x), ev.ys[i])), tol(ev.ys[i])))

NumBad(ev) ==
    IF ev.fn = "inverse" THEN InverseBad(ev)
    \* an external command runs once; anything but exit status 0 is an error
    ELSE IF ev.fn = "process" THEN Chk("process_ran_once", ev.ran = 1)
                                   \cup Chk("run_process", IF ev.code = 0 THEN ev.err = "" /\ ev.res.t = "num" /\ ev.res.v = Zero ELSE ev.err # "")
    ELSE IF ev.err # "" THEN {"raised"}
    ELSE CASE ev.fn = "weighed_nanmean_2d" -> WMeanBad(ev)
           [] ev.fn = "histc" -> HistcBad(ev)
           [] ev.fn \in {"get_cdf", "get_pdf"} -> HistBad(ev)
           [] ev.fn = "gaussian" -> Chk("vectorized_gaussian", EachRel(ev, LAMBDA r : Gauss(r[1], r[2], r[3]), LAMBDA r : r[3], E9))
           [] ev.fn = "logistic" -> Chk("vectorized_logistic", EachRel(ev, LAMBDA r : Logistic(r[1], r[2], r[3]), LAMBDA r : r[3], E9))
           [] ev.fn = "uniforms" -> Chk("convolution_of_two_uniforms",
                   EachRel(ev, LAMBDA r : UniSum(r[1], r[2], r[3], r[4], r[5]), LAMBDA r : NMax(r[3], r[5]), E9))
           [] ev.fn = "logistics" -> Chk("vectorized_convolution_of_two_logistics",
                   EachOk(ev, LAMBDA r : ConvLogis(r[1], r[2], r[3], r[4], r[5]), Ratio(ev.tol, 10000)))
           [] ev.fn = "convolve" -> Chk("ConvolveTwoPdf", EachOk(ev, LAMBDA r : ConvGauss(r[1], r[2], r[3]), Ratio(ev.tol, 10000)))
           [] ev.fn = "cmd" -> CmdBad(ev)
           [] ev.fn = "filename" -> Chk("file_names", ev.res[2] = ev.stem /\ ev.res[1] = (IF ev.ext = "" THEN ev.stem ELSE ev.stem \o "." \o ev.ext)
                                                     /\ (ev.ext # "" => ev.res[3] = ev.ext))
           [] ev.fn = "indices" -> Chk("indices", ev.res = Positions(Len(ev.xs), LAMBDA i : Lt(ev.at, ev.xs[i])))
           [] ev.fn = "unique" -> Chk("get_unique_sorted_list", Len(ev.res) = Cardinality(Range(ev.xs)) /\ Range(ev.res) = Range(ev.xs)
                                        /\ \A i \in 1..(Len(ev.res) - 1) : Lt(ev.res[i], ev.res[i + 1]))
           [] OTHER -> {"unknown_function"}
=============================================================================
