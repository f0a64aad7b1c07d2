------------------------------ MODULE SurealLik ------------------------------
(***************************************************************************)
(* The likelihood function of the MLE models at given parameters (C10):    *)
(* the logarithm of the density of the sum of the observer's term (mean    *)
(* b_s, deviation v_s) and the content's term (mean q_e, deviation a_c),   *)
(* both of the asked law, summed over the present votes of an observer     *)
(* (axis 0) or of a video (axis 1).                                        *)
(***************************************************************************)
EXTENDS SurealMetrics, SurealMLE

VoteDensity(pdf, x, b, v, q, a) ==
    CASE pdf = "gaussian" -> Gauss(x, NAdd(q, b), NSqrt(NAdd(Sq(v), Sq(a))))
      [] pdf = "uniform"  -> UniSum(x, b, NMul(v, NSqrt(NInt(12))), q, NMul(a, NSqrt(NInt(12))))
      [] pdf = "logistic" -> LET k == NDiv(NSqrt(NInt(3)), NDiv(Pi2, Two)) IN ConvLogis(x, b, NMul(v, k), q, NMul(a, k))
LoglikBad(ev) ==
    LET E == Len(ev.x) S == Len(ev.x[1])
        cell(e, s) == LET xs == DropNaN(ev.x[e][s])
                      IN NSum([i \in 1..Len(xs) |-> NLn(VoteDensity(ev.pdf, xs[i], ev.b[s], ev.v[s], ev.q[e], ev.a[ev.cids[e] + 1]))])
        want == IF ev.axis = 0 THEN [s \in 1..S |-> NSum([e \in 1..E |-> cell(e, s)])] ELSE [e \in 1..E |-> NSum([s \in 1..S |-> cell(e, s)])]
    IN IF ev.pdf = "other" THEN Chk("unknown_law_accepted", ev.err # "")
       ELSE IF ev.err # "" THEN {"raised"}
       ELSE Chk("loglikelihood_fcn", ev.res.t = "vec" /\ CloseV(ev.res.v, want, IF ev.pdf = "logistic" THEN Ratio(3, 100) ELSE E7))
=============================================================================
