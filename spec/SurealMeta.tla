------------------------------ MODULE SurealMeta ------------------------------
(***************************************************************************)
(* Related datasets give related results (C11).                            *)
(*                                                                         *)
(* Dataset b is a rewriting of dataset a: video i of b is video pv[i] of a,*)
(* observer j of b is observer po[j] of a, contents and paths are renamed, *)
(* votes may be written in another style, and every vote has c added.      *)
(***************************************************************************)
EXTENDS SurealMLE

IsPerm(p, n) == Len(p) = n /\ Range(p) = 1..n
\* b really is that rewriting of a (a sanity condition on the harness)
Rewritten(a, b, ev) ==
    LET x == TLCEval(Tensor(a)) y == TLCEval(Tensor(b)) ca == ContentIds(a) cb == ContentIds(b) ra == TLCEval(IsRef(a)) rb == TLCEval(IsRef(b))
    IN /\ Len(x) = Len(y) /\ NS(x) = NS(y) /\ NR(x) = NR(y)
       /\ IsPerm(ev.pv, Len(x)) /\ IsPerm(ev.po, NS(x))
       /\ \A i \in 1..Len(y), j \in 1..NS(y), r \in 1..NR(y) : Close(y[i][j][r], NAdd(x[ev.pv[i]][ev.po[j]][r], ev.c), Eps(12))
       /\ \A i, k \in 1..Len(y) : (cb[i] = cb[k]) <=> (ca[ev.pv[i]] = ca[ev.pv[k]])
       /\ \A i \in 1..Len(y) : rb[i] = ra[ev.pv[i]]
       /\ a.hasref = b.hasref /\ a.ref = b.ref /\ MaxCid(a) = MaxCid(b)

VidKeys  == {"quality_scores", "quality_scores_std", "quality_ambiguity"}
ObsKeys  == {"observer_bias", "observer_bias_std", "observer_inconsistency", "observer_inconsistency_std", "observer_scores_mean", "observer_scores_std",
             "observer_rejected_1st_stats", "observer_rejected_2nd_stats"}
ContKeys == {"content_ambiguity", "content_ambiguity_std"}
CiOf(K)  == { k \o "_ci95" : k \in K }
NumKeys  == {"dof", "loglikelihood", "aic", "bic"}
TenKeys  == {"raw_scores", "reconstructions"}
Ignored  == {"observers", "num_iter", "runtime"}

\* v2[i] = v1[p[i]] + c
PermV(v1, v2, p, c, tol) == Len(v1) = Len(p) /\ Len(v2) = Len(p) /\ \A i \in 1..Len(p) : Close(v2[i], NAdd(v1[p[i]], c), tol)
BothVec(r, s, k, t) == r[k].t = t /\ s[k].t = t
KeyOk(a, b, ev, r, s, k, off, keepa, keepb, tol) ==
    LET shift == IF k \in {"quality_scores", "observer_scores_mean", "raw_scores", "reconstructions"} THEN off ELSE Zero
        ca == ContentIds(a) cb == ContentIds(b)
        Content(u, w) == Len(u) = Len(w) /\ \A i \in 1..Len(ev.pv) : Close(w[cb[i] + 1], u[ca[ev.pv[i]] + 1], tol)
        Ci(P(_, _)) == BothVec(r, s, k, "mat") /\ Len(r[k].v) = 2 /\ Len(s[k].v) = 2 /\ P(r[k].v[1], s[k].v[1]) /\ P(r[k].v[2], s[k].v[2])
        \* observers of a tensor: all, or the accepted ones
        colsN(w) == IF w = Len(ev.po) THEN ev.po ELSE [j \in 1..Len(keepb) |-> IndexOf(keepa, ev.po[keepb[j]])]
        cols(u) == colsN(NS(u))
        Tens(u, w) == /\ Len(u) = Len(ev.pv) /\ Len(w) = Len(ev.pv) /\ NS(u) = NS(w) /\ Len(cols(u)) = NS(u) /\ Range(cols(u)) \subseteq 1..NS(u)
                      /\ \A i \in 1..Len(w) : \A j \in 1..NS(w) : CloseV(w[i][j], [q \in 1..Len(u[ev.pv[i]][cols(u)[j]]) |-> NAdd(u[ev.pv[i]][cols(u)[j]][q], shift)], tol)
    IN CASE k \in VidKeys /\ r[k].t = "ten" -> BothVec(r, s, k, "ten") /\ Tens(r[k].v, s[k].v)      \* per-subject scores
         [] k \in VidKeys -> BothVec(r, s, k, "vec") /\ PermV(r[k].v, s[k].v, ev.pv, shift, tol)
         [] k \in ObsKeys -> BothVec(r, s, k, "vec") /\ PermV(r[k].v, s[k].v, colsN(Len(r[k].v)), shift, tol)
         [] k \in ContKeys -> BothVec(r, s, k, "vec") /\ Content(r[k].v, s[k].v)
         [] k \in CiOf(VidKeys) -> Ci(LAMBDA u, w : PermV(u, w, ev.pv, Zero, tol))
         [] k \in CiOf(ObsKeys) -> Ci(LAMBDA u, w : PermV(u, w, colsN(Len(u)), Zero, tol))
         [] k \in CiOf(ContKeys) -> Ci(LAMBDA u, w : Content(u, w))
         [] k \in TenKeys -> BothVec(r, s, k, "ten") /\ Tens(r[k].v, s[k].v)
         [] k = "observer_rejected" -> r[k].t = s[k].t /\ Len(s[k].v) = Len(ev.po) /\ \A j \in 1..Len(ev.po) : s[k].v[j] = r[k].v[ev.po[j]]
         [] k \in NumKeys -> BothVec(r, s, k, "num") /\ Close(r[k].v, s[k].v, tol)
         [] OTHER -> k \in Ignored

\* every subject-content pair has the same total variance on both sides
SumsOk(a, b, ev, r, s) ==
    /\ \A k \in {"observer_inconsistency", "content_ambiguity"} : BothVec(r, s, k, "vec")
    /\ Len(r.observer_inconsistency.v) = Len(ev.po) /\ Len(s.observer_inconsistency.v) = Len(ev.po)
    /\ \A j \in 1..Len(ev.po), i \in 1..Len(ev.pv) :
           LET ca == ContentIds(a)[ev.pv[i]] + 1
               cb == ContentIds(b)[i] + 1
               v == r.observer_inconsistency.v[ev.po[j]]
               w == s.observer_inconsistency.v[j]
           IN ca <= Len(r.content_ambiguity.v) /\ cb <= Len(s.content_ambiguity.v)
              /\ LET y == r.content_ambiguity.v[ca]
                     z == s.content_ambiguity.v[cb]
                 IN Close(NAdd(NMul(v, v), NMul(y, y)), NAdd(NMul(w, w), NMul(z, z)), Eps(3))

Iterative == {"ap", "ap2", "mle", "mle_co", "mle_so", "legacy"}
MetaBad(a, b, ev) ==
    LET m == Registry[ev.model]
        kw == ev.kw
        ref == TLCEval(Refuses(a, m, kw))
        o == Effective(m, kw)
        r == ev.r1
        s == ev.r2
    IN IF ~Rewritten(a, b, ev) THEN {"harness_rewriting"}
       ELSE IF ref THEN Chk("not_refused", ev.e1 # "" /\ ev.e2 # "")
       ELSE LET p == TLCEval(Prep(a, o, <<>>))
                p2 == TLCEval(Prep(b, o, <<>>))
                \* decided by rounding: an ambiguous screening, a scale of zero, an iteration that does not converge
                open == p.zdeg \/ p.screen.amb \/ p2.screen.amb
                wild == m.fam \in Iterative /\ (ev.e1 # "" \/ ev.e2 # "" \/ \E q \in {r, s} : ~NoNaN(q, "quality_scores") \/ ~NoNaN(q, "observer_bias")
                            \/ ~NoNaN(q, "observer_inconsistency") \/ (m.fam \in {"mle", "mle_co", "mle_so"} /\ ~MleConverged(q))
                            \/ (m.fam \in {"ap", "ap2"} /\ IsKind(q, "num_iter", "num") /\ ~Lt(q.num_iter.v, NInt(999)))
                            \/ (\E k \in {"observer_inconsistency", "content_ambiguity"} : Has(q, k) /\ q[k].t = "vec" /\ \E i \in 1..Len(q[k].v) : Lt(q[k].v[i], Ratio(1, 20))))
                off == IF o.d \/ o.z \/ m.fam = "live" THEN Zero ELSE ev.c
                tol == IF m.fam \in {"mle", "mle_co", "mle_so", "legacy"} THEN Eps(4) ELSE IF m.fam \in {"ap", "ap2"} THEN E5 ELSE E7
            IN IF open \/ wild THEN {}
               ELSE IF m.fam = "ls" /\ ev.c # Zero THEN {}
               ELSE IF ev.e1 # "" \/ ev.e2 # "" THEN Chk("one_raises", ev.e1 # "" /\ ev.e2 # "")
               ELSE LET \* the full model fixes only the sums of a subject's and a content's variance; how a sum is shared is left to rounding
                        ridge == m.fam = "mle" /\ Has(r, "observer_inconsistency") /\ Has(s, "observer_inconsistency")
                                 /\ ~KeyOk(a, b, ev, r, s, "observer_inconsistency", off, p.keep, p2.keep, tol)
                        free == IF ridge THEN {"observer_inconsistency", "observer_inconsistency_std", "observer_inconsistency_ci95",
                                               "content_ambiguity", "content_ambiguity_std", "content_ambiguity_ci95"} ELSE {}
                        \* a video on which all agree has a likelihood decided by rounding
                        flat == IF \E q \in {r, s} : Has(q, "quality_ambiguity") /\ q.quality_ambiguity.t = "vec" /\ \E i \in 1..Len(q.quality_ambiguity.v) : Lt(q.quality_ambiguity.v[i], Eps(6))
                                THEN {"loglikelihood", "aic", "bic"} ELSE {}
                    IN Chk("keys", DOMAIN r \ Ignored = DOMAIN s \ Ignored)
                    \cup (IF ridge THEN Chk("variances", SumsOk(a, b, ev, r, s)) ELSE {})
                    \cup UNION { Chk(k, k \in DOMAIN s /\ KeyOk(a, b, ev, r, s, k, off, p.keep, p2.keep, tol)) : k \in DOMAIN r \ (Ignored \cup free \cup flat) }
=============================================================================
