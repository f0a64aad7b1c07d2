------------------------------ MODULE SurealSim ------------------------------
(***************************************************************************)
(* The simulation readers (C18): which cells of the base tensor may change *)
(* and to what.                                                            *)
(* ev: [kind, sel (0-based), beh, hasp, p, given (names of the parameters  *)
(*      passed), seeded, err, tensor, again (a second reading from the same*)
(*      state), back (the exported dataset, read), nobs, ndis, cids, par]  *)
(***************************************************************************)
EXTENDS SurealData

Has1(ev, k) == k \in Range(ev.given)
SelOk(ev, n) == \A i \in 1..Len(ev.sel) : ev.sel[i] >= 0 /\ ev.sel[i] < n
SelDistinct(ev) == Cardinality(Range(ev.sel)) = Len(ev.sel)
Behaviours == {"shuffle", "flip", "min", "mid", "max", "constant"}

\* is the reader's construction to be accepted?
SimValid(ds, ev) ==
    CASE ev.kind = "missing" -> Has1(ev, "missing_probability")
      [] ev.kind = "corrupt_data" -> Has1(ev, "corrupt_probability")
      [] ev.kind = "select_subject" -> Has1(ev, "selected_subjects") /\ SelOk(ev, NumObs(ds))
      [] ev.kind = "select_video" -> Has1(ev, "selected_dis_videos") /\ SelOk(ev, NumDis(ds))
      [] ev.kind = "corrupt_subject" -> Has1(ev, "selected_subjects") /\ SelOk(ev, NumObs(ds)) /\ SelDistinct(ev)
                                        /\ (ev.beh = "" \/ ev.beh \in Behaviours)
      [] ev.kind \in {"synthetic", "logistic"} ->
            /\ {"quality_scores", "observer_bias", "observer_inconsistency", "content_bias", "content_ambiguity"} \subseteq Range(ev.given)
            /\ Len(ev.par.q) = NumDis(ds)
            /\ Len(ev.par.b) = Len(ev.par.v)
            /\ Len(ev.par.mu) = Len(ds.refs)
            /\ Len(ev.par.de) = Len(ds.refs)
            /\ ev.seedkind # "text"

\* whole rows (the repetitions of one video) of one observer
Column(x, s) == [e \in 1..Len(x) |-> x[e][s]]
SameCells(x, y, D(_, _)) == \A e \in 1..Len(x), s \in 1..Len(x[1]) : D(e, s) \/ y[e][s] = x[e][s]
AllCells(x) == Cat([e \in 1..Len(x) |-> Cat(x[e])])
ShapeIs(y, E, S, R) == Len(y) = E /\ \A e \in 1..E : Len(y[e]) = S /\ \A s \in 1..S : Len(y[e][s]) = R

\* a share of n trials with probability p, six standard deviations (plus one)
ShareOk(k, n, p) ==
    LET m == NMul(NInt(n), p)
        sd == NSqrt(NMul(m, NSub(One, p)))
    IN Le(NAbs(NSub(NInt(k), m)), NAdd(One, NMul(NInt(6), sd)))
CountCells(x, T(_, _, _)) ==
    Cardinality({ c \in (1..Len(x)) \X (1..Len(x[1])) \X (1..Len(x[1][1])) : T(c[1], c[2], c[3]) })

InRange(a, lo, hi) == Le(lo, a) /\ Le(a, hi)
SubBad(x, y, ev) ==
    LET lo == MinN(AllCells(x))
        hi == MaxN(AllCells(x))
        mid == NDiv(NAdd(lo, hi), NInt(2))
        beh == IF ev.beh = "" THEN "shuffle" ELSE ev.beh
        chosen == { ev.sel[i] + 1 : i \in 1..Len(ev.sel) }
        E == Len(x)
        all == ~ev.hasp \/ Le(One, ev.p)
        Flipped(a, b) == IF IsNaN(a) THEN IsNaN(b) ELSE Close(b, NSub(NAdd(lo, hi), a), Eps(12))
        RowFlipped(e, s) == \A r \in 1..Len(x[e][s]) : Flipped(x[e][s][r], y[e][s][r])
        \* a missing vote may stay missing or be filled with the constant
        RowIs(e, s, c) == \A r \in 1..Len(x[e][s]) : y[e][s][r] = c \/ (IsNaN(x[e][s][r]) /\ IsNaN(y[e][s][r]))
                                                     \/ (~IsNaN(y[e][s][r]) /\ Close(y[e][s][r], c, Eps(12)))
        Row(e, s) == y[e][s] = x[e][s]
        Only(T(_, _)) == \A e \in 1..E, s \in chosen : T(e, s) \/ (~all /\ Row(e, s))
        Moved(s) == Cardinality({ e \in 1..E : ~Row(e, s) })
        consts(s) == { y[e][s][r] : e \in 1..E, r \in 1..Len(x[1][1]) } \ {NaN}
    IN Chk("others_changed", \A e \in 1..E, s \in (1..Len(x[1])) \ chosen : Row(e, s))
       \cup (CASE beh = "shuffle" ->
                 Chk("shuffle_not_a_permutation", \A s \in chosen : SameBag(Column(x, s), Column(y, s)))
                 \cup Chk("not_shuffled", \A s \in chosen : ~(all /\ E >= 12 /\ Cardinality(Range(Column(x, s))) >= 10 /\ Moved(s) = 0))
            [] beh = "flip" -> Chk("flip", Only(RowFlipped))
            [] beh = "min"  -> Chk("min", Only(LAMBDA e, s : RowIs(e, s, lo)))
            [] beh = "max"  -> Chk("max", Only(LAMBDA e, s : RowIs(e, s, hi)))
            [] beh = "mid"  -> Chk("mid", Only(LAMBDA e, s : RowIs(e, s, mid)))
            [] beh = "constant" ->
                 IF all THEN Chk("constant", \A s \in chosen : Cardinality(consts(s)) = 1 /\ \A c \in consts(s) : InRange(c, lo, hi)
                                             /\ \A e \in 1..E, r \in 1..Len(x[1][1]) : IsNaN(y[e][s][r]) => IsNaN(x[e][s][r]))
                 ELSE Chk("constant", \A s \in chosen : \E c \in consts(s) \cup {NaN} :
                          (IsNaN(c) \/ InRange(c, lo, hi)) /\ \A e \in 1..E : Row(e, s) \/ (~IsNaN(c) /\ RowIs(e, s, c))))
       \* the number of videos picked for corruption; a shuffle may leave a picked video in place
       \cup (IF ev.hasp /\ beh \in {"flip"} /\ Lt(ev.p, One)
             THEN LET ch == Cardinality({ c \in (1..E) \X chosen : ~Row(c[1], c[2]) })
                      fix == Cardinality({ c \in (1..E) \X chosen : RowFlipped(c[1], c[2]) /\ Row(c[1], c[2]) })
                  IN Chk("share", fix > 0 \/ ShareOk(ch, E * Len(ev.sel), ev.p))
             ELSE {})
       \cup (IF ev.hasp /\ ev.p = Zero THEN Chk("probability_zero", y = x) ELSE {})

SynBad(ds, y, ev) ==
    LET p == ev.par
        E == NumDis(ds) S == Len(p.b)
        M(e, s) == NAdd(NAdd(p.q[e], p.b[s]), p.mu[ds.dis[e].cid + 1])
        V(e, s) == NAdd(NAdd(Sq(p.v[s]), Sq(p.de[ds.dis[e].cid + 1])), IF Len(p.phi) = E THEN Sq(p.phi[e]) ELSE Zero)
        tail == IF ev.kind = "logistic" THEN NInt(25) ELSE NInt(9)
        Cell(e, s) == y[e][s][1]
        noisy == { c \in (1..E) \X (1..S) : V(c[1], c[2]) # Zero }
        Z(c) == NDiv(Sq(NSub(Cell(c[1], c[2]), M(c[1], c[2]))), V(c[1], c[2]))
        zs == [i \in 1..(E * S) |-> LET e == ((i - 1) \div S) + 1 s == ((i - 1) % S) + 1
                                    IN IF V(e, s) = Zero THEN Zero ELSE Z(<<e, s>>)]
        n == Cardinality(noisy)
        tot == NSum(zs)
    IN IF ~ShapeIs(y, E, S, 1) THEN {"shape"}
       ELSE Chk("generative_mean", \A e \in 1..E, s \in 1..S :
                   IF V(e, s) = Zero THEN Close(Cell(e, s), M(e, s), Eps(12))
                   ELSE Le(NAbs(NSub(Cell(e, s), M(e, s))), NMul(tail, NSqrt(V(e, s)))))
            \cup Chk("generative_spread", n < 20 \/ Le(NAbs(NSub(tot, NInt(n))), NMul(NInt(8), NSqrt(NInt((IF ev.kind = "logistic" THEN 4 ELSE 2) * n)))))

SelDs(ds, sel) == [ds EXCEPT !.dis = [i \in 1..Len(sel) |-> ds.dis[sel[i] + 1]]]

SimTensorBad(ds, ev) ==
    LET x == TLCEval(Tensor(ds))
        y == ev.tensor.v
        E == Len(x) S == Len(x[1]) R == Len(x[1][1])
        sub == SelDs(ds, ev.sel)
    IN IF ev.tensor.t # "ten" THEN {"no_tensor"}
       ELSE CASE ev.kind = "select_subject" ->
                   Chk("selected_subjects", y = [e \in 1..E |-> [k \in 1..Len(ev.sel) |-> x[e][ev.sel[k] + 1]]])
                   \cup Chk("num_observers", ev.nobs = Len(ev.sel))
              [] ev.kind = "select_video" ->
                   Chk("selected_videos", y = Tensor(sub))
                   \cup Chk("num_dis_videos", ev.ndis = Len(ev.sel))
                   \cup Chk("content_ids", ev.cids = ContentIds(sub))
                   \cup Chk("is_ref", ev.isref = IsRef(sub))
              [] ev.kind \in {"synthetic", "logistic"} -> SynBad(ds, y, ev)
              [] ~ShapeIs(y, E, S, R) -> {"shape"}
              [] ev.kind = "missing" ->
                   Chk("only_removed", \A e \in 1..E, s \in 1..S, r \in 1..R : y[e][s][r] = x[e][s][r] \/ IsNaN(y[e][s][r]))
                   \cup Chk("share_removed", ShareOk(CountCells(x, LAMBDA e, s, r : ~IsNaN(x[e][s][r]) /\ IsNaN(y[e][s][r])), NumVotes(x), ev.p))
              [] ev.kind = "corrupt_data" ->
                   Chk("only_replaced", \A e \in 1..E, s \in 1..S, r \in 1..R : y[e][s][r] = x[e][s][r] \/ InRange(y[e][s][r], NMin(One, ds.ref), NMax(One, ds.ref)))
                   \cup Chk("share_replaced", ShareOk(CountCells(x, LAMBDA e, s, r : ~IsNaN(x[e][s][r]) /\ y[e][s][r] # x[e][s][r]), NumVotes(x), ev.p))
              [] ev.kind = "corrupt_subject" -> SubBad(x, y, ev)

SimBad(ds, ev) ==
    IF ~SimValid(ds, ev) THEN Chk("accepted_invalid", ev.err # "")
    ELSE IF ev.err # "" THEN {"raised"}
    ELSE SimTensorBad(ds, ev)
         \cup Chk("same_seed_differs", ev.again.t = "none" \/ ev.again = ev.tensor)
         \cup Chk("exported_tensor", ev.kind = "select_video" \/ ev.back = ev.tensor)
         \cup Chk("export_fields", ev.kind = "select_video" \/ ev.samefields)
=============================================================================
