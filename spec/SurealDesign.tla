---------------------------- MODULE SurealDesign ----------------------------
(***************************************************************************)
(* The specification itself, explored by TLC: an analysis is a behaviour   *)
(* that starts with some small dataset and applies the preprocessing steps *)
(* the options ask for, one at a time, then screens observers and reports. *)
(* The invariants are the laws the properties promise of every analysis.   *)
(***************************************************************************)
EXTENDS SurealAP, SurealPC

CONSTANTS Shapes0,       \* set of <<videos, observers, repetitions>>
          Scores,        \* the votes that may be given (integers)
          Gaps,          \* whether votes may be missing
          Prop           \* which property's space to explore

ShA == {<<2, 3, 1>>, <<2, 2, 1>>}
ShR == {<<2, 2, 2>>, <<1, 3, 1>>, <<3, 1, 1>>}
ShB == {<<3, 3, 1>>, <<2, 2, 2>>, <<2, 3, 1>>}
ShW == {<<2, 4, 1>>, <<4, 2, 1>>}
ShK == {<<2, 5, 1>>}

VARIABLES x, todo, o, b, rej, hist
vars == <<x, todo, o, b, rej, hist>>

Cell == { NInt(v) : v \in Scores } \cup (IF Gaps THEN {NaN} ELSE {})
Tensors == UNION { [1..d[1] -> [1..d[2] -> [1..d[3] -> Cell]]] : d \in Shapes0 }
\* every observer and every video has a vote
Usable(t) == /\ \A e \in 1..Len(t) : Cnt(Row(t, e)) > 0
             /\ \A s \in 1..NS(t) : Cnt(Col(t, s)) > 0

\* the dataset with that tensor, in list or in dict style; video 1 is its reference; all videos show one content
MkVotes(row, style) ==
    LET S == Len(row)
        V(s) == [k |-> "obs" \o ToString(s), o |-> s, v |-> IF style = "dict" THEN DropNaN(row[s]) ELSE row[s], rep |-> Len(row[s]) > 1]
        on == Positions(S, LAMBDA s : style # "dict" \/ Cnt(row[s]) > 0)
    IN [i \in 1..Len(on) |-> V(on[i])]
MkDs(t, style) ==
    [name |-> "d", hasref |-> TRUE, ref |-> NInt(5), refs |-> <<[cid |-> 0, path |-> "p1"]>>,
     dis |-> [e \in 1..Len(t) |-> [cid |-> 0, aid |-> e - 1, path |-> "p" \o ToString(e), style |-> style, votes |-> MkVotes(t[e], style)]]]

Opts == [d : BOOLEAN, z : BOOLEAN, b : BOOLEAN, rej : {"", "kurtosis", "pearson", "spearman"}]
OptsOf == CASE Prop \in {"C01", "C03", "C09"} -> { p \in Opts : ~p.d /\ ~p.z /\ ~p.b /\ p.rej = "" }
            [] Prop = "C04" -> { p \in Opts : p.d /\ ~p.b /\ p.rej = "" }
            [] Prop = "C05" -> { p \in Opts : p.z /\ ~p.b /\ p.rej = "" }
            [] Prop = "C06" -> { p \in Opts : p.b /\ ~p.z /\ p.rej = "" }
            [] Prop = "C07" -> { p \in Opts : p.rej = "kurtosis" /\ ~p.d /\ ~(p.z /\ p.b) }
            [] Prop = "C08" -> { p \in Opts : p.rej \in {"pearson", "spearman"} /\ ~p.d /\ ~p.z }
            [] Prop = "C11" -> { p \in Opts : p.rej \in {"", "kurtosis"} /\ ~(p.z /\ p.b) }
            [] OTHER -> {}
Init == /\ x \in { t \in Tensors : Usable(t) }
        /\ o \in OptsOf
        /\ todo = <<"d", "z", "b", "rej">>
        /\ b = <<>> /\ rej = <<>>
        /\ hist = <<x>>
Asked(st) == CASE st = "d" -> o.d [] st = "z" -> o.z [] st = "b" -> o.b [] st = "rej" -> o.rej # ""
Screen(t) == IF o.rej = "kurtosis" THEN Kurtosis(t) ELSE Corr(t, o.rej)
Step == /\ todo # <<>>
        /\ todo' = Tail(todo)
        /\ o' = o
        /\ CASE ~Asked(Head(todo)) -> UNCHANGED <<x, b, rej>>
             [] Head(todo) = "d" /\ Asked("d") -> x' = Dscore(MkDs(hist[1], "list"), x) /\ UNCHANGED <<b, rej>>
             [] Head(todo) = "z" /\ Asked("z") -> ~ZscoreDegenerate(x) /\ x' = Zscore(x) /\ UNCHANGED <<b, rej>>
             [] Head(todo) = "b" /\ Asked("b") -> b' = BiasOf(x) /\ x' = SubBias(x, BiasOf(x)) /\ UNCHANGED rej
             [] Head(todo) = "rej" /\ Asked("rej") ->
                    /\ rej' = Screen(x).rej
                    /\ x' = PickObs(x, Positions(NS(x), LAMBDA s : ~rej'[s]))
                    /\ b' = b
        /\ hist' = Append(hist, x')
Spec == Init /\ [][Step]_vars

----------------------------------------------------------------------------
Done == todo = <<>>
Prev == hist[Len(hist) - 1]
After(st) == Len(hist) > 1 /\ Len(todo) = (CASE st = "d" -> 3 [] st = "z" -> 2 [] st = "b" -> 1 [] st = "rej" -> 0) /\ Asked(st)
Raw == hist[1]
Full(t) == \A e \in 1..Len(t), s \in 1..NS(t), r \in 1..NR(t) : ~IsNaN(t[e][s][r])
Swap(n, i, j) == [k \in 1..n |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k]
PermVid(t, p) == [e \in 1..Len(t) |-> t[p[e]]]
PermObs(t, p) == [e \in 1..Len(t) |-> [s \in 1..Len(p) |-> t[e][p[s]]]]

\* C01: the dataset of a tensor has that tensor, in every style, and no vote is lost
\* (dict-style repetitions are written without gaps, so only tensors whose repetitions have none compare)
Packed(t) == \A e \in 1..Len(t), s \in 1..NS(t) : \A r \in 1..(NR(t) - 1) : IsNaN(t[e][s][r]) => IsNaN(t[e][s][r + 1])
Deepest(t) == NR(t) = 1 \/ \E e \in 1..Len(t), s \in 1..NS(t) : ~IsNaN(t[e][s][NR(t)])
C01Law == Len(hist) = 1 =>
          /\ Tensor(MkDs(x, "list")) = x
          /\ NoVoteLost(MkDs(x, "list")) /\ NoVoteLost(MkDs(x, "dict"))
          /\ (Packed(x) /\ Deepest(x) => Tensor(MkDs(x, "dict")) = x)
\* no step invents or loses a vote (screening removes whole observers)
MissingStays == After("d") \/ After("z") \/ After("b") =>
                \A e \in 1..Len(x), s \in 1..NS(x), r \in 1..NR(x) : IsNaN(x[e][s][r]) <=> IsNaN(Prev[e][s][r])
\* C03: the mean lies between the votes, and the squared deviations from it are the smallest
C03Law == Done => LET m == Mos(x) IN \A e \in 1..Len(x) :
              LET d == DropNaN(Row(x, e)) IN
              /\ \E i \in 1..Len(d) : Le(d[i], NAdd(m[e], E9)) /\ \E j \in 1..Len(d) : Le(m[e], NAdd(d[j], E9))
              /\ Close(NSum([i \in 1..Len(d) |-> NSub(d[i], m[e])]), Zero, E9)
              /\ \A c \in { NAdd(m[e], Ratio(1, 10)), NSub(m[e], Ratio(1, 10)) } :
                   Lt(SumSqDev(d, m[e]), SumSqDev(d, c))
\* C04: the reference video scores exactly ref_score; the differences between videos are untouched
C04Law == After("d") =>
          /\ Close(Mos(x)[1], NInt(5), E9)
          /\ \A e \in 1..Len(x) : Close(NSub(Mos(x)[e], Mos(x)[1]), NSub(Mos(Prev)[e], Mos(Prev)[1]), E9)
\* C05: every observer has mean 0 and deviation 1, and his order of preference is untouched
C05Law == After("z") => \A s \in 1..NS(x) :
          /\ Close(Mean(Col(x, s)), Zero, E9) /\ Close(StdS(Col(x, s)), One, E9)
          /\ \A e, f \in 1..Len(x) : \A r, q \in 1..NR(x) : Lt(Prev[e][s][r], Prev[f][s][q]) => Lt(x[e][s][r], x[f][s][q])
\* C06: on complete data the biases cancel, nothing is left to remove, and the MOS is the one before
C06Law == After("b") =>
          /\ \A s \in 1..NS(x) : Close(NSub(Mean(Col(Prev, s)), Mean(Col(x, s))), b[s], E9)
          /\ Full(x) => /\ Close(NSum(b), Zero, E9)
                        /\ \A s \in 1..NS(x) : Close(BiasOf(x)[s], Zero, E9)
                        /\ CloseV(Mos(x), Mos(Prev), E9)
\* C07, C08: screening never empties the panel where it decides by kurtosis, is decided per observer
\* (exchanging two observers exchanges their flags) and keeps the accepted votes as they are
ScreenLaw == After("rej") => LET sc == Screen(Prev) IN
          /\ Len(rej) = NS(Prev)
          /\ (o.rej = "kurtosis" => \E s \in 1..Len(rej) : ~rej[s])
          /\ \A s \in 1..Len(rej) : rej[s] => (o.rej = "kurtosis" => Lt(Ratio(1, 20), sc.first[s]) /\ Lt(sc.second[s], Ratio(3, 10)))
          /\ LET keep == Positions(Len(rej), LAMBDA s : ~rej[s]) IN x = PickObs(Prev, keep)
          /\ (~sc.amb => LET p == Swap(NS(Prev), 1, NS(Prev)) IN Screen(PermObs(Prev, p)).rej = [s \in 1..NS(Prev) |-> rej[p[s]]])
\* C08: the threshold is at most 0.7, so an observer above it stays
CorrLaw == After("rej") => LET sc == Screen(Prev) IN
          \A s \in 1..Len(rej) : (~sc.amb /\ Lt(Ratio(7, 10), sc.first[s])) => ~rej[s]
\* C09: the limit of the sweeps is a fixed point, and exchanging observers or videos exchanges the estimates
RECURSIVE ApFew(_, _)
ApFew(xx, st) == IF st.done \/ st.n >= 40 THEN st ELSE ApFew(xx, TLCEval(ApSweep(xx, st)))
FewSweeps(xx) == TLCEval(ApFew(xx, TLCEval(ApInit(xx))))
ApRegular(st) == st.done /\ \A s \in 1..Len(st.v) : Lt(Ratio(1, 20), st.v[s])
ApPart(st, p, pv) == [q |-> [e \in 1..Len(pv) |-> st.q[pv[e]]], b |-> [s \in 1..Len(p) |-> st.b[p[s]]], v |-> [s \in 1..Len(p) |-> st.v[p[s]]]]
C09Law == Done /\ Len(x) > 1 /\ NS(x) > 1 =>
          LET xx == Present(x)
              st == FewSweeps(xx)
              ps == Swap(NS(x), 1, NS(x)) pv == Swap(Len(x), 1, Len(x))
              s2 == FewSweeps(Present(PermObs(PermVid(x, pv), ps)))
          IN ApRegular(st) =>
             /\ CloseV(WQual(xx, st.b, Incons(xx, st.q, st.b)), st.q, E6)
             /\ CloseV(MeanDev(xx, st.q), st.b, E6)
             /\ ApRegular(s2) => LET w == ApPart(st, ps, pv) IN CloseV(s2.q, w.q, E5) /\ CloseV(s2.b, w.b, E5) /\ CloseV(s2.v, w.v, E5)
\* C11: every step commutes with exchanging observers or videos; a constant added to all votes only moves the scores
StepOf(st, raw, t) == CASE st = "d" -> Dscore(MkDs(raw, "list"), t) [] st = "z" -> Zscore(t) [] st = "b" -> SubBias(t, BiasOf(t))
SameT(t, u) == Len(t) = Len(u) /\ \A e \in 1..Len(t) : Len(t[e]) = Len(u[e]) /\ \A s \in 1..Len(t[e]) : CloseV(t[e][s], u[e][s], E9)
C11Law == \A st \in {"d", "z", "b"} : After(st) =>
          LET ps == Swap(NS(x), 1, NS(x))
              sh == MapT(Prev, LAMBDA e, s, r : NAdd(Prev[e][s][r], NInt(7)))
              raw == MapT(Raw, LAMBDA e, s, r : NAdd(Raw[e][s][r], NInt(7)))
              moved == MapT(x, LAMBDA e, s, r : IF st = "b" THEN NAdd(x[e][s][r], NInt(7)) ELSE x[e][s][r])
          IN /\ SameT(StepOf(st, PermObs(Raw, ps), PermObs(Prev, ps)), PermObs(x, ps))
             /\ SameT(StepOf(st, raw, sh), moved)
             \* the reference of a content stays in place, the others may change places
             /\ Len(x) > 2 => LET pv == Swap(Len(x), 2, Len(x)) IN SameT(StepOf(st, PermVid(Raw, pv), PermVid(Prev, pv)), PermVid(x, pv))
=============================================================================
