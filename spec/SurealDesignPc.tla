--------------------------- MODULE SurealDesignPc ---------------------------
(***************************************************************************)
(* Paired comparisons, explored by TLC: a behaviour starts with a small    *)
(* raw dataset and conversion options, converts one comparison at a time   *)
(* (every outcome the options allow), reads the comparison tensor and then *)
(* climbs the Bradley-Terry likelihood.                                    *)
(***************************************************************************)
EXTENDS SurealPC

CONSTANTS N, S, Scores, Ties, Coins, Rates, Types, Steps
VARIABLES raw, opt, todo, got, p
vars == <<raw, opt, todo, got, p>>

Cell == { NInt(v) : v \in Scores } \cup {NaN}
Vote(s, v) == [k |-> "o" \o ToString(s), o |-> s, v |-> <<v>>, rep |-> FALSE]
\* two contents: the last video shows another one when there are three or more
Ds(x) == [name |-> "d", hasref |-> FALSE, ref |-> NaN, refs |-> <<[cid |-> 0, path |-> "r"], [cid |-> 1, path |-> "q"]>>,
          dis |-> [i \in 1..N |-> [cid |-> IF i = N /\ N > 2 THEN 1 ELSE 0, aid |-> N - i, path |-> "p" \o ToString(i), style |-> "dict",
                                   votes |-> [s \in 1..S |-> Vote(s, x[i][s])]]]]
NoOpt == [type |-> "", tie |-> "", rate |-> <<>>, hasrates |-> FALSE, rates |-> <<>>, coin |-> <<>>, hascoins |-> FALSE, coins |-> <<>>,
          noise |-> <<>>, hasnoises |-> FALSE, noises |-> <<>>, hasmeans |-> FALSE, means |-> <<>>]
RateOf(r) == IF r = "none" THEN <<>> ELSE IF r = "part" THEN <<Half>> ELSE IF r = "zero" THEN <<Zero>> ELSE <<Two>>
Subj(s) == "o" \o ToString(s)
Pairs == { q \in (1..N) \X (1..N) : q[1] < q[2] }
AllCmp == { <<s, q[1], q[2]>> : s \in 1..S, q \in Pairs }
Init == /\ raw \in [1..N -> [1..S -> Cell]]
        /\ \E t \in Types, ti \in Ties, c \in Coins, r \in Rates :
             opt = [NoOpt EXCEPT !.type = t, !.tie = ti, !.coin = IF c = "none" THEN <<>> ELSE <<Half>>, !.rate = RateOf(r)]
        /\ todo = AllCmp /\ got = {} /\ p = <<>>
Convert == /\ todo # {}
           /\ LET c == CHOOSE c \in todo : TRUE        \* the order of comparisons is immaterial
              IN /\ todo' = todo \ {c}
                 /\ IF Compared(Ds(raw), opt, Subj(c[1]), c[2], c[3])
                    THEN \E out \in Allowed(Ds(raw), opt, Subj(c[1]), c[2], c[3]) : got' = IF out = Nothing THEN got ELSE got \cup {<<c, out>>}
                    ELSE got' = got
           /\ UNCHANGED <<raw, opt, p>>
\* the converted dataset
Entries(i) ==
    LET mine == { <<g[1][1], g[1][3], g[2][1]>> : g \in { g \in got : g[1][2] = i /\ ~IsNaN(g[2][1]) } }
                \cup { <<g[1][1], g[1][2], g[2][2]>> : g \in { g \in got : g[1][3] = i /\ ~IsNaN(g[2][2]) } }
        q == SetSeq(mine)
    IN [k \in 1..Len(q) |-> [k |-> Subj(q[k][1]), o |-> q[k][1], a |-> N - q[k][2], v |-> q[k][3]]]
Pc == [refs |-> Ds(raw).refs, name |-> "d", dis |-> [i \in 1..N |-> [aid |-> N - i, cid |-> Ds(raw).dis[i].cid, path |-> "p" \o ToString(i), votes |-> Entries(i)]]]
Alpha == AlphaOf(Pc)
Climb == /\ todo = {} /\ got # {}
         /\ Connected(Alpha) = TRUE                     \* as a value: no successor per way of being connected
         /\ IF p = <<>> THEN p' = <<[i \in 1..N |-> Ratio(1, N)]>>
            ELSE Len(p) < Steps /\ p' = Append(p, BtMap(Alpha, p[Len(p)]))
         /\ UNCHANGED <<raw, opt, todo, got>>
Next == Convert \/ Climb
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Converted == todo = {} /\ p = <<>>
Plain == opt.coin = <<>> /\ opt.rate = <<>>
\* what a comparison may record does not depend on which of the two videos is named first
Mirror(out) == { <<u[2], u[1]>> : u \in out }
MirrorLaw == Cardinality(todo) = Cardinality(AllCmp) =>
             \A c \in AllCmp : Compared(Ds(raw), opt, Subj(c[1]), c[2], c[3]) =>
                 Allowed(Ds(raw), opt, Subj(c[1]), c[3], c[2]) = Mirror(Allowed(Ds(raw), opt, Subj(c[1]), c[2], c[3]))
\* C14: the validator accepts every conversion of the machine; preferences are those of the votes
PrefLaw == Converted /\ Plain => \A g \in got : LET c == g[1] a == raw[c[2]][c[1]] b == raw[c[3]][c[1]] IN
             /\ ~IsNaN(a) /\ ~IsNaN(b)
             /\ (Lt(b, a) => g[2] = WinI) /\ (Lt(a, b) => g[2] = WinJ)
             /\ (a = b => IF opt.tie = "coin_toss" THEN g[2] \in {WinI, WinJ} ELSE g[2] = Split)
AcceptLaw == Converted => ToPcBad(Ds(raw), [opt |-> opt, err |-> "", res |-> Pc]) \subseteq {"sampling_share", "cointoss_share", "tie_share"}
\* C15: the tensor is antisymmetric, empty on the diagonal and complete: every comparison is in it once
TensorLaw == Converted /\ got # {} => LET x == PcTensor(Pc) ranks == PcRanks(Pc) IN
             /\ \A i, j \in 1..N : \A s \in 1..Len(ranks) :
                  IF i = j THEN IsNaN(x[i][j][s])
                  ELSE (IsNaN(x[i][j][s]) /\ IsNaN(x[j][i][s])) \/ (~IsNaN(x[i][j][s]) /\ (opt.rate = <<Two>> \/ NAdd(x[i][j][s], x[j][i][s]) = One))
             /\ Cardinality({ c \in (1..N) \X (1..N) \X (1..Len(ranks)) : ~IsNaN(x[c[1]][c[2]][c[3]]) }) = 2 * Cardinality(got)
\* C16: every step of the iteration stays a distribution and does not lower the likelihood
LogLik(al, q) == NSum(Cat([i \in 1..N |-> [j \in 1..N |-> IF i = j \/ al[i][j] = Zero THEN Zero ELSE NMul(al[i][j], NSub(NLn(q[i]), NLn(NAdd(q[i], q[j]))))]]))
ClimbLaw == Len(p) > 0 => LET q == p[Len(p)] IN
             /\ Close(NSum(q), One, E9) /\ \A i \in 1..N : Lt(Zero, q[i])
             /\ Len(p) > 1 => Le(LogLik(Alpha, p[Len(p) - 1]), NAdd(LogLik(Alpha, q), E9))
=============================================================================
