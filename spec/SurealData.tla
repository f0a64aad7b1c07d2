----------------------------- MODULE SurealData -----------------------------
(***************************************************************************)
(* Raw datasets and the score tensor.                                      *)
(*                                                                         *)
(* A dataset is a record                                                   *)
(*   [name, hasref, ref, refs : Seq([cid, path]),                          *)
(*    dis : Seq([cid, aid, path, style, votes])]                           *)
(* style is "list" | "tuple" | "dict"; a vote is [k, o, v, rep]: observer  *)
(* id k (a string), its rank o in the sort order of all observer ids of    *)
(* the dataset (TLC cannot order strings), the sequence v of the scores    *)
(* given, and whether they were written as a repetition list.              *)
(***************************************************************************)
EXTENDS SurealBase

IsListVid(d)  == d.style = "list" \/ d.style = "tuple"
ListStyle(ds) == IsListVid(ds.dis[1])

NumDis(ds) == Len(ds.dis)
ObsRanks(ds) == SortSet(UNION { { ds.dis[e].votes[i].o : i \in 1..Len(ds.dis[e].votes) } : e \in 1..Len(ds.dis) })
NumObs(ds) == IF ListStyle(ds) THEN Len(ds.dis[1].votes) ELSE Len(ObsRanks(ds))
MaxReps(ds) == MaxOf(Cat([e \in 1..NumDis(ds) |->
                   [i \in 1..Len(ds.dis[e].votes) |->
                       IF ds.dis[e].votes[i].rep THEN Len(ds.dis[e].votes[i].v) ELSE 1]]), 1)

\* the scores observer column s gave to video e, in the order they were given
RECURSIVE FindVote(_, _, _)
FindVote(votes, o, i) == IF i > Len(votes) THEN <<>>
                         ELSE IF votes[i].o = o THEN votes[i].v ELSE FindVote(votes, o, i + 1)
VotesOf(ds, ranks, e, s) == IF ListStyle(ds) THEN ds.dis[e].votes[s].v
                            ELSE FindVote(ds.dis[e].votes, ranks[s], 1)
Tensor(ds) ==
    LET ranks == TLCEval(IF ListStyle(ds) THEN <<>> ELSE ObsRanks(ds))
        E == NumDis(ds)
        S == TLCEval(NumObs(ds))
        R == TLCEval(MaxReps(ds))
    IN TLCEval([e \in 1..E |-> [s \in 1..S |->
          LET v == TLCEval(VotesOf(ds, ranks, e, s))
          IN [r \in 1..R |-> IF r <= Len(v) THEN v[r] ELSE NaN]]])

ContentIds(ds) == [e \in 1..NumDis(ds) |-> ds.dis[e].cid]
\* the reference entry of a content: the last one listed for it
RECURSIVE RefPathR(_, _, _)
RefPathR(refs, c, i) == IF i = 0 THEN "" ELSE IF refs[i].cid = c THEN refs[i].path ELSE RefPathR(refs, c, i - 1)
RefPath(ds, c) == RefPathR(ds.refs, c, Len(ds.refs))
IsRef(ds) == [e \in 1..NumDis(ds) |-> RefPath(ds, ds.dis[e].cid) = ds.dis[e].path]
MaxCid(ds) == MaxOf([i \in 1..Len(ds.refs) |-> ds.refs[i].cid], 0)
NumVotes(x) == SumI([e \in 1..Len(x) |-> SumI([s \in 1..Len(x[e]) |-> Cnt(x[e][s])])])

----------------------------------------------------------------------------
(* a reader's view of the dataset, as recorded by the driver                 *)
ReaderBad(ds, res) ==
    LET x == TLCEval(Tensor(ds)) IN
    Chk("tensor", IsKind(res, "tensor", "ten") /\ res.tensor.v = x)
    \cup Chk("num_observers", IsKind(res, "num_observers", "int") /\ res.num_observers.v = NumObs(ds))
    \cup Chk("num_dis_videos", IsKind(res, "num_dis_videos", "int") /\ res.num_dis_videos.v = NumDis(ds))
    \cup Chk("num_ref_videos", IsKind(res, "num_ref_videos", "int") /\ res.num_ref_videos.v = Len(ds.refs))
    \cup Chk("max_repetitions", IsKind(res, "max_repetitions", "int") /\ res.max_repetitions.v = MaxReps(ds))
    \cup Chk("max_content_id", IsKind(res, "max_content_id", "int") /\ res.max_content_id.v = MaxCid(ds))
    \cup Chk("content_ids", IsKind(res, "content_id_of_dis_videos", "ints")
                             /\ res.content_id_of_dis_videos.v = ContentIds(ds))
    \cup Chk("ref_content_ids", IsKind(res, "content_ids", "ints")
                             /\ Range(res.content_ids.v) = { ds.refs[i].cid : i \in 1..Len(ds.refs) }
                             /\ Len(res.content_ids.v) = Cardinality({ ds.refs[i].cid : i \in 1..Len(ds.refs) }))
    \cup Chk("asset_ids", IsKind(res, "asset_ids", "ints")
                             /\ Range(res.asset_ids.v) = { ds.dis[i].aid : i \in 1..NumDis(ds) }
                             /\ Len(res.asset_ids.v) = Cardinality({ ds.dis[i].aid : i \in 1..NumDis(ds) }))
    \cup Chk("is_ref", IsKind(res, "disvideo_is_refvideo", "bools") /\ res.disvideo_is_refvideo.v = IsRef(ds))
    \cup Chk("ref_score", IF ds.hasref THEN EqNum(res, "ref_score", ds.ref, Zero)
                                       ELSE IsKind(res, "ref_score", "none"))
    \cup (IF ListStyle(ds) THEN Chk("observers_refused", IsKind(res, "observers", "error"))
          ELSE Chk("observers", IsKind(res, "observers", "ranks") /\ res.observers.v = ObsRanks(ds)))

----------------------------------------------------------------------------
(* design lemmas, checked on every dataset of a bounded instance (SurealMC)  *)
\* multiset of scores of a dataset = multiset of non-NaN cells of its tensor
VoteSeq(ds) == Cat([e \in 1..NumDis(ds) |-> Cat([i \in 1..Len(ds.dis[e].votes) |-> DropNaN(ds.dis[e].votes[i].v)])])
CellSeq(x)  == Cat([e \in 1..Len(x) |-> Cat([s \in 1..Len(x[e]) |-> DropNaN(x[e][s])])])
SameBag(u, v) == /\ Len(u) = Len(v)
                 /\ \A a \in Range(u) \cup Range(v) :
                      Cardinality({ i \in 1..Len(u) : u[i] = a }) = Cardinality({ i \in 1..Len(v) : v[i] = a })
NoVoteLost(ds) == SameBag(VoteSeq(ds), CellSeq(Tensor(ds)))
=============================================================================
