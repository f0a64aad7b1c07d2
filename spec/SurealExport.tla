---------------------------- MODULE SurealExport ----------------------------
(***************************************************************************)
(* Exports, files and combination of datasets (C13, C17).                  *)
(*                                                                         *)
(* A full dataset record is [attrs : name -> text, refs : Seq(name -> text)*)
(*   dis : Seq([fields : name -> text, hasos, os, cid, aid, gt, gtstd])]   *)
(* where texts are the printed values and gt/gtstd tagged values.          *)
(***************************************************************************)
EXTENDS SurealPrep

Kept(src, kw) == Positions(Len(src.dis), LAMBDA e :
    /\ (~kw.hascids \/ src.dis[e].cid \in Range(kw.cids))
    /\ (~kw.hasaids \/ src.dis[e].aid \in Range(kw.aids)))

\* attributes of the export: those of the dataset, overridden by the given ones
ExpAttrs(src, kw) ==
    [k \in DOMAIN src.attrs \cup DOMAIN kw.over |-> IF k \in DOMAIN kw.over THEN kw.over[k] ELSE src.attrs[k]]
\* "none" stands for nothing overridden (records cannot be empty)
Over(kw) == [k \in DOMAIN kw.over \ {"none"} |-> kw.over[k]]
AttrsOk(src, kw, out) ==
    LET ov == Over(kw) want == [k \in DOMAIN src.attrs \cup DOMAIN ov |-> IF k \in DOMAIN ov THEN ov[k] ELSE src.attrs[k]]
    IN out.attrs = want

\* what a reader that selects videos (by position, from 0) presents
Chosen(src, sel) == IF sel = <<>> THEN src ELSE [src EXCEPT !.dis = [i \in 1..Len(sel) |-> src.dis[sel[i] + 1]]]

GtIs(d, x) == d.gt.t = "num" /\ d.gt.v = x
ExportBad(src, ev, prev) ==
    IF ev.err # "" THEN {"raised"}
    ELSE LET out == ev.out
             res == prev.res
             keep == Kept(src, ev.kw)
             q == res.quality_scores.v
             hasstd == IsKind(res, "quality_scores_std", "vec")
         IN Chk("ref_videos", out.refs = src.refs)
            \cup Chk("attributes", AttrsOk(src, ev.kw, out))
            \cup (IF Len(out.dis) # Len(keep) THEN {"selected_videos"} ELSE
                  Chk("fields", \A i \in 1..Len(keep) : out.dis[i].fields = src.dis[keep[i]].fields)
                  \cup Chk("os_removed", \A i \in 1..Len(keep) : ~out.dis[i].hasos)
                  \cup Chk("groundtruth", \A i \in 1..Len(keep) : GtIs(out.dis[i], q[keep[i]]))
                  \cup Chk("groundtruth_std", \A i \in 1..Len(keep) :
                           IF hasstd THEN out.dis[i].gtstd.t = "num" /\ out.dis[i].gtstd.v = res.quality_scores_std.v[keep[i]]
                           ELSE out.dis[i].gtstd.t = "absent"))

\* one entry per vote: list position, or observer who voted
PersubjectExportBad(src, listy, ev, prev) ==
    IF ev.err # "" THEN {"raised"}
    ELSE LET out == ev.out
             q == prev.res.quality_scores.v
             S(e) == Len(q[e])
             cells == Cat([e \in 1..Len(q) |-> Cat([s \in 1..S(e) |->
                          IF ~listy /\ IsNaN(q[e][s][1]) THEN <<>> ELSE <<[e |-> e, x |-> q[e][s][1]]>>])])
         IN Chk("ref_videos", out.refs = src.refs)
            \cup Chk("attributes", AttrsOk(src, ev.kw, out))
            \cup (IF Len(out.dis) # Len(cells) THEN {"entries"} ELSE
                  Chk("fields", \A i \in 1..Len(cells) : out.dis[i].fields = src.dis[cells[i].e].fields)
                  \cup Chk("os_removed", \A i \in 1..Len(cells) : ~out.dis[i].hasos)
                  \cup Chk("groundtruth", \A i \in 1..Len(cells) : GtIs(out.dis[i], cells[i].x)))

SameVideo(a, b) == a.fields = b.fields /\ a.hasos = b.hasos /\ a.os = b.os /\ a.gt = b.gt /\ a.gtstd = b.gtstd
\* a file written and imported again; a filtered load keeps the selected videos
LoadBad(src, ev) ==
    LET keep == Kept(src, ev.kw) out == ev.out
    IN IF ev.err # "" THEN Chk("raised", keep = <<>>)
       ELSE Chk("ref_videos", out.refs = src.refs)
            \cup Chk("attributes", out.attrs = src.attrs)
            \cup (IF Len(out.dis) # Len(keep) THEN {"selected_videos"} ELSE
                  Chk("videos", \A i \in 1..Len(keep) : SameVideo(out.dis[i], src.dis[keep[i]])))

\* a file of comparisons: the asset ids of what is loaded must be those of its positions
PcLoadBad(src, ev) ==
    LET keep == Kept(src, ev.kw)
    IN IF ev.err # "" /\ (\E i \in 1..Len(keep) : src.dis[keep[i]].aid < 0 \/ src.dis[keep[i]].aid >= Len(keep)) THEN {}
       ELSE LoadBad(src, ev)

----------------------------------------------------------------------------
(* C17 *)
SubjName(ds, vote) == IF ListStyle(ds) THEN ds.name \o "_subject" \o ToString(vote.o - 1) ELSE vote.k
VoteMap(ds, e) == [n \in { SubjName(ds, ds.dis[e].votes[i]) : i \in 1..Len(ds.dis[e].votes) } |->
                     LET i == CHOOSE j \in 1..Len(ds.dis[e].votes) : SubjName(ds, ds.dis[e].votes[j]) = n
                     IN [v |-> ds.dis[e].votes[i].v, rep |-> ds.dis[e].votes[i].rep]]
OutVotes(out, e) == [n \in { out.dis[e].votes[i].k : i \in 1..Len(out.dis[e].votes) } |->
                     LET i == CHOOSE j \in 1..Len(out.dis[e].votes) : out.dis[e].votes[j].k = n
                     IN [v |-> out.dis[e].votes[i].v, rep |-> out.dis[e].votes[i].rep]]
JoinVotes(m1, m2) == [n \in DOMAIN m1 \cup DOMAIN m2 |->
    IF n \notin DOMAIN m2 THEN m1[n] ELSE IF n \notin DOMAIN m1 THEN m2[n]
    ELSE [v |-> m1[n].v \o m2[n].v, rep |-> TRUE]]
\* same-path pairs in the order of the first, then the second dataset
OverlapPairs(a, b) == Cat([i \in 1..NumDis(a) |-> Cat([j \in 1..NumDis(b) |->
                          IF a.dis[i].path = b.dis[j].path THEN <<<<i, j>>>> ELSE <<>>])])
RECURSIVE FirstSeen(_, _, _)
FirstSeen(cs, i, acc) == IF i > Len(cs) THEN acc ELSE FirstSeen(cs, i + 1, IF IndexOf(acc, cs[i]) = 0 THEN Append(acc, cs[i]) ELSE acc)
CombineBad(a, b, fa, ev) ==
    IF ev.err # "" THEN {"raised"}
    ELSE LET ps == OverlapPairs(a, b)
             order == FirstSeen([k \in 1..Len(ps) |-> a.dis[ps[k][1]].cid], 1, <<>>)
             out == ev.out
             full == ev.full
             RefIdx(c) == CHOOSE i \in 1..Len(a.refs) : a.refs[i].cid = c /\ \A j \in 1..(i-1) : a.refs[j].cid # c
             Drop(f) == [k \in DOMAIN f \ {"content_id"} |-> f[k]]
         IN IF Len(out.dis) # Len(ps) THEN {"videos"}
            ELSE Chk("fields", \A k \in 1..Len(ps) : Drop(full.dis[k].fields) = Drop(fa.dis[ps[k][1]].fields))
                 \cup Chk("content_ids", \A k \in 1..Len(ps) : out.dis[k].cid = IndexOf(order, a.dis[ps[k][1]].cid) - 1)
                 \cup Chk("ref_videos", Len(out.refs) = Len(order) /\ \A c \in 1..Len(order) :
                          out.refs[c].cid = c - 1 /\ Drop(full.refs[c]) = Drop(fa.refs[RefIdx(order[c])]))
                 \cup Chk("votes", \A k \in 1..Len(ps) : OutVotes(out, k) = JoinVotes(VoteMap(a, ps[k][1]), VoteMap(b, ps[k][2])))
                 \cup Chk("attributes", full.attrs = fa.attrs)
DictStyleBad(a, fa, ev) ==
    IF ev.err # "" THEN {"raised"}
    ELSE LET out == ev.out full == ev.full
         IN IF Len(out.dis) # NumDis(a) THEN {"videos"}
            ELSE Chk("votes", \A e \in 1..NumDis(a) : out.dis[e].style = "dict" /\ OutVotes(out, e) = VoteMap(a, e))
                 \cup Chk("fields", \A e \in 1..NumDis(a) : full.dis[e].fields = fa.dis[e].fields)
                 \cup Chk("ref_videos", full.refs = fa.refs)
                 \cup Chk("attributes", full.attrs = fa.attrs)
=============================================================================
