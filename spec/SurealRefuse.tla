---------------------------- MODULE SurealRefuse ----------------------------
(***************************************************************************)
(* Which datasets a reader accepts (C02).  A recorded structure is         *)
(*   refs : Seq([ck, cid])            kind of content_id and its value     *)
(*   dis  : Seq([ck, cid, aid, osk, n, keys : Seq([sk, ak, a, v])])        *)
(* kinds: "int" or the name of another type; osk: "list", "tuple", "dict", *)
(* "none" (no 'os' at all) or another type; n = number of votes.           *)
(***************************************************************************)
EXTENDS SurealBase

RefsOk(st) == Len(st.refs) > 0 /\ \A i \in 1..Len(st.refs) : st.refs[i].ck = "int" /\ st.refs[i].cid >= 0
ContentsOk(st) == \A i \in 1..Len(st.dis) : st.dis[i].ck = "int" /\ \E j \in 1..Len(st.refs) :
                        st.refs[j].ck = "int" /\ st.refs[j].cid = st.dis[i].cid
Listy(d) == d.osk \in {"list", "tuple"}
OsOk(st) == \A i \in 1..Len(st.dis) : Listy(st.dis[i]) \/ st.dis[i].osk = "dict"
\* among the list-style videos of a list-style dataset
LengthsOk(st) == \A i, j \in 1..Len(st.dis) : Listy(st.dis[i]) /\ Listy(st.dis[j]) => st.dis[i].n = st.dis[j].n
AllList(st) == \A i \in 1..Len(st.dis) : Listy(st.dis[i])
AllDict(st) == \A i \in 1..Len(st.dis) : st.dis[i].osk = "dict"
Mixed(st)   == ~AllList(st) /\ ~AllDict(st)

KeysOk(st) == \A i \in 1..Len(st.dis) : \A k \in 1..Len(st.dis[i].keys) :
                 st.dis[i].keys[k].sk = "str" /\ st.dis[i].keys[k].ak = "int"
AidsOk(st) == \A i \in 1..Len(st.dis) : 0 <= st.dis[i].aid /\ st.dis[i].aid < Len(st.dis)
PcValues == {Zero, Ratio(1, 2), One}
ValuesOk(st) == \A i \in 1..Len(st.dis) : \A k \in 1..Len(st.dis[i].keys) : st.dis[i].keys[k].v \in PcValues

\* "refused" | "accepted" | "either": at construction
RawVerdict(st) ==
    IF ~RefsOk(st) \/ ~ContentsOk(st) \/ ~OsOk(st) \/ (AllList(st) /\ ~LengthsOk(st)) THEN "refused"
    ELSE IF Mixed(st) THEN "either" ELSE "accepted"
PcVerdict(st) ==
    IF RawVerdict(st) = "refused" \/ ~AllDict(st) \/ ~KeysOk(st) \/ ~AidsOk(st) THEN "refused" ELSE "accepted"
\* reading observers / votes of an accepted dataset
RawReads(st) == ~Mixed(st)
PcReads(st)  == ValuesOk(st)

ConstructBad(ev) ==
    LET st == ev.st
        v  == IF ev.kind = "pc" THEN PcVerdict(st) ELSE RawVerdict(st)
        ok == IF ev.kind = "pc" THEN PcReads(st) ELSE RawReads(st)
    IN IF v = "refused" THEN Chk("malformed_accepted", ev.err # "")
       ELSE IF ev.err # "" THEN Chk("wellformed_refused", v = "either")
       ELSE \* constructed: what reading it gives
            (IF ok THEN Chk("votes_unreadable", ev.read = "") \cup Chk("observers_unreadable", ev.obs = "" \/ (ev.kind = "raw" /\ AllList(st)))
             ELSE Chk("bad_votes_read", ev.read # "")
                  \cup (IF ev.kind = "raw" THEN Chk("bad_observers_read", ev.obs # "") ELSE {}))
=============================================================================
