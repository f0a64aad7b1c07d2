------------------------- MODULE SurealSessionCheck -------------------------
(***************************************************************************)
(* Validation of recorded sessions against SurealSession: content never    *)
(* changes (snapshots) and every call keeps the answer it had the first    *)
(* time (the first recorded answer comes from a process of its own).       *)
(***************************************************************************)
EXTENDS SurealBase

TagClose(a, b) ==
    IF a.t # b.t THEN FALSE
    ELSE CASE a.t = "num" -> Close(a.v, b.v, E9)
           [] a.t = "vec" -> CloseV(a.v, b.v, E9)
           [] a.t = "mat" -> CloseM(a.v, b.v, E9)
           [] a.t = "ten" -> CloseT(a.v, b.v, E9)
           [] a.t = "none" -> TRUE
           [] OTHER -> a.v = b.v
AnsClose(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : TagClose(a[k], b[k])

SessionBad(tr, i) ==
    LET ev == tr.ev[i]
        prior == { j \in 1..(i-1) : tr.ev[j].call = ev.call }
        first == CHOOSE j \in prior : \A k \in prior : j <= k
    IN Chk("input_modified", ev.snap = tr.snap)
       \cup (IF ev.call = "scribble" \/ prior = {} THEN {}
             ELSE Chk("answer_changed", AnsClose(tr.ev[first].ans, ev.ans)))
=============================================================================
