----------------------------- MODULE SurealDemo -----------------------------
(***************************************************************************)
(* The stand-alone scripts of the recommendations (C26): the limit of the  *)
(* alternating projection of SurealAP on the table of votes.               *)
(***************************************************************************)
EXTENDS SurealAP

DemoBad(ev) ==
    LET x  == ev.x
        xx == Present(x)
        E  == Len(x)
        S  == NS(x)
        st == ApLimit(xx)
        mb == TLCEval(Mean(st.b))
        vj == TLCEval([e \in 1..E |-> StdP(RowResid(xx, e, st.pq, st.pb))])
        ce == TLCEval([e \in 1..E |-> SumI([s \in 1..S |-> Len(xx[e][s])])])
        RunBad1(r) ==
            IF r.err # "" THEN {"raised"}
            ELSE Chk("votes_read", r.read.t = "none" \/ (r.read.t = "ten" /\ r.read.v = x))
                 \cup Chk("mos_j", EqVec(r.res, "mos_j", [e \in 1..E |-> NAdd(st.q[e], mb)], E6))
                 \cup Chk("bias_i", EqVec(r.res, "bias_i", [s \in 1..S |-> NSub(st.b[s], mb)], E6))
                 \cup Chk("inconsistency_i", EqVec(r.res, "inconsistency_i", st.v, E6))
                 \cup (IF \E e \in 1..E : ~Lt(Eps(3), vj[e]) THEN {}
                       ELSE Chk("sos_j", EqVec(r.res, "sos_j", [e \in 1..E |-> NDiv(vj[e], NSqrt(NInt(ce[e])))], E5)))
    IN UNION { { ev.runs[i].script \o ":" \o c : c \in RunBad1(ev.runs[i]) } : i \in 1..Len(ev.runs) }
=============================================================================
