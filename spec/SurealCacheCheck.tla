-------------------------- MODULE SurealCacheCheck --------------------------
(* recorded histories of cached calls (C23): every event carries the key, how often each function body ran during it, and the answer as text *)
EXTENDS SurealBase

RECURSIVE Fold(_, _, _, _)
Fold(tr, j, upto, st) ==
    IF j > upto THEN st
    ELSE LET e == tr.ev[j]
         IN Fold(tr, j + 1, upto,
              CASE e.act = "call" /\ e.err = "" /\ ~e.nocache -> [st EXCEPT !.sure = @ \cup {e.k}, !.may = @ \cup {e.k}]
                [] e.act = "crash" -> IF tr.kind = "memo" THEN [sure |-> {}, may |-> {}] ELSE [st EXCEPT !.may = @ \cup {e.k}]
                [] e.act = "raise" -> [st EXCEPT !.may = @ \cup {e.k}]
                [] e.act = "restart" -> IF tr.kind = "memo" THEN [sure |-> {}, may |-> {}] ELSE st
                [] e.act = "wipe" -> [sure |-> {}, may |-> {}]
                [] OTHER -> st)
CacheBad(tr, i) ==
    LET ev == tr.ev[i]
        st == Fold(tr, 1, i - 1, [sure |-> {}, may |-> {}])
        Ran(k) == ev.ran[k]
        others == \E k \in 1..Len(ev.ran) : k # ev.k /\ ev.ran[k] > 0
    IN CASE ev.act = "call" ->
                Chk("raised", ev.err = "")
                \cup (IF ev.err # "" THEN {} ELSE
                      Chk("wrong_value", ev.ret = tr.vals[ev.k])
                      \cup Chk("evaluated_again", (ev.k \in st.sure /\ ~ev.nocache) => Ran(ev.k) = 0)
                      \cup Chk("not_evaluated", ev.nocache => Ran(ev.k) = 1)
                      \cup Chk("evaluated_twice", Ran(ev.k) <= 1))
                \cup Chk("other_evaluated", ~others)
         [] ev.act = "fail" ->      \* the function raises if it is run
                (IF ev.k \in st.sure /\ ~ev.nocache THEN Chk("wrong_value", ev.err = "" /\ ev.ret = tr.vals[ev.k])
                 ELSE IF ev.k \in st.may /\ ~ev.nocache THEN Chk("wrong_value", ev.err # "" \/ ev.ret = tr.vals[ev.k])
                 ELSE Chk("error_swallowed", ev.err = "Planned"))
         [] ev.act = "raise" -> Chk("wrong_value", ev.err # "" \/ ev.ret = tr.vals[ev.k])
         [] OTHER -> {}
=============================================================================
