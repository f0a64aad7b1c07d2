------------------------- MODULE SurealParallelCheck -------------------------
EXTENDS Integers, Sequences, FiniteSets
(* a recorded run: events [k : "start" | "finish", i], outcome, value texts *)
RECURSIVE PmFold(_, _, _)
PmFold(evs, i, st) ==
    IF i > Len(evs) THEN st
    ELSE LET e == evs[i]
         IN PmFold(evs, i + 1,
              IF e.k = "start"
              THEN [st EXCEPT !.bad = @ \cup (IF e.i \in st.started THEN {"ran_twice"} ELSE {})
                                        \cup (IF Cardinality(st.act) >= st.lim THEN {"over_limit"} ELSE {}),
                              !.started = @ \cup {e.i}, !.act = @ \cup {e.i}]
              ELSE [st EXCEPT !.act = @ \ {e.i}, !.done = @ \cup {e.i}])
PmBad(ev) ==
    LET st == PmFold(ev.evs, 1, [act |-> {}, started |-> {}, done |-> {}, lim |-> ev.limit, bad |-> {}])
    IN st.bad
       \cup (IF ev.outcome = "timeout" THEN {"not_terminated"}
             \* a worker died without its result: no list may come back
             ELSE IF ev.dies # 0 THEN (IF ev.outcome # "" THEN {} ELSE {"result_of_dead_worker"})
             ELSE IF ev.outcome # "" THEN {"raised"}
             ELSE (IF st.done = 1..ev.n /\ st.started = 1..ev.n THEN {} ELSE {"not_all_run"})
                  \cup (IF ev.ret = ev.want THEN {} ELSE {"value"}))
=============================================================================
