--------------------------- MODULE SurealParallel ---------------------------
(***************************************************************************)
(* parallel_map (C22): a scheduler starts one worker per argument, at most *)
(* Limit at a time, in any order; a worker runs, publishes its result and  *)
(* ends; the scheduler notices ended workers one polling round later; when *)
(* nothing is waiting or active it collects the results by index.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTasks, MaxLimit
VARIABLES n, limit,     \* number of arguments, process limit
          waiting,      \* arguments whose worker has not started
          active,       \* started workers the scheduler has not removed yet
          running,      \* workers inside func
          results,      \* index -> result
          runs,         \* how often func ran per index
          ret,          \* "none" or the returned sequence
          hist          \* the schedule: <<kind, index>>
vars == <<n, limit, waiting, active, running, results, runs, ret, hist>>

F(i) == <<"f", i>>
Init == /\ n \in 0..MaxTasks
        /\ limit \in 1..MaxLimit
        /\ waiting = 1..n
        /\ active = {}
        /\ running = {}
        /\ results = [i \in {} |-> 0]
        /\ runs = [i \in 1..n |-> 0]
        /\ ret = <<>>
        /\ hist = <<>>
Open == ret = <<>>
Start(i) == /\ Open /\ i \in waiting /\ Cardinality(active) < limit
            /\ waiting' = waiting \ {i} /\ active' = active \cup {i} /\ running' = running \cup {i}
            /\ runs' = [runs EXCEPT ![i] = @ + 1]
            /\ hist' = Append(hist, <<"start", i>>)
            /\ UNCHANGED <<n, limit, results, ret>>
Finish(i) == /\ i \in running
             /\ running' = running \ {i}
             /\ results' = (i :> F(i)) @@ results
             /\ hist' = Append(hist, <<"finish", i>>)
             /\ UNCHANGED <<n, limit, waiting, active, runs, ret>>
Reap(i) == /\ i \in active \ running
           /\ active' = active \ {i}
           /\ UNCHANGED <<n, limit, waiting, running, results, runs, ret, hist>>
Return == /\ Open /\ waiting = {} /\ active = {}
          /\ ret' = <<[i \in 1..n |-> results[i]]>>
          /\ UNCHANGED <<n, limit, waiting, active, running, results, runs, hist>>
Next == Return \/ \E i \in 1..n : Start(i) \/ Finish(i) \/ Reap(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Return) /\ \A i \in 1..MaxTasks : WF_vars(Start(i)) /\ WF_vars(Finish(i)) /\ WF_vars(Reap(i))

WithinLimit == Cardinality(running) <= limit
OncePerArg  == \A i \in 1..n : runs[i] <= 1
InOrder     == ret # <<>> => ret[1] = [i \in 1..n |-> F(i)] /\ \A i \in 1..n : runs[i] = 1
Terminates  == <>(ret # <<>>)
\* the history is an output only
View == <<n, limit, waiting, active, running, results, runs, ret>>
Emit == IF ret # <<>> THEN PrintT("SCEN|" \o ToJson([n |-> n, limit |-> limit, hist |-> hist])) ELSE TRUE

=============================================================================
