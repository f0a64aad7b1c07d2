----------------------------- MODULE SurealCache -----------------------------
(***************************************************************************)
(* Caches (C23): one persistent store (directory or file) or one in-memory *)
(* store, used by a sequence of processes.  A call of an unknown key runs  *)
(* the function, writes a private temporary entry, publishes it in one     *)
(* step and returns; it may die or be interrupted at any of these steps.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Depth, Kinds, Grain  \* Grain: "steps" explores every step of a call, "calls" only whole calls
VARIABLES kind,    \* "dir" | "file" | "memo"
          disk,    \* published entries (survive processes); "memo" has none
          mem,     \* entries the current process holds in memory
          tmp,     \* unpublished temporary entries
          call,    \* the call in progress: <<>> or <<[key, pc]>>
          evals,   \* completed evaluations per key that were neither interrupted nor failed
          answer,  \* last answer: <<>> or <<key, value>>
          hist
vars == <<kind, disk, mem, tmp, call, evals, answer, hist>>

F(k) == <<"value", k>>
Init == /\ kind \in Kinds
        /\ disk = [k \in {} |-> 0]
        /\ mem = [k \in {} |-> 0]
        /\ tmp = {}
        /\ call = <<>>
        /\ evals = [k \in Keys |-> 0]
        /\ answer = <<>>
        /\ hist = <<>>
Known(k) == (kind = "dir" /\ k \in DOMAIN disk) \/ (kind # "dir" /\ k \in DOMAIN mem)
Look(k) == IF kind = "dir" THEN disk[k] ELSE mem[k]
Log(a, k) == hist' = Append(hist, [act |-> a, k |-> k])
Room == Len(hist) < Depth

Begin(k) == /\ call = <<>> /\ Room
            /\ call' = <<[key |-> k, pc |-> "lookup"]>>
            /\ answer' = <<>>
            /\ Log("call", k)
            /\ UNCHANGED <<kind, disk, mem, tmp, evals>>
At(pc) == call # <<>> /\ call[1].pc = pc
Go(pc) == call' = <<[call[1] EXCEPT !.pc = pc]>>
K == call[1].key
Hit == /\ At("lookup") /\ Known(K)
       /\ answer' = <<K, Look(K)>> /\ call' = <<>>
       /\ UNCHANGED <<kind, disk, mem, tmp, evals, hist>>
Miss == /\ At("lookup") /\ ~Known(K) /\ Go("eval")
        /\ UNCHANGED <<kind, disk, mem, tmp, evals, answer, hist>>
Eval == /\ At("eval") /\ Go(IF kind = "memo" THEN "store" ELSE "write")
        /\ evals' = [evals EXCEPT ![K] = @ + 1]
        /\ UNCHANGED <<kind, disk, mem, tmp, answer, hist>>
Write == /\ At("write") /\ tmp' = tmp \cup {K} /\ Go("publish")
         /\ UNCHANGED <<kind, disk, mem, evals, answer, hist>>
Publish == /\ At("publish")
           /\ disk' = IF kind = "file" THEN (K :> F(K)) @@ mem ELSE (K :> F(K)) @@ disk
           /\ tmp' = tmp \ {K} /\ Go("store")
           /\ UNCHANGED <<kind, mem, evals, answer, hist>>
Store == /\ At("store")
         /\ mem' = (K :> F(K)) @@ mem
         /\ answer' = <<K, F(K)>> /\ call' = <<>>
         /\ UNCHANGED <<kind, disk, tmp, evals, hist>>

Reload == /\ mem' = IF kind = "file" THEN disk ELSE [k \in {} |-> 0]
\* the process dies at any step of a call, or between calls
Die == /\ call # <<>>
       /\ call' = <<>> /\ answer' = <<>>
       /\ Reload
       /\ hist' = [hist EXCEPT ![Len(hist)] = [@ EXCEPT !.act = "crash"]]
       /\ evals' = IF kind = "memo" THEN [k \in Keys |-> 0] ELSE [evals EXCEPT ![K] = 0]
       /\ UNCHANGED <<kind, disk, tmp>>
Interrupt == /\ call # <<>>
             /\ call' = <<>> /\ answer' = <<>>
             /\ hist' = [hist EXCEPT ![Len(hist)] = [@ EXCEPT !.act = "raise"]]
             /\ evals' = [evals EXCEPT ![K] = 0]
             /\ UNCHANGED <<kind, disk, mem, tmp>>
\* the function itself raises
Fail == /\ At("eval")
        /\ call' = <<>> /\ answer' = <<>>
        /\ hist' = [hist EXCEPT ![Len(hist)] = [@ EXCEPT !.act = "fail"]]
        /\ UNCHANGED <<kind, disk, mem, tmp, evals>>
Restart == /\ call = <<>> /\ Room
           /\ Reload
           /\ evals' = IF kind = "memo" THEN [k \in Keys |-> 0] ELSE evals
           /\ answer' = <<>>
           /\ Log("restart", 0)
           /\ UNCHANGED <<kind, disk, tmp, call>>
Wipe == /\ call = <<>> /\ Room /\ kind = "dir"
        /\ disk' = [k \in {} |-> 0] /\ tmp' = {}
        /\ evals' = [k \in Keys |-> 0]
        /\ answer' = <<>>
        /\ Log("wipe", 0)
        /\ UNCHANGED <<kind, mem, call>>
\* whole calls, for generation
Whole(k) == /\ call = <<>> /\ Room
            /\ \E a \in {"call", "crash", "raise", "fail"} : Log(a, k)
            /\ UNCHANGED <<kind, disk, mem, tmp, call, evals, answer>>
Next == \/ Restart \/ Wipe
        \/ IF Grain = "calls" THEN \E k \in Keys : Whole(k)
           ELSE (\E k \in Keys : Begin(k)) \/ Hit \/ Miss \/ Eval \/ Write \/ Publish \/ Store \/ Die \/ Interrupt \/ Fail
Spec == Init /\ [][Next]_vars

Right == answer # <<>> => answer[2] = F(answer[1])
NoMix == /\ \A k \in DOMAIN disk : disk[k] = F(k)
         /\ \A k \in DOMAIN mem : mem[k] = F(k)
AtMostOnce == \A k \in Keys : evals[k] <= 1
View == <<kind, disk, mem, tmp, call, evals, answer, Len(hist)>>
Emit == IF Len(hist) = Depth THEN PrintT("SCEN|" \o ToJson([kind |-> kind, hist |-> hist])) ELSE TRUE
=============================================================================
