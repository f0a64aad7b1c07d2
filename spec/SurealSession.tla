--------------------------- MODULE SurealSession ---------------------------
(***************************************************************************)
(* C12: a session is a sequence of public calls on two shared datasets.    *)
(* Abstract state: the contents of the datasets (never changed by a call), *)
(* the answers given so far (a call has one answer per argument, for the   *)
(* whole session), the objects alive for reuse and the object returned     *)
(* last, which the caller may modify.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Models
Data == {1, 2}
\* a call is a record; every field is a string or number
C(op, d, m, o) == [op |-> op, d |-> d, m |-> m, o |-> o]
Calls == { C("read", d, "", o) : d \in Data, o \in {"new", "same"} }
    \cup { C("run", d, m, o) : d \in Data, m \in Models, o \in {"new", "same"} }
    \cup { C("export", d, m, o) : d \in Data, m \in {"MOS", "BR_SR_MOS", "PERSUBJECT"}, o \in {"new", "same"} }
    \cup { C("to_pc", d, m, o) : d \in Data, m \in {"even_split", "coin_toss"}, o \in {"new", "same"} }
    \cup { C("to_dict", d, "", o) : d \in Data, o \in {"new", "same"} }
    \cup { C("combine", d, "", o) : d \in Data, o \in {"new", "same"} }
    \cup { C("run_opt", d, m, o) : d \in Data, m \in {"MOS:norm", "MOS:bias", "DMOS:zs", "P910:transform", "P910:reject", "MLE_CO:norm", "PERSUBJECT:dscore", "PERSUBJECT:zs"}, o \in {"new", "same"} }
    \cup { C("pc_read", d, "", o) : d \in Data, o \in {"new", "same"} }
    \cup { C("pc_run", d, m, o) : d \in Data, m \in {"BT_MLE", "BT_NR", "THURSTONE_MLE"}, o \in {"new", "same"} }
    \cup { C("pc_export", d, m, o) : d \in Data, m \in {"BT_NR", "THURSTONE_MLE"}, o \in {"new", "same"} }
    \cup { C("write", d, "", "new") : d \in Data }
    \cup { C("sim", d, m, "new") : d \in Data, m \in {"missing", "select_subject", "select_video", "flip", "shuffle"} }
\* answers of these are objects the caller may modify afterwards
Returns(c) == c.op \in {"export", "pc_export", "to_pc", "combine", "sim"} \/ c.op = "to_dict"

VARIABLES content,    \* dataset -> its content (abstract)
          answers,    \* call arguments -> answer
          out,        \* the object returned last: <<>> or <<call>>
          hist        \* the calls made
vars == <<content, answers, out, hist>>

Key(c) == [c EXCEPT !.o = ""]
\* the answer is a function of the arguments and the content alone
Answer(c) == <<Key(c), IF c.op = "combine" THEN content ELSE <<content[c.d]>>>>
Init == /\ content = [d \in Data |-> d]
        /\ answers = [k \in {} |-> <<>>]
        /\ out = <<>>
        /\ hist = <<>>
Do(c) == /\ Len(hist) < Depth
         /\ hist' = Append(hist, c)
         /\ content' = content
         /\ answers' = (Key(c) :> Answer(c)) @@ answers
         /\ out' = IF Returns(c) THEN <<c>> ELSE <<>>
Scribble == /\ Len(hist) < Depth
            /\ out # <<>>
            /\ hist' = Append(hist, C("scribble", out[1].d, out[1].op, ""))
            /\ out' = <<>>
            /\ UNCHANGED <<content, answers>>
Next == Scribble \/ \E c \in Calls : Do(c)
Spec == Init /\ [][Next]_vars
\* for generation: about half of the returned objects are modified at once (TLC draws among the action instances)
GenNext == (\E i \in 1..60 : i = i /\ Scribble) \/ \E c \in Calls : Do(c)
GenSpec == Init /\ [][GenNext]_vars

InputsUnchanged == content = [d \in Data |-> d]
OneAnswer == \A k \in DOMAIN answers : answers[k] = Answer(k)
AnswersStick == [][ \A k \in DOMAIN answers : answers'[k] = answers[k] ]_answers
\* the generated sequences
Emit == IF Len(hist) = Depth THEN PrintT("SCEN|" \o ToJson(hist)) ELSE TRUE
=============================================================================
