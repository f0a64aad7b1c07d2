------------------------------ MODULE SurealGen ------------------------------
(***************************************************************************)
(* The scenario space: for every property, the set of abstract cases the   *)
(* drivers concretise (a dataset shape plus the calls made on it).  TLC    *)
(* enumerates the set of the property named by the environment and writes  *)
(* it as JSON lines.                                                       *)
(***************************************************************************)
EXTENDS SurealMLE, Json, IOUtils, SequencesExt

Id   == IOEnv.GENID
Tier == IOEnv.GENTIER

Styles == {"list", "tuple", "dict"}
Misses == {"none", "few", "many"}
RepsK  == {"one", "two", "ragged"}

Shape(styles, misses, reps, vals, sizes) ==
    [style : styles, miss : misses, reps : reps, vals : vals, size : sizes]
\* the hand-made exact data need one vote per cell
OkShape(s) == (s.vals \in {"exact", "exact2"} => s.reps = "one")
Shapes(styles, misses, reps, vals, sizes) == { s \in Shape(styles, misses, reps, vals, sizes) : OkShape(s) }

KW == [d |-> FALSE, z |-> FALSE, b |-> FALSE, rej |-> FALSE, rejtype |-> "", norm |-> FALSE, tf |-> FALSE, zm |-> TRUE]
Call(m, kw) == [model |-> m, kw |-> kw]
Plain(ms) == [i \in 1..Len(ms) |-> Call(ms[i], KW)]

MosVals == {"int5", "half", "neg", "pct", "off", "cont", "constrow", "outlier"}
Sizes   == {"v1", "o1", "tiny", "small", "mid", "tall"}

WithCalls(S, cs) == { [sh |-> s, calls |-> cs] : s \in S }

CallsOf(id) ==
    CASE id = "C03" -> <<Call("MOS", KW), Call("MOS", [KW EXCEPT !.norm = TRUE]), Call("MOS", [KW EXCEPT !.tf = TRUE])>>
      [] id = "C04" -> Plain(<<"DMOS", "SR_DMOS", "ZS_SR_DMOS", "LIVE_DMOS">>)
                       \o <<Call("MOS", [KW EXCEPT !.d = TRUE]), Call("BR_MOS", [KW EXCEPT !.d = TRUE]),
                            Call("P910", [KW EXCEPT !.d = TRUE]), Call("MOS", [KW EXCEPT !.d = TRUE, !.z = TRUE]),
                            Call("PERSUBJECT", [KW EXCEPT !.d = TRUE]),
                            Call("DMOS", [KW EXCEPT !.norm = TRUE]), Call("SR_MOS_PCC", [KW EXCEPT !.d = TRUE])>>
      [] id = "C05" -> Plain(<<"ZS_MOS", "ZS_SR_MOS", "LIVE_DMOS", "ZS_SR_DMOS">>)
                       \o <<Call("MOS", [KW EXCEPT !.z = TRUE]), Call("SR_MOS", [KW EXCEPT !.z = TRUE]),
                            Call("P910", [KW EXCEPT !.z = TRUE]), Call("PERSUBJECT", [KW EXCEPT !.z = TRUE]),
                            Call("LIVE_DMOS", [KW EXCEPT !.tf = TRUE])>>
      [] id = "C06" -> Plain(<<"BR_MOS", "BR_SR_MOS", "P913", "BR_SR_MOS_PCC">>)
                       \o <<Call("MOS", [KW EXCEPT !.b = TRUE]), Call("SR_MOS", [KW EXCEPT !.b = TRUE]),
                            Call("BR_MOS", [KW EXCEPT !.d = TRUE]), Call("PERSUBJECT", [KW EXCEPT !.b = TRUE])>>
      [] id = "C07" -> Plain(<<"SR_MOS", "BT500", "BR_SR_MOS", "P913", "ZS_SR_MOS", "SR_DMOS", "ZS_SR_DMOS">>)
                       \o <<Call("MOS", [KW EXCEPT !.rej = TRUE]), Call("BR_MOS", [KW EXCEPT !.rej = TRUE]),
                            Call("MOS", [KW EXCEPT !.rej = TRUE, !.rejtype = "kurtosis"]),
                            Call("PERSUBJECT", [KW EXCEPT !.rej = TRUE]), Call("LIVE_DMOS", [KW EXCEPT !.rej = TRUE]),
                            Call("ZS_MOS", [KW EXCEPT !.rej = TRUE]), Call("P910", [KW EXCEPT !.rej = TRUE])>>
      [] id = "C08" -> Plain(<<"SR_MOS_PCC", "SR_MOS_SRCC", "BR_SR_MOS_PCC", "BR_SR_MOS_SRCC">>)
                       \o <<Call("MOS", [KW EXCEPT !.rej = TRUE, !.rejtype = "pearson"]),
                            Call("MOS", [KW EXCEPT !.rej = TRUE, !.rejtype = "spearman"]),
                            Call("DMOS", [KW EXCEPT !.rej = TRUE, !.rejtype = "pearson"]),
                            Call("ZS_MOS", [KW EXCEPT !.rej = TRUE, !.rejtype = "spearman"])>>
      [] id = "C09" -> Plain(<<"P910", "Subject_MLE_Projection", "Subject_MLE_Projection2", "MLE_CO_AP", "MLE_CO_AP2">>)
                       \o <<Call("P910", [KW EXCEPT !.zm = FALSE]), Call("MLE_CO_AP", [KW EXCEPT !.zm = FALSE]),
                            Call("MLE_CO_AP", [KW EXCEPT !.d = TRUE]), Call("P910", [KW EXCEPT !.norm = TRUE, !.tf = TRUE])>>
      [] OTHER -> <<>>

KwSpace == [d : BOOLEAN, z : BOOLEAN, b : BOOLEAN, rej : BOOLEAN, rejtype : {"", "kurtosis", "pearson", "spearman", "bogus"},
            norm : BOOLEAN, tf : BOOLEAN, zm : BOOLEAN]
\* a rejection type given to a model that has its own correlation screening is not specified
OptCalls == { Call(m, k) : m \in ModelNames, k \in KwSpace }
OkCall(c) == /\ (c.kw.rejtype # "" => Registry[c.model].rej \notin {"pearson", "spearman"})
             /\ (~c.kw.zm => Registry[c.model].fam \in {"ap", "ap2", "mle", "mle_co"})

RawFaults == {"none", "ref_neg", "ref_frac", "ref_str", "dis_unknown", "no_os", "bad_os", "len", "mix"}
PcFaults  == {"none", "ref_neg", "dis_unknown", "no_os", "bad_os", "pc_list", "pc_subj", "pc_key", "pc_plainkey", "pc_aid", "pc_val"}
Places    == {"first", "mid", "last"}
\* two faults at once, one fault, or none
FaultScen == { s \in [kind : {"raw"}, style : Styles, f1 : RawFaults, p1 : Places, f2 : RawFaults, p2 : Places]
                     \cup [kind : {"pc"}, style : {"dict"}, f1 : PcFaults, p1 : Places, f2 : PcFaults, p2 : Places] :
               /\ s.f2 = "none" => s.p2 = "first"
               /\ s.f1 = "none" => s.f2 = "none"
               /\ {s.f1, s.f2} \cap {"mix"} # {} => s.style = "dict"
               /\ {s.f1, s.f2} \cap {"len"} # {} => s.style # "dict" }

(* options of the conversion to paired comparisons *)
PcOpts == [type : {"", "within_subject_within_content", "within_subject", "between"}, tie : {"", "even_split", "coin_toss", "bogus"},
           rate : {"none", "zero", "part", "one", "more", "neg", "per_asset", "both", "short"},
           coin : {"none", "zero", "part", "one", "neg", "big", "per_asset", "both", "short"},
           noise : {"none", "zero", "small", "large", "neg", "per_asset", "both", "short"},
           means : {"none", "given", "short"}]
Invalid(o) == { k \in DOMAIN o : o[k] \in {"between", "bogus", "neg", "big", "both", "short"} }
\* at most one invalid option at a time; few knobs at once
Knobs(o) == Cardinality({ k \in {"rate", "coin", "noise", "means"} : o[k] # "none" })
PcScen == { o \in PcOpts : Cardinality(Invalid(o)) <= 1 /\ Knobs(o) <= 2 }

PcShapes == [n : {2, 3, 4, 5, 6}, s : {1, 2, 4, 9}, fill : {"full", "half", "sparse"}, ties : {"none", "some"}, aid : {"seq", "perm"},
             dup : BOOLEAN, src : {"made", "converted"}]
ModelShapes == [n : {2, 3, 4, 5}, s : {6, 10, 14}, fill : {"full", "half"}, ties : {"none", "some"}, spread : {"close", "wide"}]

RawExportScen == [src : {"plain", "selection"}, model : {"MOS", "DMOS", "SR_MOS", "BR_SR_MOS", "ZS_MOS", "LIVE_DMOS", "LS", "P910", "PERSUBJECT"}, style : Styles, miss : {"none", "few"},
               reps : RepsK, filter : {"none", "content", "asset", "both", "empty"}, over : {"none", "some", "all"}, via : {"object", "file"}, norm : BOOLEAN]
\* comparisons, exported and loaded
PcExportScen == [src : {"comparisons"}, model : {"BT_MLE", "BT_NR", "THURSTONE_MLE"}, n : 2..5, aid : {"seq", "perm"},
                 filter : {"none", "content", "asset", "both", "empty"}, over : {"none", "some", "all"}, via : {"object", "file"}]
ExportScen == RawExportScen \cup PcExportScen
CombineScen == [s1 : Styles, s2 : Styles, r1 : RepsK, r2 : RepsK, names : {"same", "other"}, overlap : {"none", "some", "all", "dup"}, via : {"object", "file"}]

SimScen == { s \in [kind : {"missing", "corrupt_data", "select_subject", "select_video", "corrupt_subject", "synthetic", "logistic"},
                    style : Styles, miss : {"none", "few"}, reps : RepsK, p : {"none", "zero", "part", "one"},
                    beh : {"", "shuffle", "flip", "min", "mid", "max", "constant"}, seed : {"yes", "no"},
                    fault : {"none", "absent", "range", "repeat", "behaviour", "length", "seed"}] :
             /\ (s.kind # "corrupt_subject" => s.beh = "")
             /\ (s.fault \in {"repeat", "behaviour"} => s.kind = "corrupt_subject")
             /\ (s.fault = "range" => s.kind \in {"corrupt_subject", "select_subject", "select_video"})
             /\ (s.fault = "length" => s.kind \in {"synthetic", "logistic"})
             /\ (s.fault = "seed" => s.kind = "synthetic" /\ s.seed = "yes")
             /\ (s.fault # "none" => s.miss = "none" /\ s.p = "part" /\ s.style = "list" /\ s.beh \in {"", "flip"}) }

MetricScen == [metric : {"RMSE", "PCC", "SRCC", "KENDALL"}, gt : {"plain", "list", "mixed"}, vals : {"half", "few", "const", "third", "cont", "big", "pct", "fine"},
               pred : {"half", "few", "const", "cont", "big", "pct", "fine"}, n : {"two", "some", "many"}, aggr : {"", "mean", "median", "max", "min", "first"}, len : {"same", "other"}, map : BOOLEAN]
HelperScen == [fn : {"weighed_nanmean_2d", "histc", "get_cdf", "get_pdf", "gaussian", "logistic", "uniforms", "logistics", "convolve", "cmd", "indices", "unique", "inverse", "filename", "process"}]

ReportScen == { s \in [set : {"basic", "mos", "dmos", "mle", "so", "ap", "pc", "one"}, style : Styles, miss : {"none", "few"}, reps : RepsK, file : {"py", "json", "txt"},
                       kw : {"none", "norm", "tf", "rej"}, plot : {"none", "some", "all"}, cli : {"none", "stdout", "dir", "oldprint", "olddir"}, fault : {"", "unknown", "mixed", "file"}] :
                /\ (s.fault # "" => s.cli # "none")
                /\ (s.file = "txt" => s.kw = "none" /\ s.plot = "none") }

DemoScen == { s \in [miss : Misses, reps : RepsK, vals : {"int5", "half", "neg", "pct", "off", "cont", "perfect", "outlier", "inverse", "constrow"},
             size : {"o1", "tiny", "small", "mid", "tall", "crowd"}, via : {"call", "script"}] :
              \* an observer without noise makes the iteration slow
              s.vals \in {"perfect", "constrow"} => s.size \in {"tiny", "small"} }

SubScen == [kind : {"stats"}, style : Styles, miss : {"none", "few"}, reps : RepsK, frac : {"none", "part", "all", "bad"}, seeded : BOOLEAN, plot : BOOLEAN, two : BOOLEAN, json : BOOLEAN]
           \cup [kind : {"ci"}, n : {"one", "some", "many"}, nan : BOOLEAN, fault : {"none", "short", "rows"}]
           \cup [kind : {"synth"}, style : Styles, missing : {"none", "some", "bad"}, timed : BOOLEAN, zm : {"default", "on", "off"}, axes : BOOLEAN]

BootScen == { s \in [model : {"MLE_BSTP", "MLE_CO_BSTP"}, style : Styles, miss : {"none", "few"}, reps : RepsK, z : BOOLEAN, n : {"one", "two", "few", "many", "default"},
                     subj : {"on", "off", "default"}, vid : {"on", "off", "default"}, zm : {"on", "off", "default"}, fault : {"", "n", "switch", "zm"}] :
              s.fault # "" => s.n = "one" /\ s.miss = "none" /\ ~s.z /\ s.subj = "default" /\ s.vid = "default" }

MetaScen == { s \in [style : Styles, style2 : Styles, miss : {"none", "few"}, reps : RepsK, group : {"mos", "corr", "ap", "mle"}, videos : BOOLEAN, observers : BOOLEAN, rename : BOOLEAN,
                     shift : {"none", "int", "half", "big"}, kw : {"none", "d", "z", "b", "rej"}] :
              s.videos \/ s.observers \/ s.rename \/ s.shift # "none" \/ s.style # s.style2 }

PlotScen == { s \in [kind : {"raw", "quality", "subject", "content", "all"}, n : {"one", "two", "three", "nine"}, style : Styles, miss : {"none", "few"}, reps : RepsK,
                     type : {"default", "errorbar", "bar"}, sort : {"default", "yes", "no"}] :
              /\ (s.kind \in {"raw", "subject", "content"} => s.sort = "default")
              /\ (s.kind = "raw" => s.type = "default") }
            \cup [kind : {"winning"}]
            \cup [kind : {"synthetic"}, style : Styles, err : {"default", "yes", "no"}]
            \cup [kind : {"scatter"}, n : {"one", "two", "three"}, style : Styles, miss : {"none", "few"}, reps : RepsK]

Scen(id) ==
    CASE id = "C02" -> FaultScen
      [] id = "C11" -> MetaScen
      [] id = "C25" -> BootScen
      [] id = "C20" -> ReportScen
      [] id = "C26" -> DemoScen
      [] id = "C28" -> PlotScen
      [] id = "C27" -> SubScen
      [] id = "C13" -> ExportScen
      [] id = "C18" -> SimScen
      [] id = "C19" -> { s \in MetricScen : (s.len = "other" => s.n = "some" /\ s.aggr = "") /\ (s.map => s.vals # "big" /\ s.aggr \in {"", "median"}) }
      [] id = "C24" -> HelperScen
      [] id = "C17" -> CombineScen
      [] id = "C14" -> PcScen
      [] id = "C15" -> PcShapes
      [] id = "C16" -> ModelShapes
      [] id = "C01" -> WithCalls(Shapes(Styles, Misses, RepsK, {"int5", "half", "neg", "cont"}, {"v1", "o1", "tiny", "small", "mid", "crowd"}), <<>>)
      [] id = "C03" -> WithCalls(Shapes(Styles, Misses, RepsK, MosVals, Sizes), CallsOf(id))
      [] id = "C04" -> { [sh |-> s, refm |-> r, calls |-> CallsOf(id)] : s \in Shapes(Styles, Misses, RepsK, {"int5", "pct", "cont", "inverse"}, {"tiny", "small", "mid", "crowd"}),
                                                  r \in {"yes", "dup", "lack", "noscore"} }
      [] id = "C05" -> WithCalls(Shapes(Styles, Misses, RepsK, {"int5", "half", "neg", "off", "cont", "outlier"}, {"small", "mid", "tall", "crowd"}), CallsOf(id))
      [] id = "C06" -> WithCalls(Shapes(Styles, Misses, RepsK, {"int5", "half", "neg", "off", "cont", "outlier", "inverse"}, {"o1", "small", "mid", "tall", "crowd"}), CallsOf(id))
      [] id = "C07" -> WithCalls(Shapes(Styles, Misses, RepsK, {"int5", "outlier", "extreme", "inverse", "half", "exact", "exact2", "constrow", "cont"}, {"small", "mid", "tall", "crowd", "big"})
                               \cup Shapes(Styles, {"none"}, {"one"}, {"edge"}, {"edge"}), CallsOf(id))
      [] id = "C08" -> WithCalls(Shapes(Styles, Misses, RepsK, {"cont", "inverse", "outlier", "half", "constobs", "int5"}, {"small", "mid", "tall", "crowd"})
                               \cup Shapes(Styles, {"none"}, {"one"}, {"edge8"}, {"edge8"}), CallsOf(id))
      [] id = "C09" -> WithCalls(Shapes(Styles, Misses, RepsK, {"int5", "half", "neg", "pct", "off", "cont", "perfect", "outlier", "inverse"}, {"o1", "tiny", "small", "mid", "tall", "crowd"}), CallsOf(id))
      [] id = "C10" -> WithCalls(Shapes(Styles, Misses, RepsK, {"int5", "half", "neg", "pct", "cont", "inverse"}, {"small", "mid", "tall"}), <<>>)
      [] id = "C21" -> { c \in OptCalls : OkCall(c) }
      [] OTHER -> {}

ASSUME LET S == Scen(Id) IN S # {} /\ ndJsonSerialize(IOEnv.GENOUT, SetToSeq(S)) /\ PrintT("GEN|" \o ToString(Cardinality(S)))
=============================================================================
