----------------------------- MODULE SurealTrace -----------------------------
(***************************************************************************)
(* Trace validation.  Every recorded trace is one behaviour: t selects it, *)
(* l is the number of its events consumed.  An event that is not a step of *)
(* the specification is reported with the names of the clauses it breaks.  *)
(***************************************************************************)
EXTENDS SurealPlot, SurealLik, SurealMLE, SurealRefuse, SurealPC, SurealBoot, SurealMeta, SurealDemo, SurealExport, SurealSessionCheck, SurealSim, SurealMetrics, SurealParallelCheck, SurealCacheCheck, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* events excluded from evaluation (the runner lists those TLC could not evaluate)
Skipped(i, j) == ReplaceFirstSubSeq("", ToString(i) \o ", " \o ToString(j) \o "]", IOEnv.SKIP) # IOEnv.SKIP

VARIABLES t, l
vars == <<t, l>>

EventBad(tr, ev) ==
    CASE ev.op = "crash"  -> {"implementation_failed"}      \* what every behaviour of the specification forbids
      [] ev.op = "reader" -> IF ev.err # "" THEN {"raised"} ELSE ReaderBad(tr.ds[ev.d], ev.res)
      [] ev.op = "model"  -> ModelBad(tr.ds[ev.d], ev)
      [] ev.op = "converged" -> ConvergedBad(SubSeq(tr.ev, 1, ev.upto))
      [] ev.op = "loglik" -> LoglikBad(ev)
      [] ev.op = "registry" -> RegistryBad(ev.names)
      [] ev.op = "construct" -> ConstructBad(ev)
      [] ev.op = "to_pc"     -> ToPcBad(tr.ds[ev.d], ev)
      [] ev.op = "to_pc_again" -> Chk("same_seed_differs", ev.same)
      [] ev.op = "pc_reader" -> PcReaderBad(tr.ds[ev.d], ev)
      [] ev.op = "pc_model"  -> PcModelBad(tr.ds[ev.d], ev, IF ev.prev = 0 THEN <<>> ELSE <<tr.ev[ev.prev]>>)
      [] ev.op = "export"    -> IF tr.ev[ev.prev].err # "" THEN {} ELSE ExportBad(Chosen(tr.full[ev.d], ev.sel), ev, tr.ev[ev.prev])
      [] ev.op = "export_per" -> IF tr.ev[ev.prev].err # "" THEN {} ELSE PersubjectExportBad(Chosen(tr.full[ev.d], ev.sel), ev.listy, ev, tr.ev[ev.prev])
      [] ev.op = "ran"       -> {}                       \* a run other properties decide; the events after it refer to its result
      [] ev.op = "pc_load"   -> PcLoadBad(tr.full[ev.d], ev)
      [] ev.op = "export_unrun" -> Chk("export_before_run", ev.err # "")
      [] ev.op = "load"      -> LoadBad(tr.full[ev.d], ev)
      [] ev.op = "combine"   -> CombineBad(tr.ds[ev.a], tr.ds[ev.b], tr.full[ev.a], ev)
      [] ev.op = "to_dict"   -> DictStyleBad(tr.ds[ev.a], tr.full[ev.a], ev)
      [] ev.op = "sim"       -> SimBad(tr.ds[ev.d], ev)
      [] ev.op = "metric"    -> MetricBad(ev)
      [] ev.op = "num"       -> NumBad(ev)
      [] ev.op = "pmap"      -> PmBad(ev)
      [] ev.op = "demo"      -> DemoBad(ev)
      [] ev.op = "stats"     -> StatsBad(tr.ds, ev)
      [] ev.op = "boot"      -> BootBad(tr.ds[ev.d], ev)
      [] ev.op = "meta"      -> MetaBad(tr.ds[ev.a], tr.ds[ev.b], ev)
      [] ev.op = "ci"        -> CiBad(ev)
      [] ev.op = "synth"     -> SynthBad(tr.ds[ev.d], ev)
      [] ev.op = "run"       -> RunBad(tr.ds[ev.d], ev)
      [] ev.op = "report"    -> IF tr.ev[ev.prev].err # "" THEN {} ELSE ReportBad(tr.ds[ev.d], tr.ev[ev.prev], ev)
      [] ev.op = "plot"      -> PlotBad(tr.ds[ev.d], ev)
      [] ev.op = "winning"   -> WinningBad(tr.ds[ev.d], ev)
      [] ev.op = "badplot"   -> BadPlotBad(ev)
      [] ev.op = "recovered" -> RecoveredBad(ev)
      [] ev.op = "versus"    -> ScatterBad(ev)
      [] ev.op = "cli_old"   -> CliOldBad(tr.ds[ev.d], tr.ev[ev.prev], ev)
      [] ev.op = "cli"       -> CliBad(tr.ds[ev.d], tr.ev[ev.prev], ev)
      [] OTHER            -> {"unknown_event"}

Init == t \in 1..Len(Traces) /\ l = 0
Step == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1
        /\ t' = t
        /\ LET bad == IF IOEnv.SKIP # "[]" /\ Skipped(t, l + 1) THEN {} ELSE IF Traces[t].ev[l + 1].op = "session" THEN SessionBad(Traces[t], l + 1)
                     ELSE IF Traces[t].ev[l + 1].op = "cache" THEN CacheBad(Traces[t], l + 1)
                     ELSE EventBad(Traces[t], Traces[t].ev[l + 1])
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(t) \o "|" \o ToString(l + 1) \o "|" \o ToString(bad))
Next == Step
=============================================================================
