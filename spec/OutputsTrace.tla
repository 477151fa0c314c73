----------------------------- MODULE OutputsTrace -----------------------------
(* The files of a run of the real code, operation by operation, and in the end against what the run handed back. cfg: v, prior, lives;
   promised and handed as in Outputs. Kinds of paths: "own" (a temporary file a sampler of this run wrote), "state" (checkpoints and
   their temporary files), "out" (a name the run writes), "decoy" (of others, anywhere).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
On == IOEnv.ENFORCED
VARIABLES tid, l, err
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
C(c, ok) == IF ok THEN {} ELSE {c}
Is(p) == On = p
In(n, s) == \E k \in 1..Len(s) : s[k] = n
V(e) ==
  IF Is("C19") THEN
    CASE e.a = "Remove" -> C("a-file-of-others-deleted", e.kind # "decoy") \cup C("a-file-deleted-that-no-sampler-of-the-run-wrote", e.kind \in {"own", "state"})
      [] e.a = "Write" -> C("a-file-of-others-written", e.kind # "decoy") \cup C("a-file-outside-the-output-folder", e.inside)
      [] e.a = "Decoys" -> C("a-file-of-others-changed", e.ok)
      [] e.a = "End" -> C("a-promised-file-is-missing", \A k \in 1..Len(Cfg.promised) : In(Cfg.promised[k], e.files))
                        \cup C("insertion-indices-missing", e.ins) \cup C("no-array-handed-back", \A k \in 1..Len(Cfg.handed) : In(Cfg.handed[k], e.mem))
                        \cup C("temporary-files-left", e.left = 0)
      [] e.a = "Chain" -> C("chain-file-columns", e.cols) \cup C("chain-file-rows", e.rows = e.n) \cup C("chain-file-values", e.dev = 0)
      [] e.a = "Evidence" -> C("evidence-file", e.z) \cup C("best-likelihood-in-the-evidence-file", e.l) \cup C("information-in-the-evidence-file", e.h)
      [] e.a = "Table" -> C("column-names-of-" \o e.n, e.cols) \cup C("values-of-" \o e.n, e.same)
      [] e.a = "Nested" -> C("nested-samples-are-not-those-of-the-sampler", e.same)
      [] e.a = "Posterior" -> C("posterior-is-not-part-of-the-nested-samples", e.part)
      [] e.a = "Prior" -> C("prior-samples-of-a-sampler-lost-or-altered", e.whole) \cup C("not-a-prior-sample", e.only)
      [] e.a = "Mcmc" -> C("chain-of-a-sampler-lost", e.each) \cup C("not-a-sample-of-the-chains", e.part)
      [] e.a = "Crash" -> {"the-code-failed"}
      [] OTHER -> {}
  ELSE IF Is("C21") THEN
    CASE e.a = "Log" -> C("no-log-file", e.there) \cup C("messages-of-the-run-not-in-its-log", e.in) \cup C("messages-of-others-in-the-log", ~e.out)
                        \cup C("earlier-messages-lost", e.kept)
      [] e.a = "Handlers" -> C("a-handler-was-left-behind", e.n = 0)
      [] OTHER -> {}
  ELSE {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = FALSE
Next ==
  \/ /\ ~err /\ l <= Len(Ev) /\ LET v == V(Ev[l]) IN err' = (v # {}) /\ (IF v = {} THEN TRUE ELSE PrintT("@@V " \o ToString(tid) \o " " \o ToString(l) \o " " \o (CHOOSE x \in v : TRUE)))
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ ~err /\ l = Len(Ev) + 1 /\ PrintT("@@E " \o ToString(tid) \o " " \o ToString(l)) /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
Spec == Init /\ [][Next]_<<tid, l, err>>
=============================================================================
