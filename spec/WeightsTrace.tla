----------------------------- MODULE WeightsTrace -----------------------------
(* Weights and draws of the real code against the rules of Weights. A trace has the exact weights (cfg.runs, computed by Weights or,
   for long runs, by its transcription); rows are numbered through all runs; deviations are relative, in units of 1e-9.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
C(c, ok) == IF ok THEN {} ELSE {c}
VARIABLES tid, l, err
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
Valid(e) == C("a-sample-that-is-no-nested-sample", \A k \in 1..Len(e.rows) : e.rows[k] # 0)
            \cup C("a-sample-of-zero-weight", \A k \in 1..Len(e.rows) : e.rows[k] = 0 \/ Cfg.pos[e.rows[k]])
Set(s) == {s[k] : k \in 1..Len(s)}
V(e) == CASE e.a = "Weigh" -> C("evidence-not-trapezoidal", e.zdev <= Cfg.tol) \cup C("weights-not-likelihood-times-shell", e.wdev <= Cfg.tol /\ e.len)
                              \cup C("zero-weight-for-positive-likelihood", e.zeros)
          [] e.a = "Draw" -> Valid(e) \cup C("a-sample-drawn-twice", Cardinality(Set(e.rows)) = Len(e.rows))
                             \cup C("no-sample-of-maximal-weight", \E k \in 1..Len(Cfg.best) : Set(Cfg.best[k]) \cap Set(e.rows) # {})
          [] e.a = "DrawN" -> Valid(e) \cup C("not-the-number-of-samples-asked-for", Len(e.rows) = e.n)
          [] e.a = "Shares" -> C("not-the-share-of-each-run", e.got = e.want)
          [] e.a = "Freq" -> C("drawn-too-often-or-too-rarely", e.lo <= e.k /\ e.k <= e.hi)
          [] e.a = "Untouched" -> C("nested-samples-changed", e.ok)
          [] e.a = "Crash" -> {"the-code-failed"}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = FALSE
Next ==
  \/ /\ ~err /\ l <= Len(Ev) /\ LET v == V(Ev[l]) IN err' = (v # {}) /\ (IF v = {} THEN TRUE ELSE PrintT("@@V " \o ToString(tid) \o " " \o ToString(l) \o " " \o (CHOOSE x \in v : TRUE)))
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ ~err /\ l = Len(Ev) + 1 /\ PrintT("@@E " \o ToString(tid) \o " " \o ToString(l)) /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
Spec == Init /\ [][Next]_<<tid, l, err>>
=============================================================================
