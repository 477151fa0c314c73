--------------------------------- MODULE Moves ---------------------------------
(* The geometry of single ensemble moves. The harness measures, for every member (or pair, or triple) of the ensemble, how far the
   move is from one that used it; the clauses say that one of them fits. Lengths are relative, in units of 1e-9; factors in 1e-6. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
C(c, ok) == IF ok THEN {} ELSE {c}
Tol == 20
Abs1(x) == IF x < 0 THEN -x ELSE x
Clean(e) == C("ensemble-changed", e.same) \cup C("point-of-another-shape", e.shape)

(* [r |-> distance from the line through old and member k, z |-> scale factor, jd |-> |log_J - dim * log(factor)|, at |-> old is the member] *)
V_Stretch(e) == Clean(e)
  \cup C("not-on-a-line-through-a-member", \E k \in 1..Len(e.fit) : e.fit[k].r <= Tol)
  \cup C("scale-factor-out-of-range", \E k \in 1..Len(e.fit) : e.fit[k].r <= Tol /\ (e.fit[k].at \/ e.fit[k].z \in 499999..2000001))
  \cup C("jacobian-is-not-dim-times-log-factor",
         \E k \in 1..Len(e.fit) : e.fit[k].r <= Tol /\ (e.fit[k].at \/ (e.fit[k].z \in 499999..2000001 /\ e.fit[k].jd <= 1000)))
(* for each pair of distinct members: distance from old + g * (b - a), with the best factor g; w: its distance from 1 *)
V_DE(e) == Clean(e) \cup C("jacobian-not-zero", e.j = 0)
  \cup C("not-a-difference-of-two-members", \E k \in 1..Len(e.fit) : e.fit[k].r <= Tol /\ e.fit[k].w <= 1000)
V_Eigen(e) == Clean(e) \cup C("jacobian-not-zero", e.j = 0) \cup C("not-along-an-eigenvector", e.res <= 5000)
V_Walk(e) == Clean(e) \cup C("jacobian-not-zero", e.j = 0)
  \cup C("not-a-combination-of-deviations-of-distinct-members", \E k \in 1..Len(e.fit) : e.fit[k] <= Tol)
V_SliceDE(e) == Clean(e) \cup C("direction-is-not-a-difference-of-two-members", \E k \in 1..Len(e.fit) : e.fit[k].r <= Tol /\ e.fit[k].w <= 1)
V_SliceG(e) == Clean(e) \cup C("direction-of-another-length", Abs1(e.res) <= 100)

VARIABLES tid, l, err
Ev == Traces[tid].ev
V(e) == CASE e.a = "stretch" -> V_Stretch(e) [] e.a = "de" -> V_DE(e) [] e.a = "eigen" -> V_Eigen(e) [] e.a = "walk" -> V_Walk(e)
          [] e.a = "slicede" -> V_SliceDE(e) [] e.a = "sliceg" -> V_SliceG(e) [] e.a = "any" -> Clean(e)
          (* of n walk moves in ensembles in general position, k made no step or one along the line of two members *)
          [] e.a = "few" -> C("walk-of-repeated-members", e.k <= 1 + e.n \div 50)
          [] e.a = "Crash" -> {"the-code-failed"}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = FALSE
Next ==
  \/ /\ ~err /\ l <= Len(Ev) /\ LET v == V(Ev[l]) IN err' = (v # {}) /\ (IF v = {} THEN TRUE ELSE PrintT("@@V " \o ToString(tid) \o " " \o ToString(l) \o " " \o (CHOOSE x \in v : TRUE)))
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ ~err /\ l = Len(Ev) + 1 /\ PrintT("@@E " \o ToString(tid) \o " " \o ToString(l)) /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
Spec == Init /\ [][Next]_<<tid, l, err>>
=============================================================================
