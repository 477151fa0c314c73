------------------------------- MODULE CycleTrace -------------------------------
(* Validates the recorded use of real proposal cycles against CycleCore. *)
EXTENDS CycleCore, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s, err
vars == <<tid, l, s, err>>
Ev == Traces[tid].ev
Step(e) ==
  CASE e.a = "Prop" -> [v |-> V_Prop(s, e), t |-> E_Prop(s, e)]
    [] e.a = "Ens" -> [v |-> {}, t |-> E_Ens(s, e)]
    [] e.a = "Add" -> [v |-> {}, t |-> E_Add(s, e)]
    [] e.a = "Wts" -> [v |-> V_Wts(s, e), t |-> E_Wts(s, e)]
    [] e.a = "Freq" -> [v |-> V_Freq(s, e), t |-> s]
    [] e.a = "Derived" -> [v |-> V_Derived(s, e), t |-> s]
    [] e.a = "Crash" -> [v |-> C("the-code-failed", FALSE), t |-> s]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = FALSE /\ s = Fresh(Traces[tid].cfg.nodes)
Next ==
  \/ /\ ~err /\ l <= Len(Ev)
     /\ LET r == Step(Ev[l])
        IN /\ err' = (r.v # {}) /\ s' = r.t
           /\ IF r.v = {} THEN TRUE ELSE PrintT("@@V " \o ToString(tid) \o " " \o ToString(l) \o " " \o (CHOOSE x \in r.v : TRUE).c)
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ ~err /\ l = Len(Ev) + 1
     /\ PrintT("@@E " \o ToString(tid) \o " " \o ToString(l))
     /\ l' = l + 1 /\ UNCHANGED <<tid, s, err>>
Spec == Init /\ [][Next]_vars
=============================================================================
