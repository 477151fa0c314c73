------------------------------- MODULE ChainTrace -------------------------------
(* Validates recorded chains of the real samplers against ChainCore. *)
EXTENDS ChainCore, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Enforced == {x \in {"C10", "C11", "C12", "C13"} : \E k \in 0..9 : k * 4 + 3 <= Len(IOEnv.ENFORCED) /\ SubSeq(IOEnv.ENFORCED, k * 4 + 1, k * 4 + 3) = x}

VARIABLES tid, l, c, err
vars == <<tid, l, c, err>>
Ev == Traces[tid].ev

Step(e) ==
  CASE e.a = "Begin" -> [v |-> {}, t |-> E_Begin(c, e)]
    [] e.a = "Step" -> [v |-> V_Step(c, e), t |-> E_Step(c, e)]
    [] e.a = "Dir" -> [v |-> {}, t |-> E_Dir(c, e)]
    [] e.a = "Eval" -> [v |-> V_Eval(c, e), t |-> E_Eval(c, e)]
    [] e.a = "End" -> [v |-> V_End(c, e), t |-> E_End(c, e)]
    [] e.a = "Int" -> [v |-> V_Int(c, e), t |-> E_Int(c, e)]
    [] e.a = "Freq" -> [v |-> V_Freq(c, e), t |-> c]
    [] e.a = "Endless" -> [v |-> {[p |-> P(c), c |-> "chain-does-not-end"]}, t |-> c]
    [] e.a = "Crash" -> [v |-> {[p |-> P(c) \cup {"C10"}, c |-> "the-code-failed"]}, t |-> c]
    [] e.a = "Cut" -> [v |-> {}, t |-> c]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = FALSE /\ c = Fresh(Traces[tid].cfg.kind, Traces[tid].cfg.pool)
Next ==
  \/ /\ ~err /\ l <= Len(Ev)
     /\ LET r == Step(Ev[l])
            bad == {x \in r.v : x.p \cap Enforced # {}}
        IN /\ err' = (bad # {}) /\ c' = r.t
           /\ IF bad = {} THEN TRUE ELSE PrintT("@@V " \o ToString(tid) \o " " \o ToString(l) \o " " \o (CHOOSE x \in bad : TRUE).c)
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ ~err /\ l = Len(Ev) + 1
     /\ PrintT("@@E " \o ToString(tid) \o " " \o ToString(l))
     /\ l' = l + 1 /\ UNCHANGED <<tid, c, err>>
Spec == Init /\ [][Next]_vars
=============================================================================
