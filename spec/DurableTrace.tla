------------------------------ MODULE DurableTrace ------------------------------
(* Trace validation: what the real code finds on disk - after kills, failed and interrupted checkpoints, and at every file operation in between -
   must be what Durable.tla allows: of every member, the checkpoint it completed last or one it has been writing since.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, poss, cur, st
vars == <<tid, l, poss, cur, st>>
None == 0
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
M == 1..Tr.cfg.n
(* poss: what a resume may find of each member; cur: what it saves, or has saved, at present *)
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ st = "go" /\ poss = [m \in 1..Traces[tid].cfg.n |-> {None}]
        /\ cur = [m \in 1..Traces[tid].cfg.n |-> None]
(* without a checkpoint of the nested sampler the samplers start from the prior together with it, whatever files they have *)
NsNone(t) == Tr.cfg.ns > 0 /\ t[Tr.cfg.ns] = None
Good(t, m) == t[m] \in poss[m] \/ (t[m] = None /\ m # Tr.cfg.ns /\ NsNone(t))
Bad == CASE E.a = "Begin" -> IF E.tok = None THEN "NoState" ELSE ""
         [] E.a \in {"Look", "Resume"} -> IF \E m \in M : E.toks[m] = -1 THEN (IF E.a = "Look" THEN "KillNowUnloadable" ELSE "ResumeFails")
                                          ELSE IF \E m \in M : (~Good(E.toks, m) /\ E.toks[m] = None) THEN "CheckpointLost"
                                          ELSE IF \E m \in M : ~Good(E.toks, m) THEN "NeitherOldNorNew" ELSE ""
         [] E.a = "Failed" -> "CheckpointFails"
         [] OTHER -> ""
Poss == CASE E.a = "Begin" -> [poss EXCEPT ![E.m] = @ \cup {E.tok}]
          [] E.a = "Done" -> [poss EXCEPT ![E.m] = {cur[E.m]}]
          [] E.a = "Resume" -> [m \in M |-> IF NsNone(E.toks) /\ m # Tr.cfg.ns THEN poss[m] ELSE {E.toks[m]}]
          [] OTHER -> poss
Step == /\ st = "go" /\ l <= Len(Ev)
        /\ IF Bad # "" THEN /\ st' = "bad" /\ PrintT("@@V " \o ToString(tid) \o " " \o ToString(l) \o " " \o Bad)
                            /\ UNCHANGED <<tid, l, poss, cur>>
           ELSE /\ poss' = Poss /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
                /\ cur' = (IF E.a = "Begin" THEN [cur EXCEPT ![E.m] = E.tok] ELSE cur)
End == /\ st = "go" /\ l = Len(Ev) + 1 /\ st' = "end" /\ PrintT("@@E " \o ToString(tid) \o " " \o ToString(l)) /\ UNCHANGED <<tid, l, poss, cur>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
