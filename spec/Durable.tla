-------------------------------- MODULE Durable --------------------------------
(* Checkpoints of the members of a run (the nested sampler and its samplers), system call by system call, with kills at every point,
   of one member or of the whole run, and resumes afterwards; members save at the same time, each its own process.
   The file system: names, inodes, and what is in them - a state (a number) and how many of its Parts have been written. A kill keeps what the
   calls before it did.                                                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Members, Parts, MaxOps, MaxHist, Defects, EmitOn
(* Defects: "inplace", "sharedtmp", "unlinkfirst", "early" (renamed before all is written) *)
VARIABLES pc, name, ino, next, cur, ok, poss, up, bad, hist
vars == <<pc, name, ino, next, cur, ok, poss, up, bad, hist>>
None == 0
D(d) == d \in Defects
Final(m) == <<"final", m>>
Tmp(m) == IF D("sharedtmp") THEN <<"tmp", 0>> ELSE IF D("inplace") THEN Final(m) ELSE <<"tmp", m>>
Empty == [st |-> None, w |-> 0]
(* pc: where in its checkpoint a member is; cur: the state it is in; ok: the last state whose checkpoint was completed; poss: those a resume
   may find; up: is the run alive *)
Init == /\ pc = [m \in Members |-> "idle"] /\ name = [x \in {} |-> 0] /\ ino = [i \in {} |-> Empty] /\ next = 1 /\ cur = [m \in Members |-> 1]
        /\ ok = [m \in Members |-> None] /\ poss = [m \in Members |-> {None}] /\ up = TRUE /\ bad = {} /\ hist = <<>>
H(op, m) == hist' = Append(hist, [op |-> op, m |-> m])
Room == Len(hist) < MaxHist
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
(* a member goes on with its work, and begins to save the state it has come to *)
Begin(m) == /\ up /\ Room /\ pc[m] = "idle" /\ cur[m] < MaxOps /\ cur' = [cur EXCEPT ![m] = @ + 1]
            /\ pc' = [pc EXCEPT ![m] = IF D("unlinkfirst") THEN "unlink" ELSE "open"] /\ poss' = [poss EXCEPT ![m] = @ \cup {cur'[m]}]
            /\ H("begin", m) /\ UNCHANGED <<name, ino, next, ok, up, bad>>
Go(m, p) == pc' = [pc EXCEPT ![m] = p] /\ H("step", m)
Unlink(m) == /\ up /\ Room /\ pc[m] = "unlink" /\ name' = Drop(name, Final(m)) /\ Go(m, "open") /\ UNCHANGED <<ino, next, cur, ok, poss, up, bad>>
Open(m) == /\ up /\ Room /\ pc[m] = "open"
           /\ LET i == IF Tmp(m) \in DOMAIN name THEN name[Tmp(m)] ELSE next
              IN name' = Set(name, Tmp(m), i) /\ ino' = Set(ino, i, Empty) /\ next' = IF i = next THEN next + 1 ELSE next
           /\ Go(m, "write") /\ UNCHANGED <<cur, ok, poss, up, bad>>
Target(m) == IF Tmp(m) \in DOMAIN name THEN name[Tmp(m)] ELSE IF Final(m) \in DOMAIN name THEN name[Final(m)] ELSE 0
Write(m) == /\ up /\ Room /\ pc[m] = "write" /\ Target(m) # 0
            /\ LET i == Target(m)
                   c == ino[i]
                   d == IF c.st \in {None, cur[m] * 10 + m} THEN [st |-> cur[m] * 10 + m, w |-> c.w + 1] ELSE [st |-> -1, w |-> c.w + 1]
               IN ino' = [ino EXCEPT ![i] = d] /\ Go(m, IF d.w >= Parts \/ (D("early") /\ d.w = Parts - 1) THEN "rename" ELSE "write")
            /\ UNCHANGED <<name, next, cur, ok, poss, up, bad>>
Rename(m) == /\ up /\ Room /\ pc[m] = "rename"
             /\ (IF D("inplace") \/ Tmp(m) \notin DOMAIN name THEN UNCHANGED name ELSE name' = Drop(Set(name, Final(m), name[Tmp(m)]), Tmp(m)))
             /\ ok' = [ok EXCEPT ![m] = cur[m]] /\ poss' = [poss EXCEPT ![m] = {cur[m]}] /\ Go(m, "idle") /\ UNCHANGED <<ino, next, cur, up, bad>>
(* one of them is killed: with it the run ends; the others may be killed as well or finish what they are saving *)
Kill(m) == /\ up /\ Room /\ pc[m] \notin {"idle", "dead"} /\ pc' = [pc EXCEPT ![m] = "dead"] /\ H("kill", m) /\ UNCHANGED <<name, ino, next, cur, ok, poss, up, bad>>
(* the disk is full for it: the checkpoint fails, and with it the run *)
Full(m) == /\ up /\ Room /\ pc[m] \in {"open", "write"} /\ pc' = [pc EXCEPT ![m] = "dead"] /\ H("full", m) /\ UNCHANGED <<name, ino, next, cur, ok, poss, up, bad>>
(* a signal to stop reaches it while it saves: it begins again *)
Term(m) == /\ up /\ Room /\ pc[m] \in {"write", "rename"} /\ pc' = [pc EXCEPT ![m] = IF D("unlinkfirst") THEN "unlink" ELSE "open"] /\ H("term", m)
           /\ UNCHANGED <<name, ino, next, cur, ok, poss, up, bad>>
Loads(m) == IF Final(m) \notin DOMAIN name THEN None ELSE LET c == ino[name[Final(m)]] IN IF c.w = Parts /\ c.st > 0 /\ c.st % 10 = m THEN c.st \div 10 ELSE -1
(* nobody is in the middle of a checkpoint any more: everything is read back *)
Resume == /\ up /\ Room /\ (\A m \in Members : pc[m] \in {"idle", "dead"}) /\ (\E m \in Members : pc[m] = "dead")
          /\ bad' = bad \cup {m \in Members : Loads(m) \notin poss[m]}
          /\ ok' = [m \in Members |-> Loads(m)] /\ poss' = [m \in Members |-> {Loads(m)}] /\ pc' = [m \in Members |-> "idle"]
          /\ H("resume", 0) /\ UNCHANGED <<name, ino, next, cur, up>>
End == up /\ (\A m \in Members : pc[m] = "idle") /\ Len(hist) > 3 /\ hist[Len(hist)].op = "resume" /\ up' = FALSE /\ UNCHANGED <<pc, name, ino, next, cur, ok, poss, bad, hist>>
Next == (\E m \in Members : Begin(m) \/ Unlink(m) \/ Open(m) \/ Write(m) \/ Rename(m) \/ Kill(m) \/ Full(m) \/ Term(m)) \/ Resume \/ End
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
(* a resume finds, of every member, the checkpoint it had completed or the one it was writing - not a part of one, nor nothing *)
Kept == bad = {}
(* at every moment: what a kill right now would leave *)
Always == \A m \in Members : Loads(m) \in poss[m]
NeverLost == \A m \in Members : ok[m] > 0 => Loads(m) > 0
View == <<pc, name, ino, next, cur, ok, poss, up, bad>>
Emit == EmitOn /\ ~up => PrintT("@@B " \o ToJson([ops |-> hist]))
=============================================================================
