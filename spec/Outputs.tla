-------------------------------- MODULE Outputs --------------------------------
(* The files of a run: what is in the output folder at each moment, who wrote it, and what the run hands back. Contents are sets of
   tokens: <<"P", i>> the prior samples of sampler i, <<"M", i>> its chain, <<"N", 0>> the nested samples, and so on.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Samplers, Verbs, MaxLives, Decoys, Defects, EmitOn
(* Decoys: names of files of others. Defects: "glob", "early", "wrongarray", "lost", "onlyhere"                                       *)
VARIABLES v, prior, life, ph, st, files, mem, hist
vars == <<v, prior, life, ph, st, files, mem, hist>>
Tmp(k, i) == <<"tmp", k, i>>
O(x) == <<"out", x, 0>>
T(x) == {<<x, 0>>}
Names == {O(x) : x \in {"chain", "evidence", "header", "log", "nested", "posterior", "insertion", "prior", "mcmc"}}
Put(fs, n, c) == [x \in DOMAIN fs \cup {n} |-> IF x = n THEN c ELSE fs[x]]
Del(fs, S) == [x \in DOMAIN fs \ S |-> fs[x]]
Init == /\ v \in Verbs /\ prior \in BOOLEAN /\ life = 1 /\ ph = "new" /\ st = [i \in Samplers |-> "new"]
        /\ files = [x \in {<<"decoy", d, 0>> : d \in Decoys} |-> T("theirs")] /\ mem = [x \in {} |-> {}] /\ hist = <<>>
H(o) == hist' = Append(hist, o)
(* construction: log file and header, of the folder of this run *)
Build == /\ ph = "new" /\ ph' = "built" /\ files' = Put(Put(files, O("log"), T("log")), O("header"), T("names")) /\ H("build") /\ UNCHANGED <<v, prior, life, st, mem>>
Run == ph = "built" /\ ph' = "loop" /\ H("run") /\ UNCHANGED <<v, prior, life, st, files, mem>>
(* a sampler that starts from scratch draws from the prior; one that was resumed did so in an earlier life *)
WritesPrior == prior \/ v >= 3
Begin(i) == /\ ph \in {"loop", "looped"} /\ st[i] = "new" /\ st' = [st EXCEPT ![i] = "on"]
            /\ files' = IF WritesPrior THEN Put(files, Tmp("prior", i), {<<"P", i>>}) ELSE files
            /\ H("begin") /\ UNCHANGED <<v, prior, life, ph, mem>>
Wake(i) == /\ ph \in {"loop", "looped"} /\ st[i] = "saved" /\ st' = [st EXCEPT ![i] = "on"] /\ H("wake") /\ UNCHANGED <<v, prior, life, ph, files, mem>>
Loop == /\ ph = "loop" /\ (\A i \in Samplers : st[i] = "on") /\ ph' = "looped" /\ files' = Put(Put(files, O("chain"), T("N")), O("evidence"), T("Z")) /\ H("loop") /\ UNCHANGED <<v, prior, life, st, mem>>
End(i) == /\ ph = "looped" /\ st[i] = "on" /\ st' = [st EXCEPT ![i] = "end"]
          /\ files' = IF v >= 3 /\ ~prior THEN Put(files, Tmp("mcmc", i), {<<"M", i>>}) ELSE files
          /\ H("end") /\ UNCHANGED <<v, prior, life, ph, mem>>
(* an interrupt saves everything; the samplers of the next life go on where they were *)
Interrupt == /\ ph = "loop" /\ life < MaxLives /\ (\A i \in Samplers : st[i] = "on") /\ life' = life + 1 /\ ph' = "new" /\ st' = [i \in Samplers |-> "saved"] /\ H("interrupt")
             /\ UNCHANGED <<v, prior, files, mem>>
Joined == "early" \in Defects \/ \A i \in Samplers : st[i] = "end"
Theirs == {<<"decoy", d, 0>> : d \in Decoys}
Found(k) == {x \in DOMAIN files : \E i \in Samplers : x = Tmp(k, i)}
Gone(k) == Found(k) \cup (IF "glob" \in Defects THEN Theirs ELSE {})
Set(k) == UNION {files[x] : x \in Found(k)}
(* what get_*_samples return, and the files they write *)
Collect == LET P == Set("prior") \cup (IF prior THEN T("N") ELSE {})
               M == IF "wrongarray" \in Defects THEN Set("prior") ELSE Set("mcmc")
               f1 == IF WritesPrior THEN Del(files, Gone("prior")) ELSE files
               f2 == IF v >= 3 /\ ~prior THEN Del(f1, Gone("mcmc")) ELSE f1
               f3 == IF v >= 2 THEN Put(Put(Put(f2, O("nested"), T("N")), O("posterior"), T("Q")), O("insertion"), T("I")) ELSE f2
               f4 == IF v >= 3 THEN (IF prior THEN Put(f3, O("prior"), P) ELSE Put(Put(f3, O("prior"), P), O("mcmc"), M)) ELSE f3
               m1 == Put(Put(mem, "nested", T("N")), "posterior", T("Q"))
               m2 == IF WritesPrior /\ "lost" \notin Defects THEN Put(m1, "prior", P) ELSE m1
               m3 == IF v >= 3 /\ ~prior THEN Put(m2, "mcmc", Set("mcmc")) ELSE m2
           IN /\ ph = "looped" /\ Joined /\ ph' = "done" /\ files' = f4 /\ mem' = m3 /\ H("collect") /\ UNCHANGED <<v, prior, life, st>>
Next == Build \/ Run \/ Loop \/ Interrupt \/ Collect \/ \E i \in Samplers : Begin(i) \/ Wake(i) \/ End(i)
Spec == Init /\ [][Next]_vars

(* the property *)
Safe == \A x \in Theirs : x \in DOMAIN files /\ files[x] = T("theirs")
Done == ph = "done"
Promised == {"chain", "evidence", "header", "log"} \cup (IF v >= 2 THEN {"nested", "posterior"} ELSE {}) \cup (IF v >= 3 THEN {"prior"} ELSE {})
            \cup (IF v >= 3 /\ ~prior THEN {"mcmc"} ELSE {})
Exist == Done => {O(x) : x \in Promised} \subseteq DOMAIN files
Handed == Done => {"nested", "posterior"} \cup (IF WritesPrior THEN {"prior"} ELSE {}) \cup (IF v >= 3 /\ ~prior THEN {"mcmc"} ELSE {}) \subseteq DOMAIN mem
Agree == Done => \A n \in Promised \cap DOMAIN mem : files[O(n)] = mem[n]
Whole == Done => /\ WritesPrior => {<<"P", i>> : i \in Samplers} \subseteq mem["prior"]
                 /\ (v >= 3 /\ ~prior) => mem["mcmc"] = {<<"M", i>> : i \in Samplers}
Clean == Done => \A x \in DOMAIN files : x \in Names \cup Theirs
Emit == (EmitOn /\ Done) => PrintT("@@B " \o ToJson([v |-> v, prior |-> prior, lives |-> life, promised |-> Promised, handed |-> DOMAIN mem]))
=============================================================================
