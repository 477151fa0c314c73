------------------------------- MODULE FleetTrace -------------------------------
(* The fleet of a run of the real code, through interrupts and resumes: who was started, with what, and what each of them drew.
   Objects, files, channels and drawn values are numbers, equal exactly when they were the same.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
On == IOEnv.ENFORCED
VARIABLES tid, l, st, err
Ev == Traces[tid].ev
C(c, ok) == IF ok THEN {} ELSE {c}
Set(s) == {s[k] : k \in 1..Len(s)}
Ask0 == [n |-> 0, h |-> 0, s |-> 0, chans |-> <<>>, mode |-> "none", old |-> FALSE]
S0 == [ask |-> Ask0, mem |-> <<>>, drew |-> <<>>, saved |-> [f \in {} |-> <<>>]]
Mem == Set(st.mem)
Of(k) == Cardinality({i \in 1..Len(st.mem) : st.mem[i].kind = k})
V(e) ==
  CASE e.a = "Member" ->
         C("more-samplers-than-asked-for", Len(st.mem) < st.ask.n)
         \cup C("channel-shared-by-two-samplers", \A m \in Mem : m.chan # e.chan)
         \cup C("channel-unknown-to-the-nested-sampler", e.chan \in Set(st.ask.chans))
         \cup C("state-file-shared-by-two-samplers", \A m \in Mem : m.file # e.file)
         \cup C("seed-shared-by-two-samplers", \A m \in Mem : e.new /\ m.new => m.seed # e.seed)
         \cup C("proposal-object-shared-by-two-samplers", \A m \in Mem : Set(m.props) \cap Set(e.props) = {})
         \cup C("proposal-of-another-kind", e.pkind = e.kind)
         \cup C("the-state-of-another-sampler-or-a-changed-one", ~e.new /\ e.file \in DOMAIN st.saved => st.saved[e.file] = e.pool)
         \cup C("a-saved-sampler-was-not-resumed", e.new /\ st.ask.old => e.file \notin DOMAIN st.saved)
         \cup C("samplers-resumed-without-the-nested-sampler", ~e.new => st.ask.old)
    [] e.a = "Started" ->
         C("number-of-samplers", Len(st.mem) = st.ask.n)
         \cup C("kinds-of-samplers", Of("hmc") = st.ask.h /\ Of("sli") = st.ask.s /\ Of("mhs") = st.ask.n - st.ask.h - st.ask.s)
         \cup C("channels-of-the-nested-sampler", Set(st.ask.chans) = {m.chan : m \in Mem})
    [] e.a = "Draws" ->
         C("random-stream-shared-by-two-samplers", \A k \in 1..Len(st.drew) : st.drew[k].i # e.i => Set(st.drew[k].v) \cap Set(e.v) = {})
         \cup C("prior-draws-shared-by-two-samplers", \A k \in 1..Len(st.drew) : st.drew[k].i # e.i => Set(st.drew[k].pts) \cap Set(e.pts) = {})
    [] e.a = "Saved" -> C("state-not-saved-in-its-own-file", e.there)
    [] e.a = "Crash" -> {"the-code-failed"}
    [] OTHER -> {}
Step(e) ==
  CASE e.a = "Ask" -> [S0 EXCEPT !.ask = e, !.saved = st.saved]
    [] e.a = "Member" -> [st EXCEPT !.mem = Append(@, e)]
    [] e.a = "Draws" -> [st EXCEPT !.drew = Append(@, e)]
    [] e.a = "Saved" -> [st EXCEPT !.saved = [f \in DOMAIN @ \cup {e.file} |-> IF f = e.file THEN e.pool ELSE @[f]]]
    [] OTHER -> st
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = FALSE /\ st = S0
Next ==
  \/ /\ ~err /\ l <= Len(Ev) /\ LET v == V(Ev[l]) IN err' = (v # {}) /\ (IF v = {} THEN TRUE ELSE PrintT("@@V " \o ToString(tid) \o " " \o ToString(l) \o " " \o (CHOOSE x \in v : TRUE)))
     /\ st' = Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
  \/ ~err /\ l = Len(Ev) + 1 /\ PrintT("@@E " \o ToString(tid) \o " " \o ToString(l)) /\ l' = l + 1 /\ UNCHANGED <<tid, err, st>>
Spec == Init /\ [][Next]_<<tid, l, st, err>>
=============================================================================
