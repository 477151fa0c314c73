------------------------------- MODULE NSTrace -------------------------------
(* Recorded runs of cpnest against NSCore. A trace is [cfg, ev]; the verdict is total: "@@V tid l clause" for the first
   step that breaks an enforced clause, "@@E tid l" when the whole trace was accepted.                                 *)
EXTENDS NSCore, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Split(str) == LET RECURSIVE go(_, _) 
                  go(k, acc) == IF k > 22 THEN acc
                                ELSE LET id == IF k < 10 THEN "C0" \o ToString(k) ELSE "C" \o ToString(k)
                                     IN go(k + 1, acc \cup {id})
              IN go(1, {})
(* the enforced properties are passed as a comma-separated list *)
Enforced == {id \in Split("") : \E k \in 0..21 : k * 4 + 3 <= Len(IOEnv.ENFORCED) /\ SubSeq(IOEnv.ENFORCED, k * 4 + 1, k * 4 + 3) = id}

VARIABLES tid, l, s, err
vars == <<tid, l, s, err>>

Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
P(i) == IF i = 0 THEN [i |-> 0, L |-> NaN, z |-> FALSE] ELSE [i |-> i, L |-> Cfg.pts[i].L, z |-> ~Cfg.pts[i].P]
Ps(q) == [k \in 1..Len(q) |-> P(q[k])]
Own(q, ok) == C({"C13"}, "stored-values-are-not-the-models-own", ok)
Good(i) == LET r == Cfg.pts[i] IN r.okL /\ r.okP /\ r.inb /\ r.nm
V_Own(q) == C({"C13"}, "sample-outside-the-support", \A k \in 1..Len(q) : Cfg.pts[q[k]].inb)
            \cup C({"C13"}, "stored-likelihood-is-not-the-models", \A k \in 1..Len(q) : Cfg.pts[q[k]].okL)
            \cup C({"C13"}, "stored-prior-is-not-the-models", \A k \in 1..Len(q) : Cfg.pts[q[k]].okP)
            \cup C({"C13"}, "coordinates-under-other-names", \A k \in 1..Len(q) : Cfg.pts[q[k]].nm)

Has(e, f) == f \in DOMAIN e
ObsLive(e) == [e EXCEPT !.live = Ps(@)]
ObsFull(e) == IF Has(e, "ns") THEN [e EXCEPT !.live = Ps(@), !.ns = Ps(@)] ELSE e

Step(e) ==
  CASE e.a = "Init" -> [v |-> V_Fleet(s, [e EXCEPT !.live = <<>>] @@ [same |-> <<>>]), t |-> [s EXCEPT !.lmax = e.lmax]]
    [] e.a = "Start" -> [v |-> {}, t |-> s]
    [] e.a = "Send" /\ e.k = "pt" -> [v |-> V_Ask(s, e.p, P(e.pt)), t |-> E_Ask(s, e.p, P(e.pt))]
    [] e.a = "Send" /\ e.k # "pt" -> [v |-> V_Tell(s, e.p), t |-> E_Tell(s, e.p)]
    [] e.a = "RecvCall" -> [v |-> V_Wait(s, e.p), t |-> s]
    [] e.a = "Recv" -> [v |-> V_Take(s, e.p, P(e.pt)), t |-> E_Take(s, e.p, P(e.pt))]
    [] e.a = "Lmin" -> [v |-> V_Thr(s, e.v, e.by), t |-> E_Thr(s, e.v)]
    [] e.a = "Lmax" -> [v |-> V_Best(s, e.v), t |-> E_Best(s, e.v)]
    [] e.a = "IterBegin" -> [v |-> V_Begin(s, ObsLive(e)) \cup V_Own(e.live), t |-> E_Begin(s, ObsLive(e))]
    [] e.a = "IterEnd" -> LET o == [e EXCEPT !.live = Ps(@), !.tail = Ps(@)]
                          IN [v |-> V_End(s, o) \cup V_Own(e.live), t |-> E_End(s, o)]
    [] e.a = "SRecv" /\ e.k = "pt" -> [v |-> V_SRecv(s, e.p, P(e.pt)), t |-> E_SRecv(s, e.p, P(e.pt))]
    [] e.a = "SRecv" /\ e.k # "pt" -> [v |-> {}, t |-> s]
    [] e.a = "SSend" -> [v |-> V_SSend(s, e.p, P(e.pt), e.moved), t |-> E_SSend(s, e.p, P(e.pt))]
    [] e.a = "SIdle" -> [v |-> V_SIdle(s, e.p), t |-> s]
    [] e.a = "SExit" -> [v |-> V_SExit(s, e.p, e.code), t |-> E_SExit(s, e.p)]
    [] e.a = "Flag" -> [v |-> {}, t |-> s]
    [] e.a = "Signal" -> [v |-> {}, t |-> E_Signal(s, e.p)]
    [] e.a = "Ckpt" -> [v |-> V_Ckpt(s, ObsFull(e)), t |-> E_Ckpt(s, ObsFull(e))]
    [] e.a = "Lost" -> [v |-> {}, t |-> E_Lost(s)]
    [] e.a = "Files" -> [v |-> V_Files(s, e), t |-> s]
    [] e.a = "MainEnd" -> [v |-> V_MainEnd(s, e), t |-> s]
    [] e.a = "AllEnd" -> [v |-> V_AllEnd(s, e), t |-> s]
    [] e.a = "Restart" -> LET o == ObsFull(e) IN [v |-> V_Restart(s, o) \cup V_Fleet(s, o) \cup V_Own(e.live) \cup V_Own(e.ns), t |-> E_Restart(s, o)]
    [] e.a = "Results" -> [v |-> V_Results(s, ObsFull(e)) \cup V_Own(e.ns), t |-> s]
    [] e.a = "Killed" -> [v |-> C({"C08"}, "interrupt-kills-a-process", FALSE), t |-> s]
    [] e.a = "Crash" -> [v |-> {[p |-> Split(""), c |-> "the-code-failed"]}, t |-> s]
    [] e.a = "Stuck" -> [v |-> {[p |-> {"C05"}, c |-> "deadlock"]}, t |-> s]
    [] e.a = "Drain" -> [v |-> {[p |-> {"C05", "C08"}, c |-> "samplers-do-not-exit"]}, t |-> s]
    [] e.a = "Cut" -> [v |-> {}, t |-> s]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ err = FALSE
        /\ s = Start(Cfg.n, Cfg.N, Cfg.prior)

Next ==
  \/ /\ ~err /\ l <= Len(Ev)
     /\ LET r == Step(Ev[l])
            bad == {x \in r.v : x.p \cap Enforced # {}}
        IN /\ err' = (bad # {})
           /\ s' = r.t
           /\ IF bad = {} THEN TRUE
              ELSE PrintT("@@V " \o ToString(tid) \o " " \o ToString(l) \o " " \o (CHOOSE x \in bad : TRUE).c)
     /\ l' = l + 1
     /\ UNCHANGED tid
  \/ /\ ~err /\ l = Len(Ev) + 1
     /\ PrintT("@@E " \o ToString(tid) \o " " \o ToString(l))
     /\ l' = l + 1
     /\ UNCHANGED <<tid, s, err>>

Spec == Init /\ [][Next]_vars
=============================================================================
