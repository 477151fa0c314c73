--------------------------------- MODULE Chain ---------------------------------
(* Chains under an adversary that decides the outcome of every proposal: how the ratio decides (a1..a3: accepted, r1..r4: rejected,
   each by another combination of prior and Jacobian) and how the likelihood compares with the threshold. The machine below makes
   the chains as the samplers do; ChainCore must allow all of it, whatever the adversary does. Its scripts drive the real samplers. *)
EXTENDS ChainCore, TLC, Json
CONSTANTS Kind, PoolN, Nms, Mxs, Hows, Liks, MaxChains, MaxSteps, Defects

VARIABLES c, pc, cur, idx, rec, next, hist, acc, sub, tot, cnt, pool, bad
vars == <<c, pc, cur, idx, rec, next, hist, acc, sub, tot, cnt, pool, bad>>

Init == /\ pool = [k \in 1..PoolN |-> k] /\ c = Fresh(Kind, pool) /\ pc = "idle" /\ cur = 0 /\ rec = <<>> /\ next = PoolN + 1
        /\ hist = <<>> /\ acc = 0 /\ sub = 0 /\ tot = 0 /\ cnt = 0 /\ idx = 0 /\ bad = {}

Begin == /\ pc = "idle" /\ Len(hist) < MaxChains
         /\ \E Nm \in Nms, mx \in Mxs :
              /\ c' = E_Begin(c, [pool |-> pool, Nm |-> Nm, mx |-> mx])
              /\ hist' = Append(hist, [Nm |-> Nm, mx |-> mx, steps |-> <<>>])
         /\ cur' = (IF Kind = "mh" THEN pool[1] ELSE pool[Len(pool)]) /\ pc' = "run" /\ acc' = 0 /\ sub' = 0 /\ rec' = <<>>
         /\ UNCHANGED <<idx, next, tot, cnt, pool, bad>>

Above(l) == l \in {"above", "just"}
Propose ==
  /\ pc = "run" /\ sub < MaxSteps
  /\ \E h \in Hows, l \in Liks :
       LET dec == IF h \in {"a1", "a2", "a3"} THEN "acc" ELSE "rej"
           ok == (dec = "acc" \/ "noratio" \in Defects) /\ (Above(l) \/ ("atbound" \in Defects /\ l = "equal"))
           e == [from |-> cur, y |-> next, above |-> Above(l), dec |-> dec, next |-> IF Kind = "mh" THEN (IF ok THEN next ELSE cur) ELSE 0]
           fin == IF Kind = "mh" THEN ((sub + 1 >= c.Nm /\ (acc > 0 \/ ok \/ "early" \in Defects)) \/ sub + 1 >= c.mx) ELSE ok
       IN /\ bad' = bad \cup V_Step(c, e) /\ c' = E_Step(c, e)
          /\ cur' = (IF ok THEN next ELSE cur) /\ acc' = acc + (IF ok THEN 1 ELSE 0)
          /\ hist' = [hist EXCEPT ![Len(hist)].steps = Append(@, <<h, l>>)]
          /\ rec' = (IF Kind = "mh" THEN Append(rec, cur') ELSE rec)
          /\ pc' = (IF fin THEN "end" ELSE "run")
  /\ next' = next + 1 /\ sub' = sub + 1
  /\ UNCHANGED <<idx, tot, cnt, pool>>

End == /\ pc = "end" /\ pc' = "idle"
       /\ LET p2 == IF Kind = "mh" THEN Append(Tail(pool), cur) ELSE Append(SubSeq(pool, 1, Len(pool) - 1), cur)
              e == [res |-> cur, n |-> sub, pool |-> p2, rec |-> IF Kind = "mh" THEN rec ELSE <<cur>>, sub |-> (acc * 100000) \div sub,
                    tot |-> tot + acc, cnt |-> cnt + sub, acc |-> ((tot + acc) * 100000) \div (cnt + sub), own |-> TRUE, inside |-> TRUE,
                    above |-> TRUE]
          IN /\ bad' = bad \cup V_End(c, e) /\ c' = E_End(c, e) /\ pool' = p2 /\ tot' = e.tot /\ cnt' = e.cnt
       /\ UNCHANGED <<cur, rec, next, hist, acc, sub, idx>>
Finish == pc = "idle" /\ Len(hist) = MaxChains /\ pc' = "over" /\ UNCHANGED <<c, cur, idx, rec, next, hist, acc, sub, tot, cnt, pool, bad>>
Next == Begin \/ Propose \/ End \/ Finish
Spec == Init /\ [][Next]_vars

Allowed == bad = {}
Emit == pc = "over" => PrintT("@@B " \o ToJson(hist))
=============================================================================
