------------------------------- MODULE ChainCore -------------------------------
(* One chain of a sampler: it starts from a point of the pool, makes steps, and puts the point it ends at back. The state holds the
   set S of points the chain may be at (a singleton wherever the random draws of the step are known); V_x is the set of clauses a
   step breaks, E_x the state after it. Kinds: "mh", "hmc", "slice". Points are identified by their coordinates.               *)
EXTENDS Integers, Sequences, FiniteSets

C(ps, c, ok) == IF ok THEN {} ELSE {[p |-> ps, c |-> c]}
Abs(x) == IF x < 0 THEN -x ELSE x
Rng(q) == {q[k] : k \in 1..Len(q)}
Cnt(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
P(c) == IF c.kind = "mh" THEN {"C11"} ELSE {"C12"}

Fresh(kind, pool) == [kind |-> kind, pool |-> pool, Nm |-> 0, mx |-> 0, S |-> {}, start |-> {}, sub |-> 0, lo |-> 0, hi |-> 0,
                      tlo |-> 0, thi |-> 0, cnt |-> 0, taken |-> FALSE, on |-> FALSE]

(* the pool is given afresh: the nested sampler's requests go there between the chains *)
E_Begin(c, e) == [c EXCEPT !.pool = e.pool, !.Nm = e.Nm, !.mx = e.mx, !.S = Rng(e.pool), !.start = Rng(e.pool),
                           !.sub = 0, !.lo = 0, !.hi = 0, !.taken = FALSE, !.on = TRUE]

Done(c) == (c.sub >= c.Nm /\ c.hi > 0) \/ c.sub >= c.mx

(* ------------------------------------------------- one proposal: `from` it was made from, `y` it is, `above` its likelihood is
   strictly above the threshold, `dec` what the prior ratio times the Jacobian says against the random number ("acc", "rej",
   "open" when the number was not seen), `next` the state recorded after the step (0: not recorded)                            *)
Take(c, e) == e.dec = "acc" /\ e.above
Stay(c, e) == e.dec = "rej" \/ ~e.above
After(c, e) == IF Take(c, e) THEN {e.y} ELSE IF Stay(c, e) THEN {e.from}
               ELSE IF e.next # 0 THEN {e.next} \cap {e.from, e.y} ELSE {e.from, e.y}
V_Step(c, e) ==
  C(P(c), "proposal-not-made-from-the-current-state", e.from \in c.S)
  \cup C({"C11"}, "more-steps-than-the-maximum", c.kind # "mh" \/ c.sub < c.mx)
  \cup (IF e.next = 0 THEN {} ELSE
        C(P(c), "accepts-below-the-threshold", ~(~e.above /\ e.next = e.y /\ e.y # e.from))
        \cup C(P(c), "accepts-against-the-ratio", ~(e.dec = "rej" /\ e.next = e.y /\ e.y # e.from))
        \cup C(P(c), "rejects-what-it-must-accept", ~(Take(c, e) /\ e.next = e.from /\ e.y # e.from))
        \cup C(P(c), "state-neither-old-nor-proposed", e.next \in {e.from, e.y}))
E_Step(c, e) ==
  LET a == After(c, e)
      one == Take(c, e) \/ (~Stay(c, e) /\ e.next # 0 /\ e.next # e.from)
      may == one \/ (~Stay(c, e) /\ (e.next = 0 \/ e.y = e.from))
  IN [c EXCEPT !.S = a, !.start = IF c.sub = 0 THEN {e.from} ELSE @, !.sub = @ + 1,
               !.lo = @ + (IF one THEN 1 ELSE 0), !.hi = @ + (IF may THEN 1 ELSE 0)]

(* ------------------------------------------------- slice sampling: a direction is drawn, then points are evaluated until one is
   inside; cand: the points from which y lies along the direction, lev: for each of them whether the prior at y is above the
   level drawn there ("yes", "no", "open")                                                                                     *)
E_Dir(c, e) == [c EXCEPT !.sub = @ + 1, !.taken = FALSE]
V_Eval(c, e) ==
  C({"C12"}, "evaluates-off-the-line", \E k \in 1..Len(e.cand) : e.cand[k] \in c.S)
E_Eval(c, e) ==
  LET K == {k \in 1..Len(e.cand) : e.cand[k] \in c.S}
      must == \A k \in K : e.above /\ e.lev[k] = "yes"
      may == \E k \in K : e.above /\ e.lev[k] # "no"
      stay == {e.cand[k] : k \in {j \in K : ~e.above \/ e.lev[j] # "yes"}}
      t == IF c.sub = 1 /\ c.lo = 0 /\ c.hi = 0 THEN [c EXCEPT !.start = {e.cand[k] : k \in K}] ELSE c
  IN IF must THEN [t EXCEPT !.S = {e.y}, !.lo = @ + (IF c.taken THEN 0 ELSE 1), !.hi = @ + (IF c.taken THEN 0 ELSE 1), !.taken = TRUE]
     ELSE IF may THEN [t EXCEPT !.S = stay \cup {e.y}, !.hi = @ + 1]
     ELSE [t EXCEPT !.S = stay]

(* ------------------------------------------------- the end of the chain. res: where it ends, n: the steps it reports, pool: after,
   rec: what it recorded; sub, acc: reported fractions in units of 1e-5, tot, cnt: reported totals; own: the likelihood and prior
   stored with res are the model's; inside: res is within the bounds, with finite prior; above: its likelihood is above the bound *)
Frac(f, k, n) == n = 0 \/ Abs(f * n - k * 100000) <= n
V_End(c, e) ==
  C(P(c), "ends-elsewhere", e.res \in c.S)
  \cup C({"C11"}, "stops-too-early", c.kind # "mh" \/ Done(c))
  \cup C(P(c), "step-count", e.n = c.sub)
  \cup C({"C11"}, "steps-not-recorded", c.kind # "mh" \/ Len(e.rec) = c.sub)
  \cup C(P(c), "records-something-else", Len(e.rec) > 0 /\ e.rec[Len(e.rec)] = e.res)
  \cup C({"C12"}, "records-something-else", c.kind = "mh" \/ Len(e.rec) = 1)
  \cup C(P(c), "pool-size", Len(e.pool) = Len(c.pool))
  \cup C(P(c), "pool-content", Cnt(e.pool, e.res) > 0 /\ Rng(e.pool) \subseteq Rng(c.pool) \cup {e.res})
  \cup C(P(c), "pool-content", c.kind = "slice" \/ \E st \in c.start : \A x \in Rng(e.pool) \cup Rng(c.pool) :
                                   Cnt(e.pool, x) = Cnt(c.pool, x) - (IF x = st THEN 1 ELSE 0) + (IF x = e.res THEN 1 ELSE 0))
  \cup C(P(c) \cup {"C13"}, "likelihood-or-prior-not-the-model's", e.own)
  \cup C(P(c) \cup {"C13"}, "ends-outside-the-support", e.res \in Rng(c.pool) \/ e.inside)
  \cup C(P(c), "ends-below-the-threshold", e.res \in Rng(c.pool) \/ e.above)
  \cup C(P(c), "acceptance-of-the-chain", \E k \in c.lo..c.hi : Frac(e.sub, k, c.sub))
  \cup C(P(c), "total-steps", e.cnt = c.cnt + c.sub)
  \cup C(P(c), "total-accepted", e.tot \in (c.tlo + c.lo)..(c.thi + c.hi))
  \cup C(P(c), "acceptance", Frac(e.acc, e.tot, e.cnt))
E_End(c, e) == [c EXCEPT !.pool = e.pool, !.tlo = e.tot, !.thi = e.tot, !.cnt = e.cnt, !.on = FALSE]

(* the chain is interrupted and the sampler saves itself: its pool is the one it had before the chain, in any order *)
V_Int(c, e) ==
  C({"C10"}, "interrupted-chain-changes-the-pool", \A x \in Rng(e.pool) \cup Rng(c.pool) : Cnt(e.pool, x) = Cnt(c.pool, x))
  \cup C({"C10"}, "interrupted-sampler-did-not-save", e.saved)
E_Int(c, e) == [c EXCEPT !.on = FALSE]

(* how often a step with a given ratio was accepted *)
V_Freq(c, e) == C(P(c), "acceptance-frequency", e.k >= e.lo /\ e.k <= e.hi)
=============================================================================
