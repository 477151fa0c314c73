------------------------------- MODULE TuneTrace -------------------------------
(* How samplers tune themselves, against what they measured before: the length of their chains while the pool fills, the step and the
   number of steps of Hamiltonian moves, the width of slices, and the thinning of chains.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
C(c, ok) == IF ok THEN {} ELSE {c}
Abs1(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

(* k of n steps accepted, poolsize p, from x to y, both in thousandths; N whole steps afterwards.
   nothing accepted: y = (1 + 5/p) x;  else y = (1 - 5/p) x + 25/p * (2 n / k - 1); at most mx *)
FlyOk(e) == LET kk == IF e.k = 0 THEN 1 ELSE e.k
                want == IF e.k = 0 THEN (e.p + 5) * e.x ELSE (e.p - 5) * e.x * kk + 25000 * (2 * e.n - e.k)
                got == e.y * e.p * kk
                cap == e.mx * 1000 * e.p * kk
            IN Abs1(got - Min2(want, cap)) <= 2 * e.p * kk
V_Fly(e) == C("chain-length-does-not-follow-the-acceptance", FlyOk(e))
  \cup C("chain-length-longer-than-allowed", e.y <= e.mx * 1000 + 1)
  \cup C("chain-length-is-not-the-whole-part", \E q \in {e.y - 1, e.y, e.y + 1} : e.N = Max2(5, IF q < 0 THEN 0 ELSE q \div 1000))

(* acc: acceptance in millionths; g: log of new scale over old in units of 1e-9; dt: relative deviation of dt from base * scale; extra: L - base *)
V_Hmc(e) == C("step-does-not-follow-the-acceptance", Abs1(e.g - (e.acc - 500000)) <= 3)
  \cup C("step-is-not-base-times-scale", e.dt <= 10)
  \cup C("number-of-steps-does-not-follow-the-chain-length", e.extra >= e.N /\ e.extra < 5 * e.N)
  \cup C("moves-differ-in-step", e.moves)

(* m: new width over old in millionths; where the candidates of the last slice were seen: by how many units the interval had been
   widened before the first of them, and how many there were, the last one accepted or not *)
V_Slice(e) == LET ne == Max2(1, e.ne) nc == Max2(1, e.nc) IN
  C("expansions-miscounted", e.seen => e.ne = e.out)
  \cup C("contractions-miscounted", e.seen => e.nc \in {e.cand - 1, e.cand}) \cup
  IF e.cnt < 10 * e.p
  THEN C("width-does-not-follow-expansions-and-contractions", Abs1(e.m * (ne + nc) - 2000000 * ne) <= 3 * (ne + nc))
  ELSE C("width-still-changes-after-tuning", e.m = 1000000)

(* m rows, thinned by l; rows: what came out, by number from 0 *)
Kept(e) == {e.rows[i] : i \in 1..Len(e.rows)}
V_Thin(e) == C("rows-from-nowhere", \A i \in 1..Len(e.rows) : e.rows[i] \in 0..(e.m - 1))
  \cup C("rows-closer-than-the-chain-remembers", \A i \in 1..Len(e.rows) : e.rows[i] % e.l = 0)
  \cup C("rows-repeated", Cardinality(Kept(e)) = Len(e.rows))
  \cup C("nothing-left", Len(e.rows) >= 1)
  \cup C("rows-as-dense-as-the-last-one-lost", e.flat => Len(e.rows) = (e.m + e.l - 1) \div e.l)
  \cup C("rows-altered", e.same)
V_Freq(e) == C("rows-kept-at-another-rate", e.k >= e.lo /\ e.k <= e.hi)

VARIABLES tid, l, err
Ev == Traces[tid].ev
V(e) == CASE e.a = "fly" -> V_Fly(e) [] e.a = "hmc" -> V_Hmc(e) [] e.a = "slice" -> V_Slice(e) [] e.a = "thin" -> V_Thin(e)
          [] e.a = "freq" -> V_Freq(e) [] e.a = "Crash" -> {"the-code-failed"}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = FALSE
Next ==
  \/ /\ ~err /\ l <= Len(Ev) /\ LET v == V(Ev[l]) IN err' = (v # {}) /\ (IF v = {} THEN TRUE ELSE PrintT("@@V " \o ToString(tid) \o " " \o ToString(l) \o " " \o (CHOOSE x \in v : TRUE)))
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ ~err /\ l = Len(Ev) + 1 /\ PrintT("@@E " \o ToString(tid) \o " " \o ToString(l)) /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
Spec == Init /\ [][Next]_<<tid, l, err>>
=============================================================================
