--------------------------------- MODULE Adapt ---------------------------------
(* How long a chain remembers: the autocorrelation of a series is summed lag by lag, from lag zero up to the first one at which no more
   than a hundredth of the variance is left. Everything is exact: deviations from the mean are taken in units of 1 / length, the length
   is 1 + 2 * sum / a0.                                                                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Series, Slips
(* Slips: a set of "mean", "lag", "late" for the defective variants *)
VARIABLES c
N(x) == Len(x)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Dev(x) == IF "mean" \in Slips THEN x ELSE [i \in 1..N(x) |-> N(x) * x[i] - Sum(x, N(x))]
(* the ends of the series are joined *)
Prod(d, k) == [i \in 1..N(d) |-> d[i] * d[((i - 1 + k) % N(d)) + 1]]
Cov(d, k) == Sum(Prod(d, k), N(d))

Init == \E x \in Series : c = [x |-> x, d |-> <<>>, k |-> -1, a |-> 0, a0 |-> 0, sum |-> 0, done |-> FALSE, edge |-> FALSE]
Start == c.k = -1 /\ c' = [c EXCEPT !.d = Dev(c.x), !.k = 0]
Lag == /\ c.k >= 0 /\ ~c.done
       /\ \E a \in {Cov(c.d, c.k)} :
            LET a0 == IF c.k = 0 THEN a ELSE c.a0
                stop == a0 = 0 \/ (IF "late" \in Slips THEN a < 0 ELSE a <= a0 \div 100) \/ ("lag" \in Slips /\ c.k = 0)
            IN c' = [c EXCEPT !.a0 = a0, !.a = a, !.done = stop, !.k = IF stop THEN @ ELSE @ + 1, !.sum = IF stop THEN @ ELSE @ + a,
                              !.edge = @ \/ (a0 > 0 /\ a0 % 100 = 0 /\ a = a0 \div 100)]
Next == Start \/ Lag
Spec == Init /\ [][Next]_c

Const(x) == \A i \in 1..N(x) : x[i] = x[1]
(* a series that moves at all has a first lag without correlation, before its ends meet; one that does not has length one *)
Ends == c.k < N(c.x)
Still == c.done => (c.a0 = 0 <=> Const(c.x)) /\ (Const(c.x) => c.sum = 0 /\ c.k = 0)
AtLeast == c.done /\ ~Const(c.x) => c.sum >= c.a0 /\ c.k >= 1
(* Cauchy-Schwarz, and time does not matter *)
Bounded == c.k >= 0 /\ N(c.x) <= 6 => \A k \in 0..(N(c.x) - 1) : Cov(c.d, k) <= Cov(c.d, 0) /\ Cov(c.d, k) = Cov(c.d, (N(c.x) - k) % N(c.x))
(* where the series lies does not matter, nor what side is up *)
Shift == c.k >= 0 /\ N(c.x) <= 6 => /\ Dev([i \in 1..N(c.x) |-> c.x[i] + 7]) = c.d
                                    /\ Dev([i \in 1..N(c.x) |-> 0 - c.x[i]]) = [i \in 1..N(c.x) |-> 0 - c.d[i]]
(* what was counted is not small, what was left out is *)
Small == c.k >= 0 /\ c.a0 > 0 => IF c.done THEN c.a <= c.a0 \div 100 ELSE c.a > c.a0 \div 100
Emit == c.done => PrintT("@@B " \o ToJson([x |-> c.x, a0 |-> c.a0, sum |-> c.sum, k |-> c.k, edge |-> c.edge]))
=============================================================================
