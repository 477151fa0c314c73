-------------------------------- MODULE Weights --------------------------------
(* Posterior weights and draws. A run is a number of live points N and the likelihoods of its samples in ascending order, the last N
   of them being the final live set. Volumes, weights and the evidence are exact: integers over the run's own denominator Den.
   The state machine collects runs sample by sample, weighs them and draws.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, MaxLen, Levels, MaxRuns, Defects, EmitOn
(* Levels: likelihoods (0: logL = -inf). Defects: "shellnext", "nomax", "repeat", "zero", "nolength", "noevidence"                  *)
VARIABLES runs, cur, phase, draw, drawn
vars == <<runs, cur, phase, draw, drawn>>

RECURSIVE Pow(_, _), Sum(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Shrinks(r) == Len(r.L) - r.N + 1                            \* s: steps of the compression by (1 - 1/N), the first shell included
Den(r) == Pow(r.N, Shrinks(r) + 2)
(* volumes X_0 .. X_{n+1} times Den *)
Vol(r, j) == LET s == Shrinks(r) IN
             IF j <= s THEN Pow(r.N - 1, j) * Pow(r.N, s + 2 - j) ELSE Pow(r.N - 1, s + 1) * (r.N - (j - s - 1))
Lik(r, k) == IF k = 0 THEN 0 ELSE IF k > Len(r.L) THEN r.L[Len(r.L)] ELSE r.L[k]
Shell(r, k) == Vol(r, k) - Vol(r, k + 1)
(* twice the evidence, and the weights before normalisation *)
Z2(r) == Sum([k \in 1..Len(r.L) + 1 |-> (Lik(r, k - 1) + Lik(r, k)) * Shell(r, k - 1)], Len(r.L) + 1)
W(r) == [i \in 1..Len(r.L) |-> r.L[i] * Shell(r, IF "shellnext" \in Defects THEN i ELSE i - 1)]
WMax(r) == Max({W(r)[i] : i \in 1..Len(r.L)})

(* the share of a run in a combination: its evidence over its length, relative to the largest: a fraction *)
Share(rs, k) == [n |-> IF "noevidence" \in Defects THEN 1 ELSE Z2(rs[k]), d |-> (IF "noevidence" \in Defects THEN 1 ELSE Den(rs[k])) * (IF "nolength" \in Defects THEN 1 ELSE Len(rs[k].L))]
Leq(a, b) == a.n * b.d <= b.n * a.d
Best(rs) == CHOOSE k \in 1..Len(rs) : \A m \in 1..Len(rs) : Leq(Share(rs, m), Share(rs, k))
Top(rs) == {k \in 1..Len(rs) : Leq(Share(rs, Best(rs)), Share(rs, k))}

Start == [N |-> 0, L |-> <<>>]
Init == runs = <<>> /\ cur = Start /\ phase = "collect" /\ draw = <<>> /\ drawn = {}
Begin == phase = "collect" /\ cur.N = 0 /\ Len(runs) < MaxRuns /\ \E N \in Ns : cur' = [N |-> N, L |-> <<>>] /\ UNCHANGED <<runs, phase, draw, drawn>>
Add == /\ phase = "collect" /\ cur.N > 0 /\ Len(cur.L) < MaxLen
       /\ \E l \in Levels : (IF cur.L = <<>> THEN TRUE ELSE l >= cur.L[Len(cur.L)]) /\ cur' = [cur EXCEPT !.L = Append(@, l)]
       /\ UNCHANGED <<runs, phase, draw, drawn>>
Close == /\ phase = "collect" /\ cur.N > 0 /\ Len(cur.L) >= cur.N /\ cur.L[Len(cur.L)] > 0
         /\ runs' = Append(runs, cur) /\ cur' = Start /\ UNCHANGED <<phase, draw, drawn>>
Rows == {<<k, i>> : k \in 1..Len(runs), i \in 1..MaxLen}
Row(x) == x[2] <= Len(runs[x[1]].L)
(* the rows go in one after the other, each or not; those of maximal weight of a run of maximal share always do *)
Must(x) == x[1] \in Top(runs) /\ W(runs[x[1]])[x[2]] = WMax(runs[x[1]]) /\ "nomax" \notin Defects
May(x) == W(runs[x[1]])[x[2]] > 0 \/ "zero" \in Defects
Order == LET RECURSIVE F(_, _) F(k, i) == IF k > Len(runs) THEN <<>> ELSE IF i > Len(runs[k].L) THEN F(k + 1, 1) ELSE <<<<k, i>>>> \o F(k, i + 1) IN F(1, 1)
Seen == IF draw = <<>> THEN 0 ELSE CHOOSE j \in 1..Len(Order) : Order[j] = draw[Len(draw)]
Weigh == phase = "collect" /\ cur.N = 0 /\ runs # <<>> /\ phase' = "draw" /\ UNCHANGED <<runs, cur, draw, drawn>>
Draw == /\ phase = "draw" /\ \E j \in 1..Len(Order) :
             /\ IF "repeat" \in Defects THEN j >= Seen ELSE j > Seen /\ Len(draw) <= Len(Order)
             /\ May(Order[j]) /\ \A m \in Seen + 1..j - 1 : ~Must(Order[m])
             /\ draw' = Append(draw, Order[j]) /\ drawn' = drawn \cup {Order[j]}
        /\ UNCHANGED <<runs, cur, phase>>
Finish == /\ phase = "draw" /\ (\A m \in Seen + 1..Len(Order) : ~Must(Order[m])) /\ phase' = "done" /\ UNCHANGED <<runs, cur, draw, drawn>>
Next == Begin \/ Add \/ Close \/ Weigh \/ Draw \/ Finish
Spec == Init /\ [][Next]_vars

(* what the property says of volumes, weights and draws *)
AllRuns == {runs[k] : k \in 1..Len(runs)}
Compression == \A r \in AllRuns : /\ Vol(r, 0) = Den(r)
                                  /\ \A j \in 0..Len(r.L) : Vol(r, j + 1) < Vol(r, j) /\ (j < Shrinks(r) + 1 => r.N * Vol(r, j + 1) = (r.N - 1) * Vol(r, j))
                                  /\ Vol(r, Len(r.L) + 1) > 0
FinalSet == \A r \in AllRuns : \A j \in Shrinks(r) + 1..Len(r.L) - 1 : Shell(r, j) = Shell(r, j + 1)
Zeros == \A r \in AllRuns : \A i \in 1..Len(r.L) : (W(r)[i] = 0) <=> (r.L[i] = 0)
(* equal likelihoods: the earlier sample, standing for the larger shell, weighs at least as much *)
Heavier == \A r \in AllRuns : \A i \in 1..Len(r.L) - 1 : r.L[i] = r.L[i + 1] => W(r)[i] >= W(r)[i + 1]
Evidence == \A r \in AllRuns : Z2(r) > 0 /\ Z2(r) <= 2 * r.L[Len(r.L)] * Den(r)
(* the weights are an upper sum of the evidence *)
Upper == \A r \in AllRuns : 2 * Sum(W(r), Len(r.L)) + 2 * r.L[Len(r.L)] * Shell(r, Len(r.L)) >= Z2(r)
Distinct == \A a, b \in 1..Len(draw) : a # b => draw[a] # draw[b]
NoZero == \A a \in 1..Len(draw) : runs[draw[a][1]].L[draw[a][2]] > 0
HasBest == phase = "done" => \E k \in 1..Len(runs) : (\A m \in 1..Len(runs) : Z2(runs[m]) * Den(runs[k]) * Len(runs[k].L) <= Z2(runs[k]) * Den(runs[m]) * Len(runs[m].L))
              /\ \E i \in 1..Len(runs[k].L) : runs[k].L[i] * Shell(runs[k], i - 1) = Max({runs[k].L[m] * Shell(runs[k], m - 1) : m \in 1..Len(runs[k].L)}) /\ <<k, i>> \in drawn

Out(r) == [N |-> r.N, L |-> r.L, W |-> W(r), Z2 |-> Z2(r), D |-> Den(r), X |-> [j \in 1..Len(r.L) + 2 |-> Vol(r, j - 1)]]
Emit == (EmitOn /\ phase = "draw" /\ draw = <<>>) =>
          PrintT("@@B " \o ToJson([runs |-> [k \in 1..Len(runs) |-> Out(runs[k])], share |-> [k \in 1..Len(runs) |-> Share(runs, k)], top |-> [k \in 1..Len(runs) |-> k \in Top(runs)]]))
NoDraw == EmitOn => phase # "done" /\ Len(draw) = 0
================================================================================
