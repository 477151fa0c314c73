--------------------------------- MODULE Ranks ---------------------------------
(* The check of the insertion indices: the largest distance between their distribution and the uniform one, for the last N of them while
   the run goes on and for all of them at its end. Indices are integers in units of 1/N; distances are in units of 1 / (N * number).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Len0, Slips
(* Slips: a set of "first", "above" for the defective variants *)
VARIABLES c
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Vals(w) == {w[i] : i \in 1..Len(w)}
UpTo(w, v) == Cardinality({i \in 1..Len(w) : w[i] <= v})
Below(w, v) == IF "above" \in Slips THEN UpTo(w, v) ELSE Cardinality({i \in 1..Len(w) : w[i] < v})
Dist(w) == Max(UNION {{UpTo(w, v) * N - v * Len(w), v * Len(w) - Below(w, v) * N} : v \in Vals(w)})
Last(w) == IF Len(w) <= N THEN w ELSE IF "first" \in Slips THEN SubSeq(w, 1, N) ELSE SubSeq(w, Len(w) - N + 1, Len(w))

Init == c = [n |-> N, w |-> <<>>, roll |-> <<>>, all |-> <<>>]
Next == Len(c.w) < Len0 /\ \E v \in 0..N : LET w == Append(c.w, v) IN
          c' = [c EXCEPT !.w = w, !.roll = Append(@, Dist(Last(w))), !.all = Append(@, Dist(w))]
Spec == Init /\ [][Next]_c

Mirror(w) == [i \in 1..Len(w) |-> N - w[i]]
(* the distance is between one half over the number and one, and does not prefer a side *)
Range == \A i \in 1..Len(c.all) : 2 * c.all[i] >= N /\ c.all[i] <= N * i
Sides == c.w # <<>> => Dist(Mirror(c.w)) = Dist(c.w)
(* only the last N matter while the run goes on; with up to N of them the two checks agree *)
Recent == \A i \in 1..Len(c.w) : IF i <= N THEN c.roll[i] = c.all[i] ELSE c.roll[i] = Dist(SubSeq(c.w, i - N + 1, i))
Emit == Len(c.w) = Len0 => PrintT("@@B " \o ToJson(c))
=============================================================================
