-------------------------------- MODULE MovesGen --------------------------------
(* Positions of ensembles and current points on a small grid, repeated and collinear members included: the geometries the moves are
   tried on. With exact moves on the grid (scale factor 2, difference of two members) the clauses of Moves must hold.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dim, Size, Grid
VARIABLES e, old, done
Pts == [1..Dim -> Grid]
Init == e \in [1..Size -> Pts] /\ old \in Pts /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<e, old>>
(* the exact stretch by 2 towards member k stays on the line through it; the difference move commutes with translation *)
OnLine == \A k \in 1..Size : LET out == [d \in 1..Dim |-> e[k][d] + 2 * (old[d] - e[k][d])] IN
            \A a, b \in 1..Dim : (out[a] - e[k][a]) * (old[b] - e[k][b]) = (out[b] - e[k][b]) * (old[a] - e[k][a])
Emit == done => PrintT("@@B " \o ToJson([dim |-> Dim, e |-> [k \in 1..Size |-> [d \in 1..Dim |-> e[k][d]]], old |-> [d \in 1..Dim |-> old[d]]]))
=============================================================================
