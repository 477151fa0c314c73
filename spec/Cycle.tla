--------------------------------- MODULE Cycle ---------------------------------
(* Proposal cycles as they work: every cycle holds a random list of its members and an index. CycleCore must allow whatever this
   machine does; its histories (structure and operations) are played with real cycles.                                          *)
EXTENDS CycleCore, TLC, Json
CONSTANTS Shapes, Weights, Lens, MaxOps, Defects

VARIABLES s, cyc, idx, seen, jm, j, hist, bad
vars == <<s, cyc, idx, seen, jm, j, hist, bad>>

(* shapes of the tree; leaves beyond the members are spare moves, to be added later *)
Leaf(k) == [k |-> k, kids |-> <<>>, given |-> <<>>, len |-> 0]
Cy(kids, g, n) == [k |-> "cycle", kids |-> kids, given |-> g, len |-> n]
Trees(sh, w, n) ==
  CASE sh = "flat2" -> <<Cy(<<2, 3>>, <<w[1], w[2]>>, n), Leaf("ens"), Leaf("ens"), Leaf("ens"), Leaf("move")>>
    [] sh = "flat4" -> <<Cy(<<2, 3, 4, 5>>, <<w[1], w[2], w[3], w[1]>>, n), Leaf("ens"), Leaf("move"), Leaf("ens"), Leaf("ens"), Leaf("ens")>>
    [] sh = "nested" -> <<Cy(<<2, 3>>, <<w[1], w[2]>>, n), Leaf("ens"), Cy(<<4, 5>>, <<w[3], w[1]>>, 2), Leaf("ens"), Leaf("ens"), Leaf("ens"), Leaf("move")>>
    [] sh = "deep" -> <<Cy(<<2, 3>>, <<w[1], w[2]>>, n), Leaf("move"), Cy(<<4>>, <<1>>, 1), Cy(<<5, 6>>, <<w[3], w[1]>>, 2), Leaf("ens"), Leaf("ens"), Leaf("ens")>>
    [] sh = "addcycle" -> <<Cy(<<2>>, <<1>>, n), Leaf("ens"), Cy(<<4, 5>>, <<w[3], w[1]>>, 2), Leaf("ens"), Leaf("ens")>>
Possible(n) == {n.kids[k] : k \in {i \in 1..Len(n.kids) : n.given[i] > 0 \/ "zero" \in Defects}}
Draws(n) == IF n.k = "cycle" THEN [1..n.len -> Possible(n)] ELSE {<<>>}
RECURSIVE AllDraws(_, _)
AllDraws(t, i) == IF i > Len(t) THEN {<<>>} ELSE {<<d>> \o r : d \in Draws(t[i]), r \in AllDraws(t, i + 1)}

Init == \E sh \in Shapes, w \in [1..3 -> Weights], n \in Lens :
           /\ w[1] > 0
           /\ LET t == Trees(sh, w, n) IN
              /\ s = Fresh(t) /\ \E d \in AllDraws(t, 1) : cyc = d
              /\ idx = [i \in 1..Len(t) |-> 0] /\ seen = [i \in 1..Len(t) |-> 0]
              /\ hist = [nodes |-> t, ops |-> <<>>, done |-> FALSE]
           /\ jm = 0 /\ j = 0 /\ bad = {}

RECURSIVE Path(_, _)
Path(i, ix) == IF s.nd[i].k # "cycle" THEN <<i>>
               ELSE <<i>> \o Path(cyc[i][((ix[i] + 1) % s.nd[i].len) + 1], ix)
Log(op) == hist' = [hist EXCEPT !.ops = Append(@, op)]
Prop == LET p == Path(1, idx)
            e == [c |-> 1, path |-> p, j |-> IF "stalej" \in Defects THEN jm ELSE jm + 1, jm |-> jm + 1, ret |-> TRUE, seen |-> seen[p[Len(p)]]]
        IN /\ idx' = [i \in 1..Len(s.nd) |-> IF i \in Rng(p) /\ s.nd[i].k = "cycle" THEN (idx[i] + 1) % s.nd[i].len ELSE idx[i]]
           /\ jm' = jm + 1 /\ j' = e.j /\ bad' = bad \cup V_Prop(s, e) /\ s' = E_Prop(s, e) /\ UNCHANGED <<cyc, seen>> /\ Log([o |-> "prop"])
RECURSIVE Reach(_)
Reach(i) == {i} \cup UNION {IF "shallow" \in Defects /\ s.nd[s.nd[i].kids[k]].k = "cycle" THEN {} ELSE Reach(s.nd[i].kids[k]) : k \in 1..Len(s.nd[i].kids)}
Ens == \E e \in 1..3 : /\ seen' = [i \in 1..Len(s.nd) |-> IF i \in Reach(1) /\ s.nd[i].k # "move" THEN e ELSE seen[i]]
                       /\ s' = E_Ens(s, [c |-> 1, e |-> e]) /\ UNCHANGED <<cyc, idx, jm, j, bad>> /\ Log([o |-> "ens", e |-> e])
InTree(i) == i \in Below(s, 1)
Add == \E c \in {i \in 1..Len(s.nd) : InTree(i) /\ s.nd[i].k = "cycle"}, n \in 2..Len(s.nd), w \in Weights :
          /\ ~InTree(n) /\ \A k \in 2..Len(s.nd) : s.nd[k].k = "cycle" /\ n \in Rng(s.nd[k].kids) => FALSE
          /\ s' = E_Add(s, [c |-> c, n |-> n, w |-> w])
          /\ \E d \in Draws(s'.nd[c]) : cyc' = [cyc EXCEPT ![c] = d]
          /\ UNCHANGED <<idx, seen, jm, j, bad>> /\ Log([o |-> "add", c |-> c, n |-> n, w |-> w])
Finish == Len(hist.ops) = MaxOps /\ ~hist.done /\ hist' = [hist EXCEPT !.done = TRUE] /\ UNCHANGED <<s, cyc, idx, seen, jm, j, bad>>
Next == (Len(hist.ops) < MaxOps /\ (Prop \/ Ens \/ Add)) \/ Finish
Spec == Init /\ [][Next]_vars
Allowed == bad = {}
Emit == hist.done => PrintT("@@B " \o ToJson(hist))
=============================================================================
