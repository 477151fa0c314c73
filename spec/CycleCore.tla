------------------------------- MODULE CycleCore -------------------------------
(* Proposal cycles: a tree of cycles whose leaves are moves. Node 1 is the cycle that is used. nd[i] = [k |-> "cycle" / "ens" / "move",
   kids, given (weights, as given), len]; V_x gives the clauses a step breaks, E_x the state after it.                            *)
EXTENDS Integers, Sequences, FiniteSets

C(c, ok) == IF ok THEN {} ELSE {[p |-> {"C14"}, c |-> c]}
Abs(x) == IF x < 0 THEN -x ELSE x
Rng(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

Fresh(nodes) == [nd |-> nodes, used |-> [i \in 1..Len(nodes) |-> <<>>], ens |-> [i \in 1..Len(nodes) |-> 0],
                 rep |-> [i \in 1..Len(nodes) |-> <<>>], addw |-> [i \in 1..Len(nodes) |-> -1]]

(* weight of a member *)
Wt(n, x) == LET k == CHOOSE j \in 1..Len(n.kids) : n.kids[j] = x IN n.given[k]
Periodic(n, u, x) == LET k == Len(u) + 1 IN k <= n.len \/ u[k - n.len] = x

(* one proposal: path is the cycles and moves called, from the root to the move; j, jm: the Jacobian the cycle reports and the one
   the move had in that call; ret: what is returned is what the move made; seen: the ensemble the move works on                  *)
V_Prop(s, e) ==
  C("not-one-move-per-proposal", Len(e.path) >= 2 /\ e.path[1] = e.c /\ s.nd[e.path[Len(e.path)]].k # "cycle"
                                 /\ \A k \in 1..(Len(e.path) - 1) : s.nd[e.path[k]].k = "cycle" /\ e.path[k + 1] \in Rng(s.nd[e.path[k]].kids))
  \cup (IF \E k \in 1..(Len(e.path) - 1) : s.nd[e.path[k]].k # "cycle" \/ e.path[k + 1] \notin Rng(s.nd[e.path[k]].kids) THEN {} ELSE
        C("zero-weight-move-used", \A k \in 1..(Len(e.path) - 1) : Wt(s.nd[e.path[k]], e.path[k + 1]) > 0)
        \cup C("does-not-step-through-the-cycle",
               \A k \in 1..(Len(e.path) - 1) : Periodic(s.nd[e.path[k]], s.used[e.path[k]], e.path[k + 1])))
  \cup C("returns-something-else", e.ret)
  \cup C("jacobian-of-another-move", e.j = e.jm)
  \cup C("move-does-not-see-the-ensemble", Len(e.path) = 0 \/ LET m == e.path[Len(e.path)] IN s.ens[m] = 0 \/ e.seen = s.ens[m])
E_Prop(s, e) == [s EXCEPT !.used = [i \in 1..Len(s.nd) |->
                    LET K == {k \in 1..(Len(e.path) - 1) : e.path[k] = i} IN IF K = {} THEN @[i] ELSE Append(@[i], e.path[(CHOOSE k \in K : TRUE) + 1])]]

RECURSIVE Below(_, _)
Below(s, i) == {i} \cup UNION {Below(s, s.nd[i].kids[k]) : k \in 1..Len(s.nd[i].kids)}
E_Ens(s, e) == [s EXCEPT !.ens = [i \in 1..Len(s.nd) |-> IF i \in Below(s, e.c) /\ s.nd[i].k # "move" THEN e.e ELSE @[i]]]

E_Add(s, e) == [s EXCEPT !.nd[e.c].kids = Append(@, e.n), !.nd[e.c].given = [k \in 1..(Len(@) + 1) |-> IF k <= Len(@) THEN @[k] ELSE e.w],
                         !.used[e.c] = <<>>, !.addw[e.c] = IF "wm" \in DOMAIN e THEN e.wm ELSE -1]
E_Wts(s, e) == [s EXCEPT !.rep[e.c] = e.w, !.addw[e.c] = -1]
(* the weights a cycle reports, in millionths; those of the moves it was made with keep their ratios (n0 of them) *)
V_Wts(s, e) ==
  LET g == s.nd[e.c].given  w == e.w IN
  C("weights-do-not-match-the-moves", Len(w) = Len(g))
  \cup (IF Len(w) # Len(g) THEN {} ELSE
        C("weights-not-normalised", Abs(Sum(w) - 1000000) <= Len(w))
        \cup C("weight-lost-or-made-up", \A k \in 1..Len(w) : (w[k] = 0) = (g[k] = 0) /\ w[k] >= 0)
        (* a move added with weight x takes x parts to the one part of all the others (in ten-thousandths) *)
        \cup C("added-weight-out-of-proportion", s.addw[e.c] >= 0 /\ Len(s.rep[e.c]) + 1 = Len(w) =>
               LET t == 10000 + s.addw[e.c] \div 100 IN
                 /\ \A k \in 1..(Len(w) - 1) : Abs((w[k] \div 100) * t - (s.rep[e.c][k] \div 100) * 10000) <= 3 * t
                 /\ Abs((w[Len(w)] \div 100) * t - (s.addw[e.c] \div 100) * 10000) <= 3 * t)
        \cup C("weights-out-of-proportion", \A k, l \in 1..e.n0 : Abs(w[k] * g[l] - w[l] * g[k]) <= 2 * (g[l] + g[k])))
(* how often each member appears over a whole cycle *)
V_Freq(s, e) == C("frequencies-are-not-the-weights", e.k >= e.lo /\ e.k <= e.hi)
(* quantities derived from the ensemble: the relative difference to those of the ensemble set last, in units of 1e-9 *)
V_Derived(s, e) == C("derived-from-another-ensemble", e.dev <= 1000)
=============================================================================
