----------------------------- MODULE OrderedList -----------------------------
(* The ordered container of live points: insertion after all elements with the same or a lower key, removal of the lowest.
   Behaviours with the content and the reported position after every operation are replayed in the real container.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, MaxInit, MaxOps, Defects
VARIABLES q, hist, nid
vars == <<q, hist, nid>>

Rank(s, key) == Cardinality({i \in 1..Len(s) : IF "left" \in Defects THEN s[i].k < key ELSE s[i].k <= key})
Ins(s, x) == SubSeq(s, 1, Rank(s, x.k)) \o <<x>> \o SubSeq(s, Rank(s, x.k) + 1, Len(s))
RECURSIVE Build(_, _)
Build(s, xs) == IF xs = <<>> THEN s ELSE Build(Ins(s, Head(xs)), Tail(xs))

Init == \E n \in 0..MaxInit : \E f \in [1..n -> Keys] :
          LET xs == [i \in 1..n |-> [i |-> i, k |-> f[i]]] IN
          /\ q = Build(<<>>, xs) /\ nid = n + 1
          /\ hist = [init |-> [i \in 1..n |-> f[i]], first |-> Build(<<>>, xs), ops |-> <<>>, done |-> FALSE]
Add == \E key \in Keys : LET x == [i |-> nid, k |-> key] IN
          /\ q' = Ins(q, x) /\ nid' = nid + 1
          /\ hist' = [hist EXCEPT !.ops = Append(@, [o |-> "add", k |-> key, at |-> Rank(q, key), q |-> Ins(q, x)])]
Del == \E n \in 1..2 : /\ n <= Len(q) /\ q' = SubSeq(q, n + 1, Len(q)) /\ UNCHANGED nid
                       /\ hist' = [hist EXCEPT !.ops = Append(@, [o |-> "del", n |-> n, q |-> SubSeq(q, n + 1, Len(q))])]
Find == \E key \in Keys : /\ UNCHANGED <<q, nid>>
                          /\ hist' = [hist EXCEPT !.ops = Append(@, [o |-> "find", k |-> key, at |-> Rank(q, key), q |-> q])]
Finish == Len(hist.ops) = MaxOps /\ ~hist.done /\ hist' = [hist EXCEPT !.done = TRUE] /\ UNCHANGED <<q, nid>>
Next == (Len(hist.ops) < MaxOps /\ (Add \/ Del \/ Find)) \/ Finish

Sorted == \A i \in 1..(Len(q) - 1) : q[i].k <= q[i + 1].k
Adds == Cardinality({j \in 1..Len(hist.ops) : hist.ops[j].o = "add"})
RECURSIVE Dels(_)
Dels(ops) == IF ops = <<>> THEN 0 ELSE (IF Head(ops).o = "del" THEN Head(ops).n ELSE 0) + Dels(Tail(ops))
Count == Len(q) = Len(hist.init) + Adds - Dels(hist.ops)
(* the reported position is where the point now is, after all points with the same or a lower key *)
Reported == hist.ops # <<>> /\ hist.ops[Len(hist.ops)].o = "add" =>
              LET e == hist.ops[Len(hist.ops)] IN q[e.at + 1].i = nid - 1 /\ \A i \in 1..Len(q) : (q[i].k <= e.k) <=> i <= e.at + 1
Stable == \A i, j \in 1..Len(q) : q[i].k = q[j].k /\ q[i].i < q[j].i => i < j
Emit == hist.done => PrintT("@@B " \o ToJson(hist))
=============================================================================
