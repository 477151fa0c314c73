------------------------------- MODULE NSGen -------------------------------
(* Behaviours of NS, for replay in the code: what every sampler replies, and what the live set is after each iteration *)
EXTENDS NS, Json
CONSTANT Iters, Climb
VARIABLE h
Ls(q) == [k \in 1..Len(q) |-> q[k].L]
GInit == Init /\ h = [rep |-> [p \in Smp |-> <<>>], ends |-> <<>>, n |-> n, N |-> N]
GNext == /\ m.pc # "stop" /\ Len(h.ends) < Iters
         /\ NSNext \/ (\E p \in Smp : SNext(p))
         \* small steps upwards, or the plateau at MaxL is reached at once
         /\ \A p \in Smp : sa[p].pc = "work" /\ sa'[p].pc # "work" => sa'[p].x.L <= sa[p].slm + Climb
         /\ h' = [h EXCEPT !.rep = [p \in Smp |-> IF sa[p].pc = "reply" /\ sa'[p].pc # "reply" THEN Append(@[p], sa[p].x.L) ELSE @[p]],
                           !.ends = IF m.pc = "end" /\ m'.pc # "end" THEN Append(@, [disc |-> Ls(m.worst), live |-> Ls(m'.live), it |-> m'.it, ins |-> m.ins])
                                    ELSE @]
Emit == (m.pc = "stop" \/ Len(h.ends) = Iters) => PrintT("@@B " \o ToJson(h))
=============================================================================
