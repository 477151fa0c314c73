--------------------------------- MODULE Leap ---------------------------------
(* Hamiltonian trajectories, exactly: positions and momenta are integers, the time step is 1, forces are even numbers (half a kick
   is an integer), inverse masses are integers, prior bounds are halves (B2 = twice the bound), and contour normals are along an
   axis or a diagonal (mirroring about them keeps integers). A case is a start, a momentum, a number of steps and a landscape; the
   specification walks the free trajectory, turns round at its end and walks back, then walks the constrained one in both directions of
   time, one step of the integrator per transition, and keeps every state with its energy.
   The landscape functions are named; harness/leap_checks.py has the same names.                                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Dims, Boxes, Starts, Moms, Steps, Masses, Forces, Pots, Likes, Normals, Slips
(* Slips (defective variants of the integrator): "no-flip", "double-half", "same-way" *)
VARIABLES k, s, ph, x, i, free, both, ret
vars == <<k, s, ph, x, i, free, both, ret>>
D == 1..Dims
Inf == 1000000
Abs1(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)

In(q, b) == \A d \in D : b[1] < 2 * q[d] /\ 2 * q[d] < b[2]
Force(f, q) == [d \in D |-> CASE f = "zero" -> 0 [] f = "const" -> 2 * d [] f = "spring" -> 2 * q[d] [] f = "anti" -> -2 * q[d]
                              [] f = "cross" -> 2 * q[1 + (d % Dims)]]
(* the potential (minus the log prior); infinite outside the bounds and in holes *)
Pot(v, q, b) == IF ~In(q, b) THEN Inf
                ELSE CASE v = "flat" -> 0 [] v = "quad" -> Sum([d \in D |-> q[d] * q[d]], Dims) [] v = "abs" -> Abs1(q[1])
                       [] v = "hole" -> IF q[1] % 3 = 1 THEN Inf ELSE 0
(* the likelihood relative to the threshold: 1 above, 0 equal, -1 below, 2 not a number *)
Like(l, q) == CASE l = "all" -> 1 [] l = "none" -> -1 [] l = "right" -> (IF q[1] >= 1 THEN 1 ELSE 0)
                [] l = "ball" -> (IF Sum([d \in D |-> q[d] * q[d]], Dims) <= 5 THEN 1 ELSE -1)
                [] l = "odd" -> (IF q[1] % 2 = 1 THEN 1 ELSE 2) [] l = "last" -> (IF q[Dims] < 2 THEN 1 ELSE 2)
(* mirror the momentum about the contour with this normal; where no direction is defined it is the diagonal *)
Swap(p) == [d \in D |-> IF Dims = 1 THEN p[1] ELSE p[3 - d]]
Neg(p) == [d \in D |-> -p[d]]
Mirror(n, p) == CASE Dims = 1 -> Neg(p)
                  [] n = "axis1" -> [p EXCEPT ![1] = -@] [] n = "axis2" -> [p EXCEPT ![2] = -@]
                  [] n \in {"diag", "none"} -> Neg(Swap(p)) [] n = "anti" -> Swap(p)

(* one coordinate after its drift, mirrored at the bounds as often as it takes: closed form (r is what is left beyond the last wall) *)
Wall(y, p, b) ==
  IF 2 * y >= b[1] /\ 2 * y <= b[2] THEN <<y, p>>
  ELSE LET w == b[2] - b[1]
           top == 2 * y > b[2]
           e == IF top THEN 2 * y - b[2] ELSE b[1] - 2 * y
           n == (e + w - 1) \div w
           r == e - (n - 1) * w
           odd == n % 2 = 1
       IN <<(IF top = odd THEN b[2] - r ELSE b[1] + r) \div 2, IF odd /\ "no-flip" \notin Slips THEN -p ELSE p>>
Drift(z) == [q |-> [d \in D |-> Wall(z.q[d] + z.p[d] * k.m[d], z.p[d], k.b)[1]], p |-> [d \in D |-> Wall(z.q[d] + z.p[d] * k.m[d], z.p[d], k.b)[2]]]
Kick(z, h) == [z EXCEPT !.p = [d \in D |-> z.p[d] - (Force(k.f, z.q)[d] * h) \div 2]]
Energy2(z) == IF Pot(k.v, z.q, k.b) = Inf THEN Inf ELSE Sum([d \in D |-> k.m[d] * z.p[d] * z.p[d]], Dims) + 2 * Pot(k.v, z.q, k.b)
Back(z) == [z EXCEPT !.p = Neg(@)]
(* a state that is not above the threshold turns its momentum at the contour *)
Bounce(z) == IF Like(k.l, z.q) = 1 THEN Kick(z, 2) ELSE [z EXCEPT !.p = Mirror(k.nrm, @)]

Init == /\ k \in [b : Boxes, n : Steps, m : [D -> Masses], f : Forces, v : {"flat"}, l : {"all"}, nrm : {"axis1"}]
        /\ s \in [q : [D -> Starts], p : [D -> Moms]]
        /\ In(s.q, k.b)
        /\ ph = "case" /\ x = <<>> /\ i = 0 /\ free = <<>> /\ both = <<>> /\ ret = <<>>
(* the rest of the landscape is chosen here (initial states are made by one worker only) *)
Choose == /\ ph = "case"
          /\ \E v \in Pots, l \in Likes, nrm \in Normals :
               /\ Pot(v, s.q, k.b) # Inf
               /\ k' = [k EXCEPT !.v = v, !.l = l, !.nrm = nrm]
          /\ ph' = "free" /\ x' = Kick(s, 1)
          /\ UNCHANGED <<s, i, free, both, ret>>
(* ---- the free trajectory: half a kick, drifts with full kicks between them, half a kick; the momentum is turned round at its end *)
End(z) == Back(Kick(IF "double-half" \in Slips THEN Kick(z, 2) ELSE z, 1))
Free == /\ ph = "free"
        /\ IF i + 1 < k.n THEN i' = i + 1 /\ x' = Kick(Drift(x), 2) /\ UNCHANGED <<ph, free>>
           ELSE i' = 0 /\ free' = End(Drift(x)) /\ ph' = "return" /\ x' = Kick(End(Drift(x)), 1)
        /\ UNCHANGED <<k, s, both, ret>>
Return == /\ ph = "return"
          /\ IF i + 1 < k.n THEN i' = i + 1 /\ x' = Kick(Drift(x), 2) /\ UNCHANGED <<ph, ret>>
             ELSE i' = 0 /\ ret' = End(Drift(x)) /\ ph' = "forward" /\ x' = Kick(s, 1)
          /\ UNCHANGED <<k, s, free, both>>
(* ---- the constrained trajectory, forward and backward from the start *)
Line(this, next, y) == /\ ph = this
                       /\ LET z == Bounce(Drift(x)) IN
                            /\ both' = Append(both, [q |-> z.q, h |-> Energy2(z)])
                            /\ IF i + 1 < k.n THEN i' = i + 1 /\ x' = z /\ UNCHANGED ph
                               ELSE i' = 0 /\ ph' = next /\ x' = y
                       /\ UNCHANGED <<k, s, free, ret>>
Next == Choose \/ Free \/ Return \/ Line("forward", "backward", Kick(IF "same-way" \in Slips THEN s ELSE Back(s), 1)) \/ Line("backward", "done", <<>>)
Spec == Init /\ [][Next]_vars
Emit == ph = "done" => PrintT("@@B " \o ToJson([dims |-> Dims, k |-> k, s |-> s, h |-> Energy2(s), free |-> [q |-> free.q, h |-> Energy2(free)], both |-> both]))

(* ---- what the mechanism is for *)
Done == ph = "done"
(* the free trajectory, started from its own end, leads back to the start: the proposal is symmetric (where it can come to lie
   exactly on a wall the side it came from is lost) *)
Reversible == Done /\ k.b[1] % 2 # 0 /\ k.b[2] % 2 # 0 => ret = s
(* no force and no contour: nothing is gained or lost *)
EnergyKept == Done /\ k.f = "zero" /\ k.v = "flat" /\ k.l = "all" => /\ \A j \in 1..Len(both) : both[j].h \in {Energy2(s), Inf}
                                                                        /\ Energy2(free) \in {Energy2(s), Inf}
(* turning at a contour keeps the energy of unit masses *)
MirrorKeeps == Done /\ (\A d \in D : k.m[d] = 1) => Sum([d \in D |-> Mirror(k.nrm, s.p)[d] * Mirror(k.nrm, s.p)[d]], Dims) = Sum([d \in D |-> s.p[d] * s.p[d]], Dims)
(* both directions of time: without forces, walls and contours the states lie on a straight line through the start *)
BothWays == Done /\ k.f = "zero" /\ k.l = "all" =>
              LET at(j) == [d \in D |-> s.q[d] + j * s.p[d] * k.m[d]]
                  js == (-k.n .. k.n) \ {0}
              IN (\A j \in js : In(at(j), k.b)) => {both[j].q : j \in 1..Len(both)} = {at(j) : j \in js}
InBox == Done => /\ \A j \in 1..Len(both) : \A d \in D : k.b[1] <= 2 * both[j].q[d] /\ 2 * both[j].q[d] <= k.b[2]
                 /\ Len(both) = 2 * k.n
=============================================================================
