------------------------------- MODULE Support -------------------------------
(* The prior support: bounds, membership, the default prior, and the linear map of the unit cube. Everything is an integer in
   units of 1/U; a case is a box, a point and a vector of the unit cube, and what the model's helpers must say of them.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Dims, Bounds, Offs, Us, U, Slips
(* Slips: a set of "<=", "lastdim", "firstdim" for the defective variants                                                 *)
VARIABLES c
D == 1..Dims
Lo(b) == b[1]
Hi(b) == b[2]
(* the coordinate at offset o of its own bounds: -1 below, 0 at the lower bound, 1 inside near it, 2 in the middle, ...      *)
Coord(b, o) == CASE o = 0 -> Lo(b) - 1 [] o = 1 -> Lo(b) [] o = 2 -> Lo(b) + 1 [] o = 3 -> (Lo(b) + Hi(b)) \div 2
                 [] o = 4 -> Hi(b) - 1 [] o = 5 -> Hi(b) [] o = 6 -> Hi(b) + 1
Inside(x, b) == Lo(b) < x /\ x < Hi(b)
In(xs, bs) == \A d \in D : Inside(xs[d], bs[d])
(* images in units of 1/U *)
Image(u, b) == Lo(b) * U + u * (Hi(b) - Lo(b))

Init == \E bs \in [D -> Bounds], os \in [D -> Offs], us \in [D -> Us] :
          LET xs == [d \in D |-> Coord(bs[d], os[d])] IN
          c = [b |-> bs, x |-> xs, inb |-> In(xs, bs), u |-> us, im |-> [d \in D |-> Image(us[d], bs[d])]]
Next == FALSE /\ UNCHANGED c

Emit == PrintT("@@B " \o ToJson(c))
(* the map has the bounds as images of 0 and 1, is monotone, and stays inside exactly for u strictly between *)
EndPoints == \A d \in D : /\ c.u[d] = 0 => c.im[d] = U * Lo(c.b[d])
                          /\ c.u[d] = U => c.im[d] = U * Hi(c.b[d])
                          /\ (c.im[d] > U * Lo(c.b[d]) /\ c.im[d] < U * Hi(c.b[d])) <=> (c.u[d] > 0 /\ c.u[d] < U)
=============================================================================
