--------------------------------- MODULE Fleet ---------------------------------
(* The fleet of samplers of a run: who is started for a request (n samplers, h of them Hamiltonian, s of them slice), and which channel,
   state file, seed, proposal object and random stream each of them has, through interrupts and resumes.
   Streams are tokens: <<"seed", x>> is the stream that a generator seeded with x yields, <<"os", k>> the k-th stream seeded by the system,
   <<"parent", l>> that of the process which builds the fleet of life l (whoever does not seed, inherits it).                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxLives, Seeds, Modes, Defects, EmitOn
(* Modes: how the proposals are asked for. Defects: "kindseed", "inherit", "fileclash", "pipeclash", "sharedproposal", "drop"              *)
VARIABLES req, life, ph, fleet, disk, fresh, hist
vars == <<req, life, ph, fleet, disk, fresh, hist>>
Requests == {r \in [n : 1..MaxN, h : 0..MaxN, s : 0..MaxN] : r.h + r.s <= r.n}
Kind(r, i) == IF i < r.n - r.h - r.s THEN "mhs" ELSE IF i < r.n - r.s THEN "hmc" ELSE "sli"
(* the files of a life may be used by the next when the samplers at their places are of the same kind *)
Fits(r, q) == \A i \in 0..MaxN - 1 : i < r.n /\ i < q.n => Kind(r, i) = Kind(q, i)
First(r, i) == CHOOSE j \in 0..i : Kind(r, j) = Kind(r, i) /\ \A k \in 0..i : Kind(r, k) = Kind(r, i) => j <= k
Seed(b, r, i) == IF "kindseed" \in Defects /\ Kind(r, i) # "mhs" THEN b + i - First(r, i) ELSE b + i
File(r, i) == IF "fileclash" \in Defects /\ Kind(r, i) = "sli" THEN r.n - r.s ELSE i
Chan(i) == IF "pipeclash" \in Defects THEN i \div 2 ELSE i
None == [kind |-> "none", chan |-> 0, file |-> 0, seed |-> 0, prop |-> 0, stream |-> <<"none", 0>>, new |-> FALSE]
Init == /\ req \in [r : Requests, seed : Seeds, mode : Modes] /\ life = 1 /\ ph = "asked" /\ fleet = [i \in {} |-> None] /\ disk = [f \in {} |-> "none"]
        /\ fresh = 0 /\ hist = <<>>
R == req.r
N == IF "drop" \in Defects /\ R.h > 1 THEN R.n - 1 ELSE R.n
(* a sampler is made anew or from the file at its place; only one made anew has a seed to begin with *)
Build == /\ ph = "asked"
         /\ fleet' = [i \in 0..N - 1 |->
              LET old == life > 1 /\ File(R, i) \in DOMAIN disk
              IN [kind |-> Kind(R, i), chan |-> Chan(i), file |-> File(R, i), seed |-> Seed(req.seed, R, i), new |-> ~old,
                  prop |-> IF "sharedproposal" \in Defects THEN life * 100 + First(R, i) ELSE life * 100 + i, stream |-> <<"none", 0>>]]
         /\ ph' = "built" /\ UNCHANGED <<req, life, disk, fresh, hist>>
(* each process seeds its own generator when it starts *)
Start(i) == /\ ph = "built" /\ i \in DOMAIN fleet /\ fleet[i].stream = <<"none", 0>>
            /\ LET m == fleet[i]
                   st == IF m.new THEN <<"seed", m.seed>> ELSE IF "inherit" \in Defects THEN <<"parent", life>> ELSE <<"os", fresh>>
               IN /\ fleet' = [fleet EXCEPT ![i].stream = st] /\ fresh' = fresh + 1
            /\ (\A j \in DOMAIN fleet : j < i => fleet[j].stream # <<"none", 0>>)
            /\ UNCHANGED <<req, life, ph, disk, hist>>
Run == /\ ph = "built" /\ (\A i \in DOMAIN fleet : fleet[i].stream # <<"none", 0>>) /\ ph' = "on" /\ UNCHANGED <<req, life, fleet, disk, fresh, hist>>
(* the samplers save themselves; what is asked for next fits the files *)
Interrupt == /\ ph = "on" /\ life < MaxLives /\ life' = life + 1
             /\ disk' = [f \in {fleet[i].file : i \in DOMAIN fleet} |-> fleet[CHOOSE i \in DOMAIN fleet : fleet[i].file = f].kind]
             /\ \E q \in Requests : Fits(R, q) /\ req' = [req EXCEPT !.r = q]
             /\ ph' = "asked" /\ fleet' = [i \in {} |-> None] /\ hist' = Append(hist, R) /\ UNCHANGED <<fresh>>
Stop == ph = "on" /\ ph' = "end" /\ hist' = Append(hist, R) /\ UNCHANGED <<req, life, fleet, disk, fresh>>
Next == Build \/ (\E i \in 0..MaxN - 1 : Start(i)) \/ Run \/ Interrupt \/ Stop
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Ms == DOMAIN fleet
Apart(f(_)) == \A i, j \in Ms : i # j => f(i) # f(j)
Count == ph # "asked" => Cardinality(Ms) = R.n
Kinds == ph # "asked" => /\ Cardinality({i \in Ms : fleet[i].kind = "hmc"}) = R.h /\ Cardinality({i \in Ms : fleet[i].kind = "sli"}) = R.s
                         /\ Cardinality({i \in Ms : fleet[i].kind = "mhs"}) = R.n - R.h - R.s
C(i) == fleet[i].chan
F(i) == fleet[i].file
P(i) == fleet[i].prop
S(i) == fleet[i].stream
Channels == Apart(C)
Files == Apart(F)
OwnSeed == \A i, j \in Ms : i # j /\ fleet[i].new /\ fleet[j].new => fleet[i].seed # fleet[j].seed
Proposals == Apart(P)
Streams == \A i, j \in Ms : i # j /\ S(i) # <<"none", 0>> => S(i) # S(j)
OfItsKind == \A i \in Ms : ~fleet[i].new => disk[fleet[i].file] = fleet[i].kind
Emit == EmitOn /\ ph = "end" => PrintT("@@B " \o ToJson([lives |-> hist, seed |-> req.seed, mode |-> req.mode]))
=============================================================================
