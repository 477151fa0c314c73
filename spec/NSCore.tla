------------------------------- MODULE NSCore -------------------------------
(* The nested sampler, its samplers and what they share, as one record `s` and one pair of operators per kind of step:
   V_x(s, ...) is the set of clauses a step would break (empty: the step is allowed), E_x(s, ...) the state after it.
   The same operators are the actions of the exhaustively checked model (NS.tla) and of the trace specification (NSTrace.tla).

   Points are records [i, L, z]: identity, log-likelihood, zero prior (never drawn by a sampler). Log-likelihoods are dense ranks:
   NaN = -1, -inf = 0, finite values 1, 2, ..., +inf = 1000000.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

NaN == -1
NegInf == 0
PosInf == 1000000

C(ps, c, ok) == IF ok THEN {} ELSE {[p |-> ps, c |-> c]}

Above(l, t) == l # NaN /\ t # NaN /\ l > t          \* the comparison `l > t` of floating point numbers
Usable(l) == l # NaN /\ l # NegInf

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a >= b THEN a ELSE b
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
Rng(q) == {q[k] : k \in 1..Len(q)}
Cnt(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
BagEq(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) : Cnt(a, x) = Cnt(b, x)
Sorted(q) == \A k \in 1..(Len(q) - 1) : q[k].L <= q[k + 1].L

(* insertion after all elements with the same or a lower likelihood *)
RankOf(q, x) == Cardinality({k \in 1..Len(q) : q[k].L <= x.L})
Insert(q, x) == LET r == RankOf(q, x) IN SubSeq(q, 1, r) \o <<x>> \o SubSeq(q, r + 1, Len(q))
RECURSIVE InsertAll(_, _)
InsertAll(q, xs) == IF xs = <<>> THEN q ELSE InsertAll(Insert(q, Head(xs)), Tail(xs))
SortPts(xs) == InsertAll(<<>>, xs)

NoBnd == [live |-> <<>>, nsn |-> 0, it |-> 0, lmin |-> NegInf, nvol |-> 1, my |-> FALSE, ms |-> FALSE, lmax |-> NegInf]

Start(n, N, prior) ==
  [n |-> n, N |-> N, prior |-> prior,
   phase |-> "pop",                     \* pop, idle (between iterations), iter, stop
   pop |-> <<>>, live |-> <<>>, ns |-> <<>>, it |-> 0,
   lmin |-> NegInf, lmax |-> NegInf,
   disc |-> <<>>, acc |-> <<>>, accfrom |-> [p \in 1..n |-> 0],
   asked |-> [p \in 1..n |-> FALSE], again |-> [p \in 1..n |-> FALSE], lset |-> FALSE,
   owed |-> [p \in 1..n |-> 0],         \* replies the nested sampler may still expect
   reqq |-> [p \in 1..n |-> <<>>], repq |-> [p \in 1..n |-> <<>>],
   sowed |-> [p \in 1..n |-> 0],        \* replies the sampler owes
   slm |-> [p \in 1..n |-> NegInf],     \* the threshold when the sampler took its request
   told |-> [p \in 1..n |-> FALSE],     \* the sampler was told to exit
   gone |-> [p \in 1..n |-> FALSE],
   sig |-> FALSE,
   late |-> FALSE,                      \* the signal came when no iteration was left to do
   ll |-> <<>>,                         \* likelihoods paired with the volumes
   bnd |-> NoBnd, prev |-> NoBnd,       \* this and the previous iteration boundary
   ck |-> NoBnd, hasck |-> FALSE]

(* ---------------------------------------------------------------- requests and replies *)

V_Ask(s, p, x) ==
  IF s.phase = "pop" THEN {}
  ELSE C({"C06"}, "request-outside-iteration", s.phase = "iter" \/ s.sig)
       \cup (IF s.phase # "iter" \/ s.sig THEN {} ELSE
             C({"C06"}, "request-before-threshold", s.lset)
             \cup C({"C06", "C02"}, "request-carries-foreign-point", x.i \in {s.disc[k].i : k \in 1..Len(s.disc)})
             \cup C({"C06"}, "second-request-to-the-same-sampler", ~s.asked[p] \/ s.again[p]))

E_Ask(s, p, x) ==
  [s EXCEPT !.owed[p] = @ + 1, !.reqq[p] = Append(@, x.i),
            !.again[p] = FALSE,
            !.asked[p] = IF s.phase = "iter" THEN TRUE ELSE @]

V_Tell(s, p) == {}
E_Tell(s, p) == [s EXCEPT !.told[p] = TRUE]

V_Wait(s, p) == C({"C05"}, "waits-for-a-reply-nobody-owes", s.owed[p] > 0)

V_Take(s, p, x) ==
  C({"C06", "C05"}, "reply-nobody-asked-for", s.owed[p] > 0)
  \cup C({"C02"}, "reply-altered-or-out-of-order", s.repq[p] # <<>> /\ Head(s.repq[p]) = x.i)
  \cup C({"C06", "C05"}, "reply-taken-outside-iteration", s.phase \in {"pop", "iter"})

E_Take(s, p, x) ==
  LET t == [s EXCEPT !.owed[p] = @ - 1, !.repq[p] = IF @ = <<>> THEN @ ELSE Tail(@)]
  IN IF s.phase = "pop" THEN IF Usable(x.L) /\ ~x.z /\ Len(s.pop) < s.N THEN [t EXCEPT !.pop = Append(@, x)] ELSE t
     ELSE IF Above(x.L, s.lmin) THEN [t EXCEPT !.acc = Append(@, x), !.accfrom[p] = @ + 1]
     ELSE [t EXCEPT !.again[p] = TRUE]

(* ---------------------------------------------------------------- the threshold and the best likelihood *)

V_Thr(s, v, by) ==
  C({"C01"}, "threshold-written-by-a-sampler", by = 0)
  \cup (IF s.sig THEN {}
        ELSE IF v = PosInf THEN
          C({"C04"}, "stops-in-the-middle-of-an-iteration", s.phase # "iter")
          \cup C({"C04"}, "stops-too-early", s.prior \/ s.phase = "stop" \/ s.bnd.my)
        ELSE C({"C01"}, "threshold-falls", v # NaN /\ v >= s.lmin)
          \cup C({"C01"}, "threshold-outside-iteration", s.phase = "iter")
          \cup (IF s.phase # "iter" THEN {} ELSE
                C({"C01"}, "threshold-not-the-highest-discarded", v = s.disc[Len(s.disc)].L)))

E_Thr(s, v) ==
  IF v = PosInf THEN [s EXCEPT !.lmin = v, !.phase = "stop"]
  ELSE [s EXCEPT !.lmin = v, !.lset = TRUE]

V_Best(s, v) ==
  IF s.sig THEN {} ELSE C({"C07"}, "best-likelihood-falls", v # NaN /\ v >= s.lmax)
E_Best(s, v) == [s EXCEPT !.lmax = v]

(* ---------------------------------------------------------------- iterations; o is what is observed:
   live (points), nsN, it, nvol, nL                                                                                   *)

V_Begin(s, o) ==
  LET want == IF s.phase = "pop" THEN s.pop ELSE s.live
  IN C({"C02"}, "live-set-is-not-what-was-accepted", BagEq(o.live, want))
     \cup C({"C02"}, "live-set-size", Len(o.live) = s.N)
     \cup C({"C17", "C01"}, "live-set-not-sorted", Sorted(o.live))
     \cup C({"C02"}, "nested-samples-changed-between-iterations", o.nsN = Len(s.ns))
     \cup C({"C02", "C03"}, "iteration-count", o.it = s.it)
     \cup C({"C03"}, "history-lengths", o.nvol = Len(s.ll) + 1 /\ o.nL = Len(s.ll) + 1)
     \cup C({"C04"}, "iterates-in-prior-sampling", ~s.prior)
     \cup C({"C04"}, "goes-on-too-long", s.phase = "pop" \/ ~s.bnd.ms)
     \cup C({"C05", "C04"}, "iteration-after-the-end", s.phase \in {"pop", "idle"})

E_Begin(s, o) ==
  LET b == [live |-> o.live, nsn |-> Len(s.ns), it |-> s.it, lmin |-> s.lmin, nvol |-> Len(s.ll) + 1,
            my |-> FALSE, ms |-> FALSE, lmax |-> s.lmax]
  IN [s EXCEPT !.phase = "iter", !.live = o.live, !.disc = SubSeq(o.live, 1, s.n), !.acc = <<>>,
               !.accfrom = [p \in 1..s.n |-> 0], !.asked = [p \in 1..s.n |-> FALSE],
               !.again = [p \in 1..s.n |-> FALSE], !.lset = FALSE,
               !.bnd = IF s.phase = "pop" THEN b ELSE @, !.prev = IF s.phase = "pop" THEN b ELSE @]

Rest(s) == SubSeq(s.live, s.n + 1, Len(s.live))

(* the insertion indices of the points accepted in this iteration: the rank of the j-th among the survivors and the
   earlier ones, divided by their number, in millionths                                                               *)
RECURSIVE InsOK(_, _, _)
InsOK(q, xs, ins) ==
  IF xs = <<>> THEN ins = <<>>
  ELSE /\ ins # <<>>
       /\ Head(ins) >= 0 /\ Head(ins) <= 1000000
       /\ Len(q) > 0 => Abs(Head(ins) * Len(q) - RankOf(q, Head(xs)) * 1000000) <= Len(q)
       /\ InsOK(Insert(q, Head(xs)), Tail(xs), Tail(ins))

NewIds(s, o) == {x \in Rng(o.live) : Cnt(o.live, x) > Cnt(Rest(s), x)}

V_End(s, o) ==
  C({"C01"}, "point-not-above-the-threshold-entered", \A x \in NewIds(s, o) : Above(x.L, s.disc[Len(s.disc)].L))
  \cup C({"C02"}, "live-set-is-not-survivors-plus-accepted", BagEq(o.live, Rest(s) \o s.acc))
  \cup C({"C02"}, "live-set-size", Len(o.live) = s.N)
  \cup C({"C02"}, "not-one-replacement-per-sampler", \A p \in 1..s.n : s.accfrom[p] = 1)
  \cup C({"C02"}, "discarded-points-not-recorded", o.tail = s.disc)
  \cup C({"C02"}, "nested-sample-count", o.nsN = Len(s.ns) + s.n)
  \cup C({"C02", "C03"}, "iteration-count", o.it = s.it + s.n)
  \cup C({"C01"}, "nested-samples-out-of-order",
         Sorted(o.tail) /\ (s.ns # <<>> /\ o.tail # <<>> => s.ns[Len(s.ns)].L <= o.tail[1].L))
  \cup C({"C01", "C06"}, "threshold-not-raised", s.lset /\ s.lmin = s.disc[Len(s.disc)].L)
  \cup C({"C06"}, "sampler-without-request", \A p \in 1..s.n : s.asked[p])
  \cup C({"C17", "C01"}, "live-set-not-sorted", Sorted(o.live))
  \cup C({"C17"}, "insertion-indices", InsOK(Rest(s), s.acc, o.ins))
  \cup C({"C03"}, "history-lengths", o.nvol = Len(s.ll) + 2 /\ o.nL = Len(s.ll) + 2)
  \cup C({"C03"}, "volume", Abs(o.vol * s.N + (s.it + s.n) * 1000000) <= 2 * s.N)
  \cup C({"C03"}, "likelihood-paired-with-volume", o.last = s.disc[Len(s.disc)].L)
  \cup C({"C03"}, "running-evidence", Abs(o.zdev) <= 20)
  \cup C({"C03"}, "running-information", Abs(o.infodev) <= 50)
  \cup C({"C07"}, "best-likelihood-below-a-live-point", \A k \in 1..Len(o.live) : o.live[k].L <= o.lmaxb)

E_End(s, o) ==
  [s EXCEPT !.phase = "idle", !.live = o.live, !.ns = s.ns \o o.tail, !.it = o.it, !.ll = Append(@, o.last),
            !.prev = s.bnd,
            !.bnd = [live |-> o.live, nsn |-> Len(s.ns) + Len(o.tail), it |-> o.it, lmin |-> s.lmin, nvol |-> Len(s.ll) + 2,
                     my |-> o.maystop, ms |-> o.muststop, lmax |-> o.lmaxb]]

(* ---------------------------------------------------------------- samplers *)

V_SRecv(s, p, x) ==
  C({"C06"}, "request-taken-but-not-sent", s.reqq[p] # <<>>)
  \cup C({"C06", "C02"}, "request-altered-or-out-of-order", s.reqq[p] = <<>> \/ Head(s.reqq[p]) = x.i)
  \cup C({"C06"}, "next-request-taken-before-replying", s.sowed[p] = 0)
E_SRecv(s, p, x) ==
  [s EXCEPT !.reqq[p] = IF @ = <<>> THEN @ ELSE Tail(@), !.sowed[p] = @ + 1, !.slm[p] = s.lmin]

V_SSend(s, p, x, moved) ==
  C({"C06"}, "reply-without-request", s.sowed[p] > 0)
  \cup C({"C06"}, "new-point-not-above-the-threshold", moved /\ ~s.sig => Above(x.L, s.slm[p]))
E_SSend(s, p, x) == [s EXCEPT !.sowed[p] = @ - 1, !.repq[p] = Append(@, x.i)]

V_SIdle(s, p) == C({"C06"}, "sampler-without-request-does-not-sample", FALSE)

V_SExit(s, p, code) ==
  C({"C05", "C06"}, "sampler-exits-while-the-run-goes-on", s.phase = "stop" \/ s.sig \/ s.told[p])
  \cup C({"C05"}, "sampler-fails", code \in {0, 130})
E_SExit(s, p) == [s EXCEPT !.gone[p] = TRUE]

(* ---------------------------------------------------------------- interrupts, checkpoints, resume *)

E_Signal(s, p) ==
  IF p # 0 THEN [s EXCEPT !.told[p] = TRUE]       \* a signal to the whole group may reach a sampler first
  ELSE IF s.sig THEN s
  ELSE [s EXCEPT !.sig = TRUE, !.late = s.phase \in {"pop", "stop"} \/ (s.phase = "idle" /\ s.bnd.my)]

(* a saved state equals an iteration boundary b; o: live, nsN, ns, it, lmin, lmax, nvol, nL, nins, vol *)
AtBoundary(s, b, o) ==
  /\ o.live = b.live
  /\ o.nsN = b.nsn /\ o.ns = SubSeq(s.ns, 1, b.nsn)
  /\ o.it = b.it
IsBoundary(s, b, o) ==
  /\ AtBoundary(s, b, o) /\ o.lmin = b.lmin
  /\ o.nvol = b.nvol /\ o.nL = b.nvol
  /\ o.nins = b.it
  /\ Abs(o.vol * s.N + b.it * 1000000) <= 2 * s.N

V_Ckpt(s, o) ==
  IF ~o.ok THEN C({"C08", "C09", "C10"}, "checkpoint-not-loadable", FALSE)
  ELSE C({"C08"}, "checkpoint-is-not-an-iteration-boundary", s.late \/ IsBoundary(s, s.bnd, o) \/ IsBoundary(s, s.prev, o))
       \cup C({"C08", "C10", "C07"}, "checkpoint-best-likelihood", s.late \/ (o.lmax <= s.lmax /\ \A k \in 1..Len(o.live) : o.live[k].L <= o.lmax))
       \cup C({"C10", "C07"}, "checkpoint-loses-the-best-likelihood",
              s.late \/ LET b == IF IsBoundary(s, s.bnd, o) THEN s.bnd ELSE s.prev IN o.lmax >= b.lmax)
E_Ckpt(s, o) ==
  IF ~o.ok THEN s
  ELSE [s EXCEPT !.hasck = TRUE,                  \* the threshold that counts is the one of the iteration boundary itself
                 !.ck = [live |-> o.live, nsn |-> o.nsN, it |-> o.it,
                         lmin |-> IF s.late THEN o.lmin ELSE IF AtBoundary(s, s.bnd, o) THEN s.bnd.lmin
                                  ELSE IF AtBoundary(s, s.prev, o) THEN s.prev.lmin ELSE o.lmin, nvol |-> o.nvol, lmax |-> o.lmax,
                         my |-> IF s.late THEN TRUE ELSE IF IsBoundary(s, s.bnd, o) THEN s.bnd.my ELSE s.prev.my,
                         ms |-> IF s.late THEN FALSE ELSE IF IsBoundary(s, s.bnd, o) THEN s.bnd.ms ELSE s.prev.ms]]

(* somebody removed the state of the nested sampler: what the samplers saved is worth nothing *)
E_Lost(s) == [s EXCEPT !.hasck = FALSE]

V_Files(s, o) ==
  C({"C08"}, "nested-sampler-state-not-saved", s.late \/ o.ns)
  \cup C({"C08"}, "sampler-state-not-saved", s.late \/ \A p \in 1..s.n : p <= Len(o.smp) /\ o.smp[p] = 1)

V_MainEnd(s, o) ==
  IF o.how = "return" THEN
     C({"C05", "C04"}, "returns-before-the-end", s.phase = "stop")
     \cup C({"C05"}, "returns-with-samplers-running", o.joined /\ \A p \in 1..s.n : s.gone[p])
     \cup C({"C05"}, "returns-without-results", o.results)
     \cup C({"C08"}, "interrupt-ignored", ~s.sig)
  ELSE C({"C08"}, "exit-status", s.sig => o.code = 130)
       \cup C({"C05"}, "exits-without-a-signal", s.sig)

V_AllEnd(s, o) == C({"C05", "C08"}, "sampler-left-running", o.n = s.n)

V_Restart(s, o) ==
  C({"C08", "C10"}, "resumed-state-differs-from-the-checkpoint",
    s.hasck => /\ o.live = s.ck.live /\ o.nsN = s.ck.nsn /\ o.ns = SubSeq(s.ns, 1, s.ck.nsn) /\ o.it = s.ck.it
               /\ o.nvol = s.ck.nvol /\ o.nL = s.ck.nvol /\ o.nins = s.ck.it)
  \cup C({"C08", "C10", "C01"}, "resumed-threshold", s.hasck => o.lmin = s.ck.lmin)
  \cup C({"C10", "C07"}, "resumed-best-likelihood", s.hasck => o.lmax = s.ck.lmax)
  \cup C({"C10"}, "starts-from-scratch-without-checkpoint", ~s.hasck => o.live = <<>> /\ o.nsN = 0 /\ o.it = 0)

E_Restart(s, o) ==
  LET t == Start(o.n, s.N, s.prior)
  IN IF ~s.hasck THEN t
     ELSE [t EXCEPT !.phase = "idle", !.live = o.live, !.ns = SubSeq(s.ns, 1, s.ck.nsn), !.it = s.ck.it,
                    !.lmin = s.ck.lmin, !.lmax = s.ck.lmax, !.ll = SubSeq(s.ll, 1, s.ck.nvol - 1),
                    !.bnd = s.ck, !.prev = s.ck, !.ck = s.ck, !.hasck = TRUE]

(* the fleet: one channel and one state of its own for each sampler *)
V_Fleet(s, o) ==
  C({"C10", "C20"}, "samplers-share-a-channel",
    Len(o.chan) = o.n /\ {o.chan[k] : k \in 1..Len(o.chan)} = 1..o.n)
  \cup C({"C10"}, "sampler-not-restored-as-saved", \A k \in 1..Len(o.same) : o.same[k] # "no")
  \cup C({"C10"}, "saved-sampler-not-resumed", \A k \in 1..Len(o.same) : s.hasck /\ o.same[k] # "none" => o.res[k])
  \cup C({"C10"}, "sampler-resumed-without-nested-sampler", ~s.hasck => \A k \in 1..Len(o.res) : ~o.res[k])
  \cup C({"C10"}, "proposals-not-on-own-pool", \A k \in 1..Len(o.own) : o.own[k])

(* ---------------------------------------------------------------- the results *)

V_Results(s, o) ==
  IF s.prior THEN
     C({"C04"}, "prior-sampling-makes-iterations", o.it = 0 /\ o.nvol = 1)
     \cup C({"C04", "C02"}, "prior-samples-are-not-the-live-points", BagEq(o.ns, s.pop) /\ Len(o.ns) = s.N)
  ELSE
     C({"C02"}, "nested-samples-are-not-discarded-plus-live", o.ns = s.ns \o SortPts(s.live) \/
          (Sorted(o.ns) /\ BagEq(o.ns, s.ns \o s.live) /\ SubSeq(o.ns, 1, Len(s.ns)) = s.ns))
     \cup C({"C02"}, "number-of-nested-samples", Len(o.ns) = s.it + s.N)
     \cup C({"C01"}, "nested-samples-out-of-order", Sorted(o.ns))
     \cup C({"C03"}, "history-lengths", Len(o.Ls) = Len(s.ll) + 1 + s.N /\ Len(o.vols) = Len(o.Ls))
     \cup (IF Len(o.Ls) # Len(s.ll) + 1 + s.N \/ Len(o.vols) # Len(o.Ls) THEN {} ELSE
           C({"C03"}, "volume-starts-at-one", o.Ls[1] = NegInf /\ o.vols[1] = 0)
           \cup C({"C03"}, "likelihoods-of-the-iterations", SubSeq(o.Ls, 2, Len(s.ll) + 1) = s.ll)
           \cup C({"C03"}, "likelihoods-of-the-live-points",
                  LET q == SortPts(s.live) IN \A k \in 1..s.N : o.Ls[Len(s.ll) + 1 + k] = q[k].L)
           \cup C({"C03"}, "volumes-of-the-live-points",
                  \A k \in 1..s.N : LET m == s.N - k + 1 IN
                     Abs((o.vols[Len(s.ll) + 1 + k] - o.vols[Len(s.ll) + k]) * m + 1000000) <= 3 * m))
     \cup C({"C03"}, "final-evidence", Abs(o.trapdev) <= 20 /\ Abs(o.retdev) <= 1)
     \cup C({"C03"}, "final-information", Abs(o.infodev) <= 50)
     \cup C({"C07"}, "best-likelihood-below-a-nested-sample", \A k \in 1..Len(o.ns) : o.ns[k].L <= o.lmax)
     \cup C({"C19", "C03"}, "evidence-file", o.fileok)
=============================================================================
