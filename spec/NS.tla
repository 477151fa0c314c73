--------------------------------- MODULE NS ---------------------------------
(* A nested sampler, its samplers, their pipes and shared values, as the code runs them, with every interleaving and with
   interrupts at every step. `m`, `sa`, `sh`, `req`, `rep`, `disk` are the state of the implementation; `s` is the abstract
   state of NSCore, which follows along: whatever the implementation does is a step of NSCore, or a clause in `viol`.

   Likelihoods are 1..MaxL. The reply of a sampler is any of them (0 and NaN while the live points are first drawn). The stopping
   condition is abstracted to Stop(it, lmax): harder to meet the higher the best likelihood, easier with every iteration.
   Defects switches single repairs off: TLC must then find a broken clause.                                                *)
EXTENDS NSCore, TLC

CONSTANTS n, N, MaxL, MaxSig, MaxBad, MaxStale, MaxWander, Defects

VARIABLES s, m, sa, sh, req, rep, disk, viol, bud
vars == <<s, m, sa, sh, req, rep, disk, viol, bud>>

Smp == 1..n                     \* at most; a resumed run may have fewer, m.cn
Pt(i, L) == [i |-> i, L |-> L, z |-> FALSE]
New == Pt(0, NegInf)
Stop(it, lm) == it >= n * (lm - 1)
D(x) == x \in Defects
None == [i |-> -1, L |-> 0, z |-> FALSE]
Ck == [i |-> -2, L |-> 0, z |-> FALSE]

M0 == [cn |-> n, pc |-> "popsend", live |-> <<>>, ns |-> <<>>, it |-> 0, nL |-> 1, lls |-> <<>>, qc |-> 1, left |-> Smp, k |-> n, rest |-> <<>>,
       worst |-> <<>>, ins |-> <<>>, nins |-> 0, stop |-> FALSE, lrecv |-> NegInf, mark |-> <<>>, marked |-> FALSE, bs |-> 0]
Disk0 == [has |-> FALSE, st |-> M0, lmin |-> NegInf, lmax |-> NegInf, smp |-> [p \in Smp |-> FALSE]]
Sa0 == [p \in Smp |-> [pc |-> "loop", slm |-> NegInf, x |-> New, old |-> NegInf, moved |-> FALSE, cnt |-> 0]]

Init == /\ s = Start(n, N, FALSE) /\ m = M0 /\ sa = Sa0
        /\ sh = [lmin |-> NegInf, lmax |-> NegInf, flag |-> 0]
        /\ req = [p \in Smp |-> <<>>] /\ rep = [p \in Smp |-> <<>>]
        /\ disk = Disk0 /\ viol = {}
        /\ bud = [sig |-> MaxSig, bad |-> MaxBad, stale |-> MaxStale, wander |-> MaxWander]

Say(v, t) == viol' = viol \cup {x.c : x \in v} /\ s' = t
Quiet == UNCHANGED <<viol, s>>

(* ------------------------------------------------------------ the nested sampler *)

Obs(mm) == [live |-> mm.live, nsN |-> Len(mm.ns), it |-> mm.it, nvol |-> mm.nL, nL |-> mm.nL]

PopSend == /\ m.pc = "popsend" /\ m.left # {}
           /\ \E p \in m.left : (\A q \in m.left : p <= q)
              /\ req' = [req EXCEPT ![p] = Append(@, New)]
              /\ Say(V_Ask(s, p, New), E_Ask(s, p, New))
              /\ m' = [m EXCEPT !.left = @ \ {p}, !.pc = IF m.left = {p} THEN "popwait" ELSE @, !.k = m.cn]
           /\ UNCHANGED <<sa, sh, rep, disk, bud>>

PopWait == /\ m.pc = "popwait"
           /\ Say(V_Wait(s, m.qc), s)
           /\ m' = [m EXCEPT !.pc = "poptake"]
           /\ UNCHANGED <<sa, sh, req, rep, disk, bud>>

Next1(q) == (q % m.cn) + 1
Cur == 1..m.cn

PopTake == /\ m.pc = "poptake" /\ rep[m.qc] # <<>>
           /\ LET x == Head(rep[m.qc])
                  ok == Usable(x.L)
                  lv == IF ok THEN Append(m.live, x) ELSE m.live
              IN /\ Say(V_Take(s, m.qc, x), E_Take(s, m.qc, x))
                 /\ rep' = [rep EXCEPT ![m.qc] = Tail(@)]
                 /\ m' = [m EXCEPT !.live = lv, !.qc = IF ok THEN Next1(@) ELSE @, !.k = IF ok THEN @ - 1 ELSE @,
                                   !.pc = IF Len(lv) = N THEN "loop"
                                          ELSE IF ~ok THEN (IF D("nanpop") THEN "popwait" ELSE "popagain")
                                          ELSE IF m.k = 1 THEN "popsend" ELSE "popwait",
                                   !.left = Cur]
           /\ UNCHANGED <<sa, sh, req, disk, bud>>

PopAgain == /\ m.pc = "popagain"
            /\ req' = [req EXCEPT ![m.qc] = Append(@, New)]
            /\ Say(V_Ask(s, m.qc, New), E_Ask(s, m.qc, New))
            /\ m' = [m EXCEPT !.pc = "popwait"]
            /\ UNCHANGED <<sa, sh, rep, disk, bud>>

Mark == [live |-> m.live, ns |-> m.ns, it |-> m.it, nL |-> m.nL, lls |-> m.lls, nins |-> m.nins, qc |-> m.qc, lmin |-> sh.lmin, stop |-> m.stop]

(* while condition > tolerance *)
Loop == /\ m.pc = "loop"
        /\ IF m.stop THEN m' = [m EXCEPT !.pc = "stop"] /\ Quiet
           ELSE LET lv == SortPts(m.live)
                    mm == [m EXCEPT !.live = lv]
                IN /\ Say(V_Begin(s, Obs(mm)), E_Begin(s, Obs(mm)))
                   /\ m' = [mm EXCEPT !.pc = IF D("latethr") THEN "send" ELSE "thr", !.mark = <<[Mark EXCEPT !.live = lv]>>, !.marked = TRUE,
                                      !.left = Cur, !.k = m.cn, !.ins = <<>>,
                                      !.worst = SubSeq(lv, 1, m.cn), !.rest = SubSeq(lv, m.cn + 1, N), !.lrecv = NegInf,
                                      !.bs = 0]
        /\ UNCHANGED <<sa, sh, req, rep, disk, bud>>

Thr == /\ m.pc = "thr"
       /\ sh' = [sh EXCEPT !.lmin = m.worst[m.cn].L]
       /\ Say(V_Thr(s, m.worst[m.cn].L, 0), E_Thr(s, m.worst[m.cn].L))
       /\ m' = [m EXCEPT !.pc = IF D("latethr") THEN "wait" ELSE "send", !.nL = @ + 1, !.lls = Append(@, m.worst[m.cn].L), !.ns = @ \o m.worst,
                         !.stop = IF D("condbefore") THEN Stop(m.it, sh.lmax) ELSE @]
       /\ UNCHANGED <<sa, req, rep, disk, bud>>

Send == /\ m.pc = "send" /\ m.left # {}
        /\ \E p \in m.left :
             LET x == m.worst[p] IN
             /\ req' = [req EXCEPT ![p] = Append(@, x)]
             /\ Say(V_Ask(s, p, x), E_Ask(s, p, x))
             /\ m' = [m EXCEPT !.left = @ \ {p}, !.pc = IF m.left = {p} THEN (IF D("latethr") THEN "thr" ELSE "wait") ELSE @]
        /\ UNCHANGED <<sa, sh, rep, disk, bud>>

Wait == /\ m.pc = "wait"
        /\ Say(IF m.qc \in Cur THEN V_Wait(s, m.qc) ELSE C({"C10", "C05"}, "no-such-pipe", FALSE), s)
        /\ m' = [m EXCEPT !.pc = "take"]
        /\ UNCHANGED <<sa, sh, req, rep, disk, bud>>

Take == /\ m.pc = "take" /\ m.qc \in Cur /\ rep[m.qc] # <<>>
        /\ LET x == Head(rep[m.qc])
               ok == Above(x.L, sh.lmin) \/ (D("accepteq") /\ x.L = sh.lmin)
               den == N - m.cn + (m.cn - m.k)       \* survivors and the points accepted before
           IN /\ Say(V_Take(s, m.qc, x), E_Take(s, m.qc, x))
              /\ rep' = [rep EXCEPT ![m.qc] = Tail(@)]
              /\ m' = IF ok
                      THEN [m EXCEPT !.rest = Insert(@, x), !.ins = Append(@, (RankOf(m.rest, x) * 1000000) \div den),
                                     !.nins = @ + 1, !.it = @ + 1,
                                     !.qc = Next1(@), !.k = @ - 1, !.pc = IF m.k = 1 THEN "end" ELSE "wait", !.lrecv = sh.lmax]
                      ELSE [m EXCEPT !.pc = IF D("noresend") THEN "wait" ELSE "again"]
        /\ UNCHANGED <<sa, sh, req, disk, bud>>

Again == /\ m.pc = "again"
         /\ LET x == m.worst[m.k] IN
              /\ req' = [req EXCEPT ![m.qc] = Append(@, x)]
              /\ Say(V_Ask(s, m.qc, x), E_Ask(s, m.qc, x))
         /\ m' = [m EXCEPT !.pc = "wait"]
         /\ UNCHANGED <<sa, sh, rep, disk, bud>>

End == /\ m.pc = "end"
       /\ LET st == IF D("condbefore") THEN m.stop ELSE Stop(m.it, sh.lmax)
              mm == [m EXCEPT !.live = m.rest, !.pc = "loop", !.stop = st]
              o == [live |-> mm.live, nsN |-> Len(mm.ns), it |-> mm.it, nvol |-> mm.nL, nL |-> mm.nL,
                    tail |-> m.worst, ins |-> m.ins, vol |-> -((m.it * 1000000) \div N), last |-> m.lls[Len(m.lls)], zdev |-> 0, infodev |-> 0,
                    muststop |-> Stop(m.it, sh.lmax), maystop |-> Stop(m.it, m.lrecv), lmaxb |-> sh.lmax]
          IN Say(V_End(s, o), E_End(s, o)) /\ m' = mm
       /\ UNCHANGED <<sa, sh, req, rep, disk, bud>>

Finish == /\ m.pc = "stop"
          /\ sh' = [sh EXCEPT !.lmin = PosInf]
          /\ Say(V_Thr(s, PosInf, 0), E_Thr(s, PosInf))
          /\ m' = [m EXCEPT !.pc = "tell", !.left = Cur]
          /\ UNCHANGED <<sa, req, rep, disk, bud>>

Tell == /\ m.pc \in {"tell", "tellck"} /\ m.left # {}
        /\ \E p \in m.left : (\A q \in m.left : p <= q)
           /\ req' = [req EXCEPT ![p] = Append(@, IF m.pc = "tell" THEN None ELSE Ck)]
           /\ Say(V_Tell(s, p), E_Tell(s, p))
           /\ m' = [m EXCEPT !.left = @ \ {p}, !.pc = IF m.left # {p} THEN @ ELSE IF m.pc = "tell" THEN "join" ELSE "exit"]
        /\ UNCHANGED <<sa, sh, rep, disk, bud>>

Gone == \A p \in Smp : sa[p].pc = "gone"

Join == /\ m.pc = "join" /\ (Gone \/ D("nojoin"))
        /\ Say(V_MainEnd(s, [how |-> "return", joined |-> Gone, results |-> TRUE, code |-> 0]), s)
        /\ m' = [m EXCEPT !.pc = "res"]
        /\ UNCHANGED <<sa, sh, req, rep, disk, bud>>

Res == /\ m.pc = "res"
       /\ LET lv == SortPts(m.live)
              o == [ns |-> IF D("nolast") THEN m.ns ELSE m.ns \o lv, Ls |-> <<NegInf>> \o m.lls \o [k \in 1..Len(lv) |-> lv[k].L],
                    vols |-> [k \in 1..(m.nL + N) |->
                               LET H(q) == -(1000000 \div q)
                                   RECURSIVE tot(_)
                                   tot(j) == IF j = 0 THEN 0 ELSE tot(j - 1) + H(N - j + 1)
                               IN IF k = 1 THEN 0 ELSE -((m.it * 1000000) \div N) + (IF k <= m.nL THEN 0 ELSE tot(k - m.nL))],
                    trapdev |-> 0, retdev |-> 0, infodev |-> 0, lmax |-> sh.lmax, fileok |-> TRUE, it |-> m.it, nvol |-> m.nL]
          IN Say(V_Results(s, o), s)
       /\ m' = [m EXCEPT !.pc = "done"]
       /\ UNCHANGED <<sa, sh, req, rep, disk, bud>>

(* ------------------------------------------------------------ interrupts *)

Interrupt == /\ bud.sig > 0 /\ m.marked /\ m.pc \in {"loop", "thr", "send", "wait", "take", "again", "end"}
             /\ bud' = [bud EXCEPT !.sig = @ - 1]
             /\ Say({}, E_Signal(s, 0))
             /\ m' = IF D("rollback") \/ m.pc = "loop" THEN [m EXCEPT !.pc = "save"]
                     ELSE LET k == m.mark[1] IN
                          [m EXCEPT !.pc = "save", !.live = k.live, !.ns = k.ns, !.it = k.it, !.nL = k.nL, !.lls = k.lls,
                                    !.nins = k.nins, !.qc = k.qc, !.stop = k.stop]
             /\ sh' = IF D("rollback") \/ m.pc = "loop" THEN sh ELSE [sh EXCEPT !.lmin = m.mark[1].lmin]
             /\ UNCHANGED <<sa, req, rep, disk>>

FullObs(mm, lmn, lmx) == [ok |-> TRUE, live |-> mm.live, nsN |-> Len(mm.ns), ns |-> mm.ns, it |-> mm.it, lmin |-> lmn, lmax |-> lmx,
                          nvol |-> mm.nL, nL |-> mm.nL, nins |-> mm.nins, vol |-> -((mm.it * 1000000) \div N)]

Save == /\ m.pc = "save"
        /\ LET keep == [M0 EXCEPT !.pc = "loop", !.live = m.live, !.ns = m.ns, !.it = m.it, !.nL = m.nL, !.lls = m.lls,
                                  !.nins = m.nins, !.qc = IF D("qc") THEN m.qc ELSE 1, !.stop = m.stop]
               lv == SortPts(m.live)
           IN /\ disk' = [disk EXCEPT !.has = TRUE, !.st = keep, !.lmin = sh.lmin, !.lmax = sh.lmax]
              /\ Say(V_Ckpt(s, FullObs(keep, sh.lmin, sh.lmax)), E_Ckpt(s, FullObs(keep, sh.lmin, sh.lmax)))
        /\ m' = [m EXCEPT !.pc = "tellck", !.left = Cur]
        /\ UNCHANGED <<sa, sh, req, rep, bud>>

Exit == /\ m.pc = "exit"
        /\ Say(V_MainEnd(s, [how |-> "exit", code |-> 130, joined |-> FALSE, results |-> FALSE]), s)
        /\ m' = [m EXCEPT !.pc = "reap"]
        /\ UNCHANGED <<sa, sh, req, rep, disk, bud>>

Reap == /\ m.pc = "reap" /\ Gone
        /\ Say(V_Files(s, [ns |-> disk.has, smp |-> [p \in Smp |-> IF disk.smp[p] THEN 1 ELSE 0]]), s)
        /\ m' = [m EXCEPT !.pc = "dead"]
        /\ UNCHANGED <<sa, sh, req, rep, disk, bud>>

Restart == /\ m.pc = "dead"
           /\ \E cn \in 1..n :
              /\ m' = [disk.st EXCEPT !.cn = cn]
              /\ sh' = [lmin |-> IF D("lmin") THEN NegInf ELSE disk.lmin, lmax |-> disk.lmax, flag |-> 0]
              /\ LET o == FullObs(disk.st, sh'.lmin, sh'.lmax) @@ [n |-> cn]
                 IN Say(V_Restart(s, o), E_Restart(s, o))
              /\ sa' = [p \in Smp |-> [Sa0[p] EXCEPT !.cnt = sa[p].cnt, !.pc = IF p <= cn THEN @ ELSE "gone"]]
           /\ req' = [p \in Smp |-> <<>>] /\ rep' = [p \in Smp |-> <<>>]
           /\ UNCHANGED <<disk, bud>>

(* ------------------------------------------------------------ a sampler *)

SLoop(p) == /\ sa[p].pc = "loop"
            /\ \/ /\ sh.lmin = PosInf
                  /\ sa' = [sa EXCEPT ![p].pc = "gone"]
                  /\ Say(V_SExit(s, p, 0), E_SExit(s, p)) /\ UNCHANGED <<req, disk>>
               \/ /\ sh.lmin # PosInf /\ req[p] # <<>>
                  /\ req' = [req EXCEPT ![p] = Tail(@)]
                  /\ LET x == Head(req[p]) IN
                     IF x = None THEN /\ sa' = [sa EXCEPT ![p].pc = "gone"] /\ Say(V_SExit(s, p, 0), E_SExit(s, p)) /\ UNCHANGED disk
                     ELSE IF x = Ck THEN /\ sa' = [sa EXCEPT ![p].pc = "gone"] /\ Say(V_SExit(s, p, 130), E_SExit(s, p))
                                         /\ disk' = [disk EXCEPT !.smp[p] = TRUE]
                     ELSE /\ sa' = [sa EXCEPT ![p].pc = "work", ![p].slm = sh.lmin]
                          /\ Say(V_SRecv(s, p, x), E_SRecv(s, p, x)) /\ UNCHANGED disk
            /\ UNCHANGED <<m, sh, rep, bud>>

SWork(p) == /\ sa[p].pc = "work"
            /\ \E L \in {NaN, NegInf} \cup 1..MaxL :
                 LET pop == sa[p].slm = NegInf
                     moved == pop \/ Above(L, sa[p].slm)
                     free == s.sig \/ sh.lmin = PosInf          \* nobody waits for this reply
                 IN /\ (L \in {NaN, NegInf} => pop /\ bud.bad > 0)
                    /\ (~moved => free \/ bud.stale > 0)
                    /\ bud' = [bud EXCEPT !.bad = IF L \in {NaN, NegInf} THEN @ - 1 ELSE @, !.stale = IF moved \/ free THEN @ ELSE @ - 1]
                    /\ sa' = [sa EXCEPT ![p].pc = IF Usable(L) THEN "find" ELSE "reply", ![p].moved = moved /\ ~pop, ![p].cnt = @ + 1,
                                        ![p].x = Pt(p * 1000 + sa[p].cnt, L)]
            /\ Quiet /\ UNCHANGED <<m, sh, req, rep, disk>>

(* logLmax.value = max(logLmax.value, L), under its lock *)
SFind(p) == /\ sa[p].pc = "find"
            /\ IF D("lmaxrace")
               THEN /\ sa' = [sa EXCEPT ![p].pc = "store", ![p].old = sh.lmax] /\ UNCHANGED sh /\ Quiet
               ELSE /\ sh' = [sh EXCEPT !.lmax = Max(@, sa[p].x.L)]
                    /\ Say(V_Best(s, sh'.lmax), E_Best(s, sh'.lmax))
                    /\ sa' = [sa EXCEPT ![p].pc = "reply"]
            /\ UNCHANGED <<m, req, rep, disk, bud>>

SStore(p) == /\ sa[p].pc = "store"
             /\ sh' = [sh EXCEPT !.lmax = Max(sa[p].old, sa[p].x.L)]
             /\ Say(V_Best(s, sh'.lmax), E_Best(s, sh'.lmax))
             /\ sa' = [sa EXCEPT ![p].pc = "reply", ![p].old = NegInf]
             /\ UNCHANGED <<m, req, rep, disk, bud>>

SReply(p) == /\ sa[p].pc = "reply"
             /\ rep' = [rep EXCEPT ![p] = Append(@, sa[p].x)]
             /\ Say(V_SSend(s, p, sa[p].x, sa[p].moved), E_SSend(s, p, sa[p].x))
             /\ sa' = [sa EXCEPT ![p].pc = "loop", ![p].x = New, ![p].moved = FALSE, ![p].slm = NegInf]
             /\ UNCHANGED <<m, sh, req, disk, bud>>

(* sampling on without a request: the best likelihood may rise at any time *)
SWander(p) == /\ sa[p].pc = "loop" /\ req[p] = <<>> /\ bud.wander > 0 /\ sh.lmin # PosInf
              /\ \E L \in 1..MaxL : Above(L, sh.lmin) /\ L > sh.lmax
                   /\ sh' = [sh EXCEPT !.lmax = L]
                   /\ Say(V_Best(s, L), E_Best(s, L))
              /\ bud' = [bud EXCEPT !.wander = @ - 1]
              /\ UNCHANGED <<m, sa, req, rep, disk>>

NSNext == PopSend \/ PopWait \/ PopTake \/ PopAgain \/ Loop \/ Thr \/ Send \/ Wait \/ Take \/ Again \/ End \/ Finish \/ Tell
          \/ Join \/ Res \/ Save \/ Exit \/ Reap \/ Restart
SNext(p) == SLoop(p) \/ SWork(p) \/ SFind(p) \/ SStore(p) \/ SReply(p)
(* the last replies may lie on a plateau that nothing rises above: nothing is claimed there *)
Plateau == m.pc \in {"wait", "take", "again", "send"} /\ sh.lmin = MaxL
Next == NSNext \/ Interrupt \/ (\E p \in Smp : SNext(p) \/ SWander(p)) \/ (m.pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(NSNext) /\ \A p \in Smp : WF_vars(SNext(p))

NoViolation == viol = {}
(* nothing can get stuck: TLC's own deadlock check, except where no sampler can find a better point *)
Stuck == ~ENABLED Next
NotStuck == Plateau \/ (\E p \in Smp : sa[p].slm = MaxL /\ sa[p].pc = "work") \/ ENABLED Next
Ends == <>(m.pc = "done" \/ Plateau \/ \E p \in Smp : sa[p].slm = MaxL /\ sa[p].pc = "work")
=============================================================================
