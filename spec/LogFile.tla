------------------------------- MODULE LogFile -------------------------------
(* Log file contexts. A message goes to every context that is open, whose logger is the message's or an ancestor of it, and whose
   verbosity admits its level; the console handler follows its own verbosity throughout. Behaviours are replayed in cpnest.utils. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Verb, Scope, Path, Defects
(* Verb[i], Scope[i], Path[i]: verbosity, logger and file of context i (several contexts may log to one file, which then holds a
   message once for each that takes it) *)
N == Len(Verb)
Levels == {10, 20, 30, 40, 50}
Thr(v) == CASE v = 0 -> 50 [] v = 1 -> 30 [] v = 2 -> 20 [] v = 3 -> 10
Loggers == {"cpnest", "cpnest.cpnest", "cpnest.cpnest.CPNest", "cpnest.sampler", "other"}
Under(lg) == CASE lg = "cpnest" -> {"cpnest"} [] lg = "cpnest.cpnest" -> {"cpnest", "cpnest.cpnest"}
               [] lg = "cpnest.cpnest.CPNest" -> {"cpnest", "cpnest.cpnest"} [] lg = "cpnest.sampler" -> {"cpnest"} [] lg = "other" -> {}

VARIABLES open, file, cons, cv, n, hist
vars == <<open, file, cons, cv, n, hist>>

Init == /\ open = {} /\ file = [i \in 1..N |-> <<>>] /\ cons = <<>> /\ cv = 0 /\ n = 0
        /\ hist = [verb |-> Verb, scope |-> Scope, path |-> Path, ops |-> <<>>, done |-> FALSE]

Admits(i, lg, lev) == lev >= Thr(Verb[i]) /\ Scope[i] \in Under(lg)
Takes(op, f, lg, lev) == Cardinality({i \in op : Path[i] = f /\ Admits(i, lg, lev)})
Deliver(fs, op, lg, lev, id) == [f \in 1..N |-> fs[f] \o [j \in 1..Takes(op, f, lg, lev) |-> id]]
ToCons(lg, lev, id) == IF "cpnest" \in Under(lg) /\ lev >= Thr(cv) THEN Append(cons, id) ELSE cons
Log(o) == hist' = [hist EXCEPT !.ops = Append(@, o @@ [file |-> file', cons |-> cons', open |-> [i \in 1..N |-> i \in open']])]

Open == \E i \in 1..N : i \notin open /\ open' = open \cup {i} /\ UNCHANGED <<cons, cv, n>>
           /\ file' = [file EXCEPT ![Path[i]] = IF "truncate" \in Defects THEN <<>> ELSE @] /\ Log([o |-> "open", i |-> i])
Close == \E i \in open : open' = (IF "closeall" \in Defects THEN {} ELSE open \ {i}) /\ UNCHANGED <<file, cons, cv, n>> /\ Log([o |-> "close", i |-> i])
Msg == \E lg \in Loggers, lev \in Levels : /\ n' = n + 1 /\ file' = Deliver(file, open, lg, lev, n + 1) /\ cons' = ToCons(lg, lev, n + 1)
                                           /\ UNCHANGED <<open, cv>> /\ Log([o |-> "log", lg |-> lg, lev |-> lev, id |-> n + 1])
(* the context manager: enter, log, leave - by the end of the body or by an exception *)
With == \E i \in 1..N, lev \in Levels, r \in BOOLEAN, twice \in BOOLEAN :
           /\ i \notin open /\ n' = n + 1
           /\ file' = Deliver(file, open \cup {i}, "cpnest.cpnest", lev, n + 1) /\ cons' = ToCons("cpnest.cpnest", lev, n + 1)
           /\ open' = (IF "leak" \in Defects /\ r THEN open \cup {i} ELSE open) /\ UNCHANGED cv
           /\ Log([o |-> "with", i |-> i, lg |-> "cpnest.cpnest", lev |-> lev, id |-> n + 1, raises |-> r, fresh |-> twice])
Console == \E v \in 0..3 : cv' = v /\ UNCHANGED <<open, file, cons, n>> /\ Log([o |-> "console", v |-> v])
Finish == Len(hist.ops) = MaxOps /\ ~hist.done /\ hist' = [hist EXCEPT !.done = TRUE] /\ UNCHANGED <<open, file, cons, cv, n>>
Next == (Len(hist.ops) < MaxOps /\ (Open \/ Close \/ Msg \/ With \/ Console)) \/ Finish

(* what the property says, over the history: id is in a file once for each of its contexts that was open when it was logged, and admits it *)
WasOpen(k, i) == (k > 1 /\ hist.ops[k - 1].open[i]) \/ (hist.ops[k].o = "with" /\ hist.ops[k].i = i)
Exactly == \A f \in 1..N : \A k \in 1..Len(hist.ops) : hist.ops[k].o \in {"log", "with"} =>
              Cardinality({j \in 1..Len(file[f]) : file[f][j] = hist.ops[k].id})
                = Cardinality({i \in 1..N : Path[i] = f /\ WasOpen(k, i) /\ Admits(i, hist.ops[k].lg, hist.ops[k].lev)})
(* the contexts of with blocks are closed, whatever the body did; closing one leaves the others alone *)
Closed == [][LET e == hist'.ops[Len(hist'.ops)] IN (e.o = "with" => open' = open) /\ (e.o = "close" => open' = open \ {e.i})]_vars
Emit == hist.done => PrintT("@@B " \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
