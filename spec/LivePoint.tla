------------------------------ MODULE LivePoint ------------------------------
(* Live points as values. An object is [cell, L, P]: the coordinates live in a cell of the store, and no two objects may
   share one. Behaviours (operation, what it returns, and the whole heap after it) are replayed in the real LivePoint.
   Unspec marks a field that the operation leaves open.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dim, MaxObj, MaxOps, Defects

Unspec == 99999
NInf == -99999
Init0 == {0, 2, -6}
Num == {-1, 2, 3}
Coord == {-4, 0, 8}

VARIABLES obj, store, hist
vars == <<obj, store, hist>>

Vec(f) == [k \in 1..Dim |-> f[k]]
Val(i) == store[obj[i].cell]
View == [i \in 1..Len(obj) |-> [v |-> Val(i), L |-> obj[i].L, P |-> obj[i].P]]

Init == obj = <<>> /\ store = <<>> /\ hist = [dim |-> Dim, ops |-> <<>>, done |-> FALSE]

(* record the operation and everything that can be seen after it *)
Log(op) == hist' = [hist EXCEPT !.ops = Append(@, op @@ [heap |-> [i \in 1..Len(obj') |-> [v |-> store'[obj'[i].cell], L |-> obj'[i].L, P |-> obj'[i].P]]])]
Room == Len(obj) < MaxObj
NewObj(v, L, P) == /\ store' = Append(store, v)
                   /\ obj' = Append(obj, [cell |-> Len(store) + 1, L |-> L, P |-> P])
Alias(i, L, P) == store' = store /\ obj' = Append(obj, [cell |-> obj[i].cell, L |-> L, P |-> P])
Put(i, v) == store' = [store EXCEPT ![obj[i].cell] = v]

LP == {<<5, 2>>, <<0, -3>>, <<NInf, NInf>>, <<NInf, 0>>, <<0, NInf>>}     \* every combination of known, zero and -infinity
New == \E v \in [1..Dim -> Init0], q \in LP : Room /\ NewObj(Vec(v), q[1], q[2]) /\ Log([o |-> "new", v |-> Vec(v), L |-> q[1], P |-> q[2]])
Blank == Room /\ NewObj([k \in 1..Dim |-> 0], NInf, NInf) /\ Log([o |-> "blank"])
Dup == \E i \in 1..Len(obj), how \in {"copy", "pickle", "copy.copy", "deepcopy"} :
          /\ Room
          /\ IF "aliascopy" \in Defects THEN Alias(i, obj[i].L, obj[i].P) ELSE NewObj(Val(i), obj[i].L, obj[i].P)
          /\ Log([o |-> how, a |-> i])
Bin == \E i, j \in 1..Len(obj), o \in {"add", "sub"} :
          /\ Room
          /\ NewObj([k \in 1..Dim |-> IF o = "add" THEN Val(i)[k] + Val(j)[k] ELSE Val(i)[k] - Val(j)[k]], Unspec, Unspec)
          /\ Log([o |-> o, a |-> i, b |-> j])
Scale == \E i \in 1..Len(obj), k \in Num : Room /\ NewObj([d \in 1..Dim |-> Val(i)[d] * k], Unspec, Unspec) /\ Log([o |-> "mul", a |-> i, k |-> k])
Halve == \E i \in 1..Len(obj) : /\ Room /\ \A d \in 1..Dim : Val(i)[d] % 2 = 0
                                /\ NewObj([d \in 1..Dim |-> Val(i)[d] \div 2], Unspec, Unspec) /\ Log([o |-> "div", a |-> i, k |-> 2])
InBin == \E i, j \in 1..Len(obj), o \in {"iadd", "isub"} :
          /\ Put(i, [k \in 1..Dim |-> IF o = "iadd" THEN Val(i)[k] + Val(j)[k] ELSE Val(i)[k] - Val(j)[k]])
          /\ obj' = [obj EXCEPT ![i].L = Unspec, ![i].P = Unspec] /\ Log([o |-> o, a |-> i, b |-> j])
InScale == \E i \in 1..Len(obj), k \in Num : Put(i, [d \in 1..Dim |-> Val(i)[d] * k]) /\ obj' = [obj EXCEPT ![i].L = Unspec, ![i].P = Unspec] /\ Log([o |-> "imul", a |-> i, k |-> k])
InHalve == \E i \in 1..Len(obj) : /\ \A d \in 1..Dim : Val(i)[d] % 2 = 0
                                  /\ Put(i, [d \in 1..Dim |-> Val(i)[d] \div 2])
                                  /\ obj' = [obj EXCEPT ![i].L = Unspec, ![i].P = Unspec] /\ Log([o |-> "idiv", a |-> i, k |-> 2])
Set == \E i \in 1..Len(obj), d \in 1..Dim, x \in Coord : Put(i, [Val(i) EXCEPT ![d] = x]) /\ UNCHANGED obj /\ Log([o |-> "set", a |-> i, d |-> d, x |-> x])
SetLP == \E i \in 1..Len(obj), L \in {NInf, 0, 4}, P \in {NInf, 0, -7} : obj' = [obj EXCEPT ![i].L = L, ![i].P = P] /\ UNCHANGED store /\ Log([o |-> "setlp", a |-> i, L |-> L, P |-> P])
Same == UNCHANGED <<obj, store>>
Get == \E i \in 1..Len(obj), d \in 1..Dim : Same /\ Log([o |-> "get", a |-> i, d |-> d, x |-> Val(i)[d]])
Unknown == \E i \in 1..Len(obj), o \in {"get?", "set?"}, nm \in {"logL", "nope", "", "values"} : Same /\ Log([o |-> o, a |-> i, nm |-> nm])
Record == \E i \in 1..Len(obj) : Same /\ Log([o |-> "record", a |-> i, v |-> Val(i), L |-> obj[i].L, P |-> obj[i].P])
Source == \E i \in 1..Len(obj) : Same /\ Log([o |-> "source", a |-> i])     \* change the array a point was made from, or a record made of it

Small == \A i \in 1..Len(obj') : \A d \in 1..Dim : store'[obj'[i].cell][d] \in -100000..100000
Finish == Len(hist.ops) = MaxOps /\ ~hist.done /\ hist' = [hist EXCEPT !.done = TRUE] /\ UNCHANGED <<obj, store>>
Step == /\ Len(hist.ops) < MaxOps
        /\ \/ New \/ Blank \/ Dup \/ Bin \/ Scale \/ Halve \/ InBin \/ InScale \/ InHalve \/ Set \/ SetLP \/ Get \/ Unknown \/ Record \/ Source
        /\ Small
Next == Step \/ Finish

(* every object has coordinates of its own *)
NoSharing == \A i, j \in 1..Len(obj) : i # j => obj[i].cell # obj[j].cell
(* a step changes at most one object that was there before (the one it names), and reading changes none *)
OnlyNamed == [][\A i \in 1..Len(obj) : (store'[obj'[i].cell] # Val(i) \/ obj'[i].L # obj[i].L \/ obj'[i].P # obj[i].P)
                   => LET op == hist'.ops[Len(hist'.ops)] IN op.o \in {"iadd", "isub", "imul", "idiv", "set", "setlp"} /\ op.a = i]_vars
Emit == hist.done => PrintT("@@B " \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
