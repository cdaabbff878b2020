------------------------------ MODULE Exhaustion ------------------------------
(***************************************************************************)
(* Objects whose contents lie in allocated blocks, and operations on them  *)
(* that allocate step by step. Any allocation may fail; the operation then *)
(* ends there, giving back what it held. An object that was being written  *)
(* stands for nothing afterwards; every other keeps its value. An          *)
(* implementation may remember a root with the object.                     *)
(* Fault: "none", or one way of getting this wrong:                        *)
(*   flag     the root is marked as remembered before it is computed       *)
(*   keep     what an operation held is not given back when it fails       *)
(*   release  an assignment gives its old block back before it has the new *)
(*   swallow  an operation that fails ends as if it had not                *)
(*   torn     a copy failing halfway writes to what it copies from         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Objects, Values, Blocks, Fault

VARIABLES obj,    \* what each object stands for: st, v (the specification's view)
          cell,   \* what the implementation stores: its block and remembered root
          heap,   \* block -> contents; 0: not allocated
          run,    \* the operation under way
          told    \* the last answer: of which object, and what; what: 0 none, 1 failure
vars == <<obj, cell, heap, run, told>>

Live == { b \in Blocks : heap[b] # 0 }
Idle == [op |-> "idle", o |-> 0, p |-> 0, v |-> 0, at |-> 0, held |-> {}]
Root(v) == 10 + v
Nothing == [o |-> 0, what |-> 0]
Failure == [o |-> 0, what |-> 1]
Zero == 1        \* every new object's value

Init == /\ obj = [o \in Objects |-> [st |-> "none", v |-> 0]]
        /\ cell = [o \in Objects |-> [b |-> 0, memo |-> 0]]
        /\ heap = [b \in Blocks |-> 0]
        /\ run = Idle /\ told = Nothing

There(o) == obj[o].st # "none"
Begin(r) == /\ run = Idle /\ run' = r /\ UNCHANGED <<obj, cell, heap, told>>
StartNew(o) == ~There(o) /\ Begin([Idle EXCEPT !.op = "new", !.o = o, !.v = Zero])
StartLoad(o, v) == There(o) /\ Begin([Idle EXCEPT !.op = "load", !.o = o, !.v = v])
StartAssign(o, p) == There(o) /\ There(p) /\ o # p /\ Begin([Idle EXCEPT !.op = "assign", !.o = o, !.p = p])
StartRoot(o) == There(o) /\ Begin([Idle EXCEPT !.op = "root", !.o = o])
StartDestroy(o) == There(o) /\ Begin([Idle EXCEPT !.op = "destroy", !.o = o])

\* how many blocks the operation takes, and with what in them
Needs(r) == IF r.op = "root" THEN 2 ELSE 1
Writes(r) == r.op \in {"new", "load", "assign"}

End(o2, c2, h2, t) == obj' = o2 /\ cell' = c2 /\ heap' = h2 /\ run' = Idle /\ told' = t

\* the root is remembered: nothing to compute
Known == run.op = "root" /\ run.at = 0 /\ cell[run.o].memo # 0
\* taking a block
Allocate ==
    /\ run.op \in {"new", "load", "assign", "root"} /\ run.at < Needs(run)
    /\ ~Known
    /\ \E b \in Blocks \ Live :
         /\ heap' = [x \in Blocks |-> IF x = b THEN 99
                                      ELSE IF Fault = "release" /\ run.op = "assign" /\ x = cell[run.o].b THEN 0 ELSE heap[x]]
         /\ run' = [run EXCEPT !.at = @ + 1, !.held = @ \cup {b}]
    /\ cell' = IF Fault = "flag" /\ run.op = "root" THEN [cell EXCEPT ![run.o].memo = 99] ELSE cell
    /\ UNCHANGED <<obj, told>>
Fail ==
    /\ run.op \in {"new", "load", "assign", "root"} /\ run.at < Needs(run)
    /\ ~Known
    /\ LET back(h) == IF Fault = "keep" THEN h ELSE [x \in Blocks |-> IF x \in run.held THEN 0 ELSE h[x]]
           gone(h) == IF Fault = "release" /\ run.op = "assign" THEN [x \in Blocks |-> IF x = cell[run.o].b THEN 0 ELSE h[x]] ELSE h
           torn(h) == IF Fault = "torn" /\ run.op = "assign" THEN [x \in Blocks |-> IF x = cell[run.p].b THEN 99 ELSE h[x]] ELSE h
       IN End(IF Writes(run) /\ run.op # "new" THEN [obj EXCEPT ![run.o] = [st |-> "any", v |-> 0]] ELSE obj,
              IF Fault = "flag" /\ run.op = "root" /\ run.at > 0 THEN [cell EXCEPT ![run.o].memo = 99] ELSE cell,
              torn(gone(back(heap))), IF Fault = "swallow" THEN [o |-> run.o, what |-> 99] ELSE Failure)
Finish ==
    /\ run.op \in {"new", "load", "assign"} /\ run.at = 1
    /\ LET b == CHOOSE x \in run.held : TRUE
           v == IF run.op = "assign" THEN heap[cell[run.p].b] ELSE run.v
       IN End([obj EXCEPT ![run.o] = IF run.op = "assign" THEN obj[run.p] ELSE [st |-> "known", v |-> v]],
              [cell EXCEPT ![run.o] = [b |-> b, memo |-> IF run.op = "assign" THEN cell[run.p].memo ELSE 0]],
              [x \in Blocks |-> IF x = b THEN v ELSE IF x = cell[run.o].b THEN 0 ELSE heap[x]], Nothing)
Answer ==
    /\ run.op = "root" /\ (run.at = 2 \/ Known)
    /\ LET r == IF Known THEN cell[run.o].memo ELSE Root(heap[cell[run.o].b])
       IN End(obj, [cell EXCEPT ![run.o].memo = r], [x \in Blocks |-> IF x \in run.held THEN 0 ELSE heap[x]], [o |-> run.o, what |-> r])
Destroy ==
    /\ run.op = "destroy"
    /\ End([obj EXCEPT ![run.o] = [st |-> "none", v |-> 0]], [cell EXCEPT ![run.o] = [b |-> 0, memo |-> 0]],
           [x \in Blocks |-> IF x = cell[run.o].b THEN 0 ELSE heap[x]], Nothing)

Next == \/ \E o \in Objects : StartNew(o) \/ StartRoot(o) \/ StartDestroy(o)
        \/ \E o \in Objects, v \in Values : StartLoad(o, v)
        \/ \E o, p \in Objects : StartAssign(o, p)
        \/ Allocate \/ Fail \/ Finish \/ Answer \/ Destroy
Spec == Init /\ [][Next]_vars /\ WF_vars(Allocate \/ Fail \/ Finish \/ Answer \/ Destroy)

\* what an object holds is allocated, its own, and is the value it stands for
Owned == run = Idle => \A o \in Objects : There(o) => cell[o].b \in Live
Apart == \A o, p \in Objects : o # p /\ There(o) /\ There(p) => cell[o].b # cell[p].b
Stands == \A o \in Objects : obj[o].st = "known" => heap[cell[o].b] = obj[o].v
\* nothing else is allocated
Returned == Live = { cell[o].b : o \in { x \in Objects : There(x) } } \cup run.held
\* an answer is the right one (and forgotten when an object is written)
Right == run = Idle /\ told.what > 1 /\ obj[told.o].st = "known" => told.what = Root(obj[told.o].v)
\* every operation ends
Ends == (run # Idle) ~> (run = Idle)
=============================================================================
