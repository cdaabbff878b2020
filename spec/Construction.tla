---------------------------- MODULE Construction ----------------------------
(***************************************************************************)
(* Objects made without a value, in storage that holds what was there      *)
(* before: they are constructed, written, destroyed and constructed again  *)
(* in the same place. How names the way an object is made: "plain", each   *)
(* part set to its default; "left", integers keep what the storage holds;  *)
(* "flags", booleans do; "once", all objects are copied from one that is   *)
(* also handed out to be written; "room", a list starts as long as its     *)
(* limit; "first", only the first element of a vector is set; "ones", the  *)
(* bits of a bitvector start set.                                          *)
(***************************************************************************)
EXTENDS SszSmall
CONSTANTS Chosen, Digits, MaxItems, Slots, How
VARIABLES type, place, model    \* model: the object of "once"
vars == <<type, place, model>>

T == SmallTypes[type]
Values(t) == ValuesOf(t, Digits, MaxItems)

RECURSIVE Made(_, _)
\* an object of type t made where the value was lies
Made(t, was) ==
    CASE t.k = "uint" /\ How = "left" -> was
      [] t.k = "bool" /\ How = "flags" -> was
      [] t.k = "bitvec" /\ How = "ones" -> Tup([i \in 1..t.n |-> 1])
      [] t.k = "list" /\ How = "room" /\ t.lim.k = "nat" -> Tup([i \in 1..t.lim.v |-> Zero(t.t)])
      [] t.k = "vec" -> Tup([i \in 1..t.n |-> IF How = "first" /\ i > 1 THEN was[i] ELSE Made(t.t, was[i])])
      [] t.k = "cont" -> Tup([i \in 1..Len(t.fs) |-> Made(t.fs[i].t, was[i])])
      [] OTHER -> Zero(t)

Init == /\ type \in Chosen
        /\ place \in [Slots -> {[is |-> "raw", v |-> v] : v \in Values(T)}]
        /\ model = Zero(T)
Construct(s) == /\ place[s].is = "raw"
                /\ place' = [place EXCEPT ![s] = [is |-> "fresh", v |-> IF How = "once" THEN model ELSE Made(T, place[s].v)]]
                /\ UNCHANGED <<type, model>>
Write(s) == /\ place[s].is # "raw"
            /\ \E v \in Values(T) : place' = [place EXCEPT ![s] = [is |-> "written", v |-> v]] /\ model' = IF How = "once" THEN v ELSE model
            /\ UNCHANGED type
Destroy(s) == /\ place[s].is # "raw"
              /\ place' = [place EXCEPT ![s].is = "raw"]
              /\ UNCHANGED <<type, model>>
Next == \E s \in Slots : Construct(s) \/ Write(s) \/ Destroy(s)
Spec == Init /\ [][Next]_vars

Fresh == {s \in Slots : place[s].is = "fresh"}
Default == \A s \in Fresh : place[s].v = Zero(T)
Alike == \A r, s \in Fresh : place[r].v = place[s].v
RECURSIVE Least(_)
Least(t) == CASE t.k = "list" -> 0
              [] t.k = "bitlist" -> 1
              [] t.k = "vec" -> t.n * (Least(t.t) + IF IsFixed(t.t) THEN 0 ELSE OffsetBytes)
              [] t.k = "cont" -> Sum(Tup([i \in 1..Len(t.fs) |-> Least(t.fs[i].t) + IF IsFixed(t.fs[i].t) THEN 0 ELSE OffsetBytes]))
              [] OTHER -> FixedSize(t)
Shortest == \A s \in Fresh : Len(Ser(T, place[s].v)) = Least(T)
Sound == \A s \in Slots : IsValue(T, place[s].v)
=============================================================================
