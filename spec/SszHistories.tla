---------------------------- MODULE SszHistories ----------------------------
(***************************************************************************)
(* A handful of objects and every history of constructing, loading,        *)
(* writing to, copying, assigning, moving and observing them. Each object  *)
(* has its abstract value (SszObject: what it was last given) and what an  *)
(* implementation stores: a fixed field, a list buffer in a heap, and a    *)
(* root it may remember. Variant names the implementation:                 *)
(*   Plain     a load empties the list and appends to it; copies have      *)
(*             their own buffer; nothing is remembered                     *)
(*   NoClear   a load appends to what is there                             *)
(*   Shared    a copy shares the buffer until one of them is assigned      *)
(*   Cached    the root is remembered and forgotten only by assignment     *)
(*   Written   ... also by loads, but not by a write to a part             *)
(*   Appended  a load that is refused leaves the next one appending        *)
(* In every history the observation of an object that stands for a value   *)
(* is that value.                                                          *)
(***************************************************************************)
EXTENDS SszObject
CONSTANTS Slots, Variant, MaxItems

VARIABLES obj, cell, heap
vars == <<obj, cell, heap>>

Type == TCont(<<Fld("a", TUint(1)), Fld("l", TList(TUint(1), NoLimit))>>)
Items == UNION {{Tup([i \in 1..n |-> <<f[i]>>]) : f \in [1..n -> {0, 1}]} : n \in 0..MaxItems}
Messages == [a : {0, 1}, l : Items, cut : 0..MaxItems, ok : BOOLEAN]
Sensible(m) == IF m.ok THEN m.cut = Len(m.l) ELSE m.cut <= Len(m.l)

Buffers == 1..(2 * Cardinality(Slots))
NoCell == [a |-> 0, buf |-> 0, told |-> << >>, dirty |-> FALSE]
Used == {cell[s].buf : s \in Slots}
Spare(used) == CHOOSE b \in Buffers : b \notin used /\ \A c \in Buffers : c < b => c \in used
Content(c) == << <<c.a>>, heap[c.buf] >>
Remembers == Variant \in {"Cached", "Written"}
Seen(c) == IF Remembers /\ c.told # << >> THEN c.told ELSE Content(c)

Init == /\ obj = [s \in Slots |-> NoObj]
        /\ cell = [s \in Slots |-> NoCell]
        /\ heap = [b \in Buffers |-> << >>]
Live(s) == obj[s].st # "none"

Construct(s) ==
    LET b == Spare(Used)
    IN /\ obj' = [obj EXCEPT ![s] = Fresh(Type)]
       /\ cell' = [cell EXCEPT ![s] = [NoCell EXCEPT !.buf = b]]
       /\ heap' = [heap EXCEPT ![b] = << >>]
\* the first cut items are stored before a bad one is met
Load(s, m) ==
    LET c == cell[s]
        before == IF Variant = "NoClear" \/ (Variant = "Appended" /\ c.dirty) THEN heap[c.buf] ELSE << >>
    IN /\ Live(s) /\ Sensible(m) /\ Len(before) < 2 * MaxItems
       /\ obj' = [obj EXCEPT ![s] = IF m.ok THEN Holding(@, << <<m.a>>, m.l >>, "b") ELSE Spoilt(@)]
       /\ cell' = [cell EXCEPT ![s] = [@ EXCEPT !.a = m.a, !.dirty = ~m.ok, !.told = IF Variant = "Written" THEN << >> ELSE @]]
       /\ heap' = [heap EXCEPT ![c.buf] = before \o SubSeq(m.l, 1, m.cut)]
\* a field or an element is written in place
WriteField(s, x) ==
    /\ Live(s)
    /\ obj' = [obj EXCEPT ![s] = IF @.st = "known" THEN Holding(@, WithPart(@.v, <<1>>, <<x>>), "w") ELSE @]
    /\ cell' = [cell EXCEPT ![s].a = x]
    /\ UNCHANGED heap
WriteItem(s, i, x) ==
    /\ Live(s) /\ i <= Len(heap[cell[s].buf])
    /\ obj' = [obj EXCEPT ![s] = IF @.st = "known" /\ i <= Len(@.v[2]) THEN Holding(@, WithPart(@.v, <<2, i>>, <<x>>), "w") ELSE @]
    /\ heap' = [heap EXCEPT ![cell[s].buf][i] = <<x>>]
    /\ UNCHANGED cell
\* d is a new object or takes a new value
Copy(s, d) ==
    LET b == IF Variant = "Shared" THEN cell[s].buf
             ELSE IF Live(d) THEN cell[d].buf ELSE Spare(Used)
    IN /\ Live(s) /\ s # d
       /\ obj' = [obj EXCEPT ![d] = CopyOf(obj[s])]
       /\ cell' = [cell EXCEPT ![d] = [cell[s] EXCEPT !.buf = b]]
       /\ heap' = [heap EXCEPT ![b] = heap[cell[s].buf]]
\* the source is left with an empty list; nothing is promised about it
Move(s, d) ==
    LET b == Spare(Used)
    IN /\ Live(s) /\ s # d
       /\ obj' = [obj EXCEPT ![d] = CopyOf(obj[s]), ![s] = Spoilt(@)]
       /\ cell' = [cell EXCEPT ![d] = cell[s], ![s] = [@ EXCEPT !.buf = b]]
       /\ heap' = [heap EXCEPT ![b] = << >>]
Observe(s) ==
    /\ Live(s) /\ Remembers
    /\ cell' = [cell EXCEPT ![s].told = Seen(cell[s])]
    /\ UNCHANGED <<obj, heap>>

Next == \/ \E s \in Slots : Construct(s) \/ Observe(s)
        \/ \E s \in Slots, m \in Messages : Load(s, m)
        \/ \E s \in Slots, x \in {0, 1} : WriteField(s, x) \/ \E i \in 1..MaxItems : WriteItem(s, i, x)
        \/ \E s, d \in Slots : Copy(s, d) \/ Move(s, d)
Spec == Init /\ [][Next]_vars

LastGiven == \A s \in Slots : obj[s].st = "known" => Seen(cell[s]) = obj[s].v
\* equal values have equal observations, whatever was done to get there
HistoryFree == \A s, d \in Slots : obj[s].st = "known" /\ obj[d].st = "known" /\ obj[s].v = obj[d].v
                                   => Seen(cell[s]) = Seen(cell[d])
Stands == \A s \in Slots : obj[s].st = "known" => IsValue(Type, obj[s].v)
Rest == [s \in Slots |-> [obj[s] EXCEPT !.src = "", !.lim = 0]]
View == <<Rest, cell, heap>>
=============================================================================
