----------------------------- MODULE SszEncoder -----------------------------
(***************************************************************************)
(* Design of the encoder as the implementation works: one pass over the    *)
(* parts of a value, which writes fixed parts and offsets to a head and    *)
(* variable parts to a tail, and joins the two at the end. `off` is where  *)
(* the next variable part will begin. A part is encoded by the same        *)
(* machine, so open values form a stack. Fault names what is done wrong:   *)
(*   none, still (the offset never moves on), early (it moves on before it *)
(*   is written), outer (it counts from the start of the outermost value), *)
(*   tail (a part of variable type is joined to the head), slots (offsets  *)
(*   are not counted in the fixed length), skip (an empty variable part    *)
(*   gets no offset), carry (the tail of a value closed before is kept).   *)
(***************************************************************************)
EXTENDS SszSmall
CONSTANTS Types, Digits, MaxItems, Fault

VARIABLES type, value, stack, ret, steps
vars == <<type, value, stack, ret, steps>>

Composite(t) == t.k = "cont" \/ (t.k \in {"list", "vec"} /\ ~IsFixed(t.t))
Parts(t, v) == IF t.k = "cont" THEN Tup([i \in 1..Len(t.fs) |-> t.fs[i].t])
               ELSE Tup([i \in 1..Len(v) |-> t.t])
FixedLen(ts) == Sum(Tup([i \in 1..Len(ts) |-> IF Fault = "slots" /\ ~IsFixed(ts[i]) THEN 0 ELSE SlotSize(ts[i])]))
Frame(t, v, base, old) == LET ts == Parts(t, v)
    IN [ts |-> ts, vs |-> v, i |-> 1, off |-> base + FixedLen(ts), head |-> << >>, tail |-> old]
None == [done |-> FALSE, b |-> << >>]
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)

Init == /\ type \in Types
        /\ value \in ValuesOf(SmallTypes[type], Digits, MaxItems)
        /\ steps = 0
        /\ IF Composite(SmallTypes[type])
           THEN stack = <<Frame(SmallTypes[type], value, 0, << >>)>> /\ ret = None
           ELSE stack = << >> /\ ret = [done |-> TRUE, b |-> Ser(SmallTypes[type], value)]

\* the frame f receives the bytes b of its current part
Receive(f, b) ==
    LET t == f.ts[f.i]
        next == f.off + Len(b)
        o == NatLE(IF Fault = "early" THEN next ELSE f.off, OffsetBytes)
    IN IF IsFixed(t) \/ Fault = "tail" THEN [f EXCEPT !.head = @ \o b, !.i = @ + 1]
       ELSE IF Fault = "skip" /\ b = << >> THEN [f EXCEPT !.i = @ + 1]
       ELSE [f EXCEPT !.head = @ \o o, !.tail = @ \o b, !.i = @ + 1, !.off = IF Fault = "still" THEN @ ELSE next]
Open == /\ stack # << >> /\ ~ret.done /\ Top.i <= Len(Top.ts)
        /\ LET t == Top.ts[Top.i]
               v == Top.vs[Top.i]
           IN IF Composite(t)
              THEN stack' = Append(stack, Frame(t, v, IF Fault = "outer" THEN Len(Top.head) ELSE 0,
                                                IF Fault = "carry" THEN Top.tail ELSE << >>)) /\ ret' = None
              ELSE stack' = Append(Below, Receive(Top, Ser(t, v))) /\ ret' = None
Close == /\ stack # << >> /\ ~ret.done /\ Top.i > Len(Top.ts)
         /\ stack' = Below /\ ret' = [done |-> TRUE, b |-> Top.head \o Top.tail]
Take == /\ stack # << >> /\ ret.done
        /\ stack' = Append(Below, Receive(Top, ret.b)) /\ ret' = None
Next == (Open \/ Close \/ Take) /\ steps' = steps + 1 /\ UNCHANGED <<type, value>>
Spec == Init /\ [][Next]_vars

\* while it runs: `off` is what the fixed part will take and what the tail holds
Running == Fault = "none" => \A k \in 1..Len(stack) :
    LET f == stack[k] IN /\ f.off = FixedLen(f.ts) + Len(f.tail)
                         /\ Len(f.head) = FixedLen(SubSeq(f.ts, 1, f.i - 1))
Finished == stack = << >>
Encodes == Finished => ret.b = Ser(SmallTypes[type], value)
ReadBack == Finished => Deser(SmallTypes[type], ret.b) = Good(value)
Sized == Finished /\ IsFixed(SmallTypes[type]) => Len(ret.b) = FixedSize(SmallTypes[type])
RECURSIVE Count(_, _)
Count(t, v) == IF Composite(t) THEN 1 + Sum(Tup([i \in 1..Len(v) |-> Count(Parts(t, v)[i], v[i])])) ELSE 1
\* every part is encoded once
Once == steps <= 3 * Count(SmallTypes[type], value)
\* it stops only when it is finished
Ends == stack # << >> => ENABLED Next
=============================================================================
