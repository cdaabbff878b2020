----------------------------- MODULE SszDecoder -----------------------------
(***************************************************************************)
(* Design of the decoder as the implementation works: one cursor per open  *)
(* value, an offset checked when it is met, a variable part opened when    *)
(* the next offset (or the end) gives its length. Each step opens or       *)
(* closes one value. Guards names the checks made before bytes are read:   *)
(*   space    what a fixed part or an offset needs is there                *)
(*   beyond   an offset does not point past the end                        *)
(*   ordered  an offset is not below the one before                        *)
(*   first    the first offset points right behind the fixed parts         *)
(*   aligned  the offset table of a list is whole                          *)
(*   whole    the elements of a list fill it exactly                       *)
(*   tail     nothing follows a value without variable parts               *)
(* With all of them the machine reads only inside the part it was given,   *)
(* does work linear in the input, stops, and accepts exactly the encodings *)
(* that Ssz!Deser accepts, with their values. Offsets have OffsetBytes     *)
(* bytes, so that short inputs are already exhaustive.                     *)
(***************************************************************************)
EXTENDS SszSmall
CONSTANTS Types, Alphabet, MaxLen, Guards

VARIABLES input, type, stack, ret, steps, wild
vars == <<input, type, stack, ret, steps, wild>>

Inputs == UNION {{Tup(f) : f \in [1..n -> Alphabet]} : n \in 0..MaxLen}
None == [s |-> "none", v |-> << >>]
Refused == [s |-> "bad", v |-> << >>]
Value(v) == [s |-> "ok", v |-> v]
Has(g) == g \in Guards

Composite(t) == t.k \in {"cont", "list", "vec"}
Parts(t) == CASE t.k = "cont" -> Tup([i \in 1..Len(t.fs) |-> t.fs[i].t])
              [] t.k = "vec" -> Tup([i \in 1..t.n |-> t.t])
FixedLen(ts) == Sum(Tup([i \in 1..Len(ts) |-> SlotSize(ts[i])]))
Frame(ts, lo, hi, table) == [ts |-> ts, table |-> table, lo |-> lo, hi |-> hi, i |-> 1, it |-> lo, last |-> 0, part |-> 0,
                      to |-> 0, vals |-> Tup([i \in 1..Len(ts) |-> << >>]), closing |-> FALSE]
Bytes(lo, hi) == SubSeq(input, lo + 1, hi)
Offset(p) == LENat(Tup([k \in 1..OffsetBytes |-> IF p + k <= Len(input) THEN input[p + k] ELSE 0]))

\* what opening [lo, hi) as a t does: a frame to push, or an answer
Answer(r) == [f |-> << >>, r |-> r]
\* table: the parts were counted from the input, so their number already fits it
Push(ts, lo, hi, table) == [f |-> <<Frame(ts, lo, hi, table)>>, r |-> None]
OpenList(t, lo, hi) ==
    IF lo = hi THEN Answer(Value(<< >>))
    ELSE IF IsFixed(t.t)
    THEN LET sz == FixedSize(t.t)
             n == (hi - lo) \div sz
         IN IF (Has("whole") /\ (hi - lo) % sz # 0) \/ ~WithinLimit(n, t.lim) THEN Answer(Refused)
            ELSE Push(Tup([i \in 1..n |-> t.t]), lo, hi, TRUE)
    ELSE IF Has("space") /\ hi - lo < OffsetBytes THEN Answer(Refused)
    ELSE LET first == IF lo + OffsetBytes <= Len(input) THEN Offset(lo) ELSE OffsetBytes
             n == (first + OffsetBytes - 1) \div OffsetBytes
         IN IF first < OffsetBytes \/ (Has("beyond") /\ first > hi - lo)
               \/ (Has("aligned") /\ first % OffsetBytes # 0) \/ ~WithinLimit(n, t.lim) THEN Answer(Refused)
            ELSE Push(Tup([i \in 1..n |-> t.t]), lo, hi, TRUE)
OpenLeaf(t, lo, hi) == LET d == Deser(t, Bytes(lo, hi)) IN Answer(IF d.ok THEN Value(d.v) ELSE Refused)
Open(t, lo, hi) ==
    CASE t.k = "list" -> OpenList(t, lo, hi)
      [] t.k = "vec" /\ IsFixed(t.t) /\ hi - lo # FixedSize(t) -> Answer(Refused)
      [] Composite(t) /\ t.k # "list" -> Push(Parts(t), lo, hi, FALSE)
      [] OTHER -> OpenLeaf(t, lo, hi)

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Stop == ret' = Refused /\ stack' = << >> /\ UNCHANGED wild
Stray == ret' = Refused /\ stack' = << >> /\ wild' = TRUE
\* the frame f stays open; [lo, hi) is opened as its k-th part
Enter(f, k, lo, hi) ==
    IF ~(f.lo <= lo /\ lo <= hi /\ hi <= f.hi) THEN Stray
    ELSE LET o == Open(f.ts[k], lo, hi)
             g == [f EXCEPT !.to = k]
         IN CASE o.r.s = "bad" -> Stop
              [] o.r.s = "ok" -> stack' = Append(Below, [g EXCEPT !.vals[k] = o.r.v]) /\ ret' = None /\ UNCHANGED wild
              [] OTHER -> stack' = Append(Below, g) \o o.f /\ ret' = None /\ UNCHANGED wild
Keep(f) == stack' = Append(Below, f) /\ ret' = None /\ UNCHANGED wild

Init == /\ type \in Types
        /\ input \in Inputs
        /\ steps = 0
        /\ wild = FALSE
        /\ LET o == Open(SmallTypes[type], 0, Len(input))
           IN stack = o.f /\ ret = o.r

FixedPart(f, t) ==
    LET to == f.it + FixedSize(t)
    IN IF Has("space") /\ to > f.hi THEN Stop
       ELSE Enter([f EXCEPT !.it = to, !.i = @ + 1], f.i, f.it, to)
VariablePart(f) ==
    LET cur == Offset(f.it)
        g == [f EXCEPT !.it = @ + OffsetBytes, !.i = @ + 1, !.last = cur, !.part = f.i]
    IN IF Has("space") /\ f.it + OffsetBytes > f.hi THEN Stop
       ELSE IF f.it + OffsetBytes > f.hi THEN Stray
       ELSE IF Has("beyond") /\ f.lo + cur > f.hi THEN Stop
       ELSE IF f.part = 0 THEN IF ~f.table /\ Has("first") /\ cur # FixedLen(f.ts) THEN Stop ELSE Keep(g)
       ELSE IF Has("ordered") /\ cur < f.last THEN Stop
       ELSE Enter(g, f.part, f.lo + f.last, f.lo + cur)
Close(f) ==
    IF f.part # 0 /\ ~f.closing THEN Enter([f EXCEPT !.closing = TRUE], f.part, f.lo + f.last, f.hi)
    ELSE IF f.part = 0 /\ ~f.table /\ Has("tail") /\ f.it # f.hi THEN Stop
    ELSE IF Below = << >> THEN stack' = << >> /\ ret' = Value(f.vals) /\ UNCHANGED wild
    ELSE LET p == Below[Len(Below)]
         IN /\ stack' = [Below EXCEPT ![Len(Below)] = [p EXCEPT !.vals[p.to] = f.vals]]
            /\ ret' = None /\ UNCHANGED wild
Step == /\ stack # << >>
        /\ steps' = steps + 1
        /\ LET f == Top
           IN IF f.i > Len(f.ts) THEN Close(f)
              ELSE IF IsFixed(f.ts[f.i]) THEN FixedPart(f, f.ts[f.i])
              ELSE VariablePart(f)
        /\ UNCHANGED <<input, type>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* no part is opened and no offset read outside the part around it
Inside ==
    /\ ~wild
    /\ \A k \in 1..Len(stack) : LET f == stack[k] IN f.lo <= f.it /\ f.it <= f.hi /\ f.hi <= Len(input)
    /\ \A k \in 2..Len(stack) : stack[k - 1].lo <= stack[k].lo /\ stack[k].hi <= stack[k - 1].hi
AgreesWithDeser == ret.s # "none" =>
    LET d == Deser(SmallTypes[type], input)
    IN (ret.s = "ok") = d.ok /\ (d.ok => ret.v = d.v)
\* the work: every value opened is a part of the type or costs a byte of input
Linear == steps <= 12 + 6 * Len(input)
Finishes == <>(stack = << >>)
\* the encoding of an accepted value is the input: no second spelling
Canonical == ret.s = "ok" => Ser(SmallTypes[type], ret.v) = input
=============================================================================
