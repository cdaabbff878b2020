------------------------------ MODULE SszObject ------------------------------
(***************************************************************************)
(* A handful of SSZ objects of one type and everything a program can do    *)
(* with them: construct, load bytes or YAML, copy, assign, move, observe.  *)
(* An object is its abstract value: what it was last given successfully.   *)
(* After a refused load nothing is promised until the next good one.       *)
(* Each operation is a pure function on objects, used by the state machine *)
(* in SszHistories.tla and by the trace specification in SszTrace.tla.     *)
(***************************************************************************)
EXTENDS Phase0, TLC

\* st: "none" (not constructed), "known" (stands for v), "any" (nothing promised)
NoObj == [st |-> "none", v |-> << >>, src |-> "", lim |-> 0 - 1]
Fresh(t) == [st |-> "known", v |-> Zero(t), src |-> "d", lim |-> 0 - 1]
Holding(o, v, src) == [o EXCEPT !.st = "known", !.v = v, !.src = src]
Spoilt(o) == [o EXCEPT !.st = "any", !.v = << >>]
CopyOf(o) == [o EXCEPT !.src = "c"]
WithLimit(o, m) == [o EXCEPT !.lim = m]

\* the type of an object whose limit was changed to lim (0: none; -2 - e - 100 a: 2^e + a, and 2^64 - 1 for e = 64)
TypeWith(t, o) == IF o.lim = 0 - 1 THEN t
                  ELSE [t EXCEPT !.lim = IF o.lim = 0 THEN NoLimit ELSE IF o.lim > 0 THEN LimNat(o.lim)
                                                 ELSE LET e == ((0 - 2) - o.lim) % 100
                                                          a == ((0 - 2) - o.lim) \div 100
                                                      IN IF a = 0 THEN LimExp(e) ELSE LimPlus(e, a)]

RECURSIVE Unlimited(_)
Unlimited(t) ==
    CASE t.k = "bitlist" -> TBitlist(NoLimit)
      [] t.k = "list" -> TList(Unlimited(t.t), NoLimit)
      [] t.k = "vec" -> TVec(Unlimited(t.t), t.n)
      [] t.k = "cont" -> TCont(Tup([i \in 1..Len(t.fs) |-> Fld(t.fs[i].f, Unlimited(t.fs[i].t))]))
      [] OTHER -> t

(***************************************************************************)
(* Parts: what an accessor, a public field or an iterator shows. A path is *)
(* a sequence of field or element numbers.                                 *)
(***************************************************************************)
ReadOnly == {TBeaconBlockBody, TBeaconBlock, TBeaconState}   \* shown by accessors only
Opaque == {TValidator}                                       \* shows no field
RECURSIVE PartType(_, _), PartVal(_, _), WithPart(_, _, _), PathText(_, _), Reaches(_, _, _), Writable(_, _)
PartType(t, p) == IF p = << >> THEN t
                  ELSE PartType(IF t.k = "cont" THEN t.fs[p[1]].t ELSE t.t, Tail(p))
PartVal(v, p) == IF p = << >> THEN v ELSE PartVal(v[p[1]], Tail(p))
WithPart(v, p, x) == IF p = << >> THEN x ELSE [v EXCEPT ![p[1]] = WithPart(@, Tail(p), x)]
Reaches(t, v, p) ==
    \/ p = << >>
    \/ /\ t.k \in {"cont", "list", "vec"} /\ p[1] \in 1..Len(v) /\ t \notin Opaque
       /\ Reaches(PartType(t, <<p[1]>>), v[p[1]], Tail(p))
Writable(t, p) == \/ p = << >>
                  \/ t \notin ReadOnly \cup Opaque /\ Writable(PartType(t, <<p[1]>>), Tail(p))
\* how the harness names the path; elements are numbered from 0 there
StepText(t, i) == IF t.k = "cont" THEN t.fs[i].f ELSE ToString(i - 1)
PathText(t, p) == IF p = << >> THEN "."
                  ELSE StepText(t, p[1]) \o (IF Len(p) = 1 THEN "" ELSE "/" \o PathText(PartType(t, <<p[1]>>), Tail(p)))
RECURSIVE BitText(_, _)
BitText(v, i) == IF i > Len(v) THEN "" ELSE ToString(v[i]) \o BitText(v, i + 1)

(***************************************************************************)
(* A damaged encoding: b resized to n bytes (zero-filled), then edited.    *)
(***************************************************************************)
RECURSIVE Edit(_, _, _)
Edit(b, ed, i) == IF i > Len(ed) THEN b
                  ELSE Edit([b EXCEPT ![ed[i][1]] = ed[i][2]], ed, i + 1)
Patch(b, ed, n) == Edit(IF n <= Len(b) THEN SubSeq(b, 1, n) ELSE PadTo(b, n), ed, 1)

(***************************************************************************)
(* Text: what a YAML node denotes.                                         *)
(* s = "ok": the value v; "bad": must be refused; "any": not specified.    *)
(***************************************************************************)
TextBad == [s |-> "bad", v |-> << >>]
TextAny == [s |-> "any", v |-> << >>]
TextOk(v) == [s |-> "ok", v |-> v]

DigitOf == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
              CHOOSE d \in 0..9 : HexDigit[d + 1] = c]
NibbleOf == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f",
                    "A","B","C","D","E","F"} |->
              CASE c = "A" -> 10 [] c = "B" -> 11 [] c = "C" -> 12 [] c = "D" -> 13
                [] c = "E" -> 14 [] c = "F" -> 15
                [] OTHER -> (CHOOSE d \in 0..15 : HexDigit[d + 1] = c)]
CharAt(s, i) == SubSeq(s, i, i)
IsHexAt(s, i) == CharAt(s, i) \in DOMAIN NibbleOf
AllHexFrom(s, k) == \A i \in k..Len(s) : IsHexAt(s, i)
Prefixed(s) == Len(s) >= 2 /\ SubSeq(s, 1, 2) = "0x"
\* bytes spelt by an even number of hex digits after the prefix
HexBytes(s) == Tup([i \in 1..((Len(s) - 2) \div 2) |->
                    16 * NibbleOf[CharAt(s, 2*i + 1)] + NibbleOf[CharAt(s, 2*i + 2)]])

\* a byte string of n bytes: short text leaves the rest zero
BytesText(n, s) ==
    IF ~Prefixed(s) \/ Len(s) > 2 * n + 2 \/ ~AllHexFrom(s, 3) THEN TextBad
    ELSE IF Len(s) % 2 = 1 THEN TextAny
    ELSE TextOk(PadTo(HexBytes(s), n))
\* a bitfield
BitsText(t, s) ==
    IF ~Prefixed(s) \/ ~AllHexFrom(s, 3) \/ Len(s) % 2 = 1 THEN TextBad
    ELSE LET d == Deser(t, HexBytes(s)) IN IF d.ok THEN TextOk(d.v) ELSE TextBad

RECURSIVE DecBytes(_, _, _)
DecBytes(s, i, acc) ==   \* 9 bytes, little-endian
    IF i > Len(s) THEN acc
    ELSE DecBytes(s, i + 1,
           SubSeq(AddLE(SubSeq(MulLE(acc, <<10>>), 1, 9), PadTo(<<DigitOf[CharAt(s, i)]>>, 9)), 1, 9))
UintText(n, s) ==
    IF Len(s) = 0 THEN TextBad
    ELSE IF \A i \in 1..Len(s) : CharAt(s, i) \in DOMAIN DigitOf
    THEN IF (Len(s) > 1 /\ CharAt(s, 1) = "0") \/ Len(s) > 20 THEN TextAny
         ELSE LET b == DecBytes(s, 1, Zeros(9))
              IN IF \E i \in (n + 1)..9 : b[i] # 0 THEN TextBad ELSE TextOk(SubSeq(b, 1, n))
    ELSE IF CharAt(s, 1) \notin DOMAIN DigitOf \cup {"+", "-", " "} THEN TextBad
    ELSE TextAny
BoolText(s) == CASE s = "true" -> TextOk(1) [] s = "false" -> TextOk(0) [] OTHER -> TextAny

AllText(rs) ==
    IF \E i \in 1..Len(rs) : rs[i].s = "bad" THEN TextBad
    ELSE IF \E i \in 1..Len(rs) : rs[i].s = "any" THEN TextAny
    ELSE TextOk(Tup([i \in 1..Len(rs) |-> rs[i].v]))

KeyIndex(y, f) == { j \in 1..Len(y.f) : y.f[j] = f }
RECURSIVE FromYaml(_, _)
FieldFromYaml(fld, y) == LET js == KeyIndex(y, fld.f)
                         IN IF js = {} THEN TextBad
                            ELSE FromYaml(fld.t, y.q[CHOOSE j \in js : \A k \in js : j <= k])
FromYaml(t, y) ==
    CASE t.k \in {"vec", "list"} ->
           IF y.k # "q" THEN TextBad
           ELSE IF (t.k = "vec" /\ Len(y.q) # t.n) \/ (t.k = "list" /\ ~WithinLimit(Len(y.q), t.lim)) THEN TextBad
           ELSE AllText(Tup([i \in 1..Len(y.q) |-> FromYaml(t.t, y.q[i])]))
      [] t.k = "cont" ->
           IF y.k # "m" THEN TextBad
           ELSE AllText(Tup([i \in 1..Len(t.fs) |-> FieldFromYaml(t.fs[i], y)]))
      [] OTHER ->
           IF y.k # "s" THEN TextBad
           ELSE CASE t.k = "uint" -> UintText(t.n, y.s)
                  [] t.k = "bool" -> BoolText(y.s)
                  [] t.k = "bytes" -> BytesText(t.n, y.s)
                  [] OTHER -> BitsText(t, y.s)

(***************************************************************************)
(* Consensus predicates over values                                        *)
(***************************************************************************)
FAR_FUTURE_EPOCH == Tup([i \in 1..8 |-> 255])
MAX_EFFECTIVE_BALANCE == <<0, 64, 89, 115, 7, 0, 0, 0>>   \* 32 * 10^9 Gwei

FieldIx(t, name) == CHOOSE i \in 1..Len(t.fs) : t.fs[i].f = name
Get(t, v, name) == v[FieldIx(t, name)]

IsActive(v, e) == /\ LeLE(Get(TValidator, v, "activation_epoch"), e)
                  /\ LtLE(e, Get(TValidator, v, "exit_epoch"))
IsSlashableValidator(v, e) ==
    /\ Get(TValidator, v, "slashed") = 0
    /\ LeLE(Get(TValidator, v, "activation_epoch"), e)
    /\ LtLE(e, Get(TValidator, v, "withdrawable_epoch"))
IsEligible(v) == /\ Get(TValidator, v, "activation_eligibility_epoch") = FAR_FUTURE_EPOCH
                 /\ Get(TValidator, v, "effective_balance") = MAX_EFFECTIVE_BALANCE

SourceEpoch(a) == Get(TAttestationData, a, "source")[1]
TargetEpoch(a) == Get(TAttestationData, a, "target")[1]
DoubleVote(a, b) == a # b /\ TargetEpoch(a) = TargetEpoch(b)
SurroundVote(a, b) == LtLE(SourceEpoch(a), SourceEpoch(b)) /\ LtLE(TargetEpoch(b), TargetEpoch(a))
SlashableVotes(a, b) == DoubleVote(a, b) \/ SurroundVote(a, b)

StrictlyAscending(s) == \A i \in 1..(Len(s) - 1) : LtLE(s[i], s[i + 1])
ValidIndexed(v) == LET ix == Get(TIndexedAttestation, v, "attesting_indices")
                   IN Len(ix) > 0 /\ StrictlyAscending(ix)

\* a value that needs more chunks than its limit leaves room for has no root
HasRoot(t, v) ==
    LET s == Shape(t, v)
    IN IF t.k = "bitlist" \/ (t.k = "list" /\ IsBasic(t.t))
       THEN t.lim.k \in {"none", "plus"} \/ s.d >= 30 \/
            (t.lim.k = "exp" /\ Len(s.c) <= Pow2(s.d)) \/
            (t.lim.k = "nat" /\ Len(s.c) <= (IF t.k = "bitlist" THEN (t.lim.v + 255) \div 256
                                              ELSE (t.lim.v * t.t.n + 31) \div 32))
       ELSE IF t.k = "list" THEN WithinLimit(Len(s.c), t.lim)
       ELSE TRUE

(***************************************************************************)
(* Values and encodings too large to spell out. A description of a         *)
(* container says of some of its fields what they hold; the rest is        *)
(* default. It is a sequence of [p, b, n, m, y]: field p is encoded as b,  *)
(* or is n elements encoded as b each, the m-th of them (m > 0) as y.      *)
(* The encoding is given as runs of repeated bytes.                        *)
(***************************************************************************)
Run(b, n) == [b |-> b, n |-> n]
RunsLen(rs) == Sum(Tup([i \in 1..Len(rs) |-> rs[i].n * Len(rs[i].b)]))
Elements(t) == t.k \in {"vec", "list"}
PartRuns(t, f) ==
    IF ~Elements(t) THEN << Run(f.b, 1) >>
    ELSE IF f.n = 0 THEN << >>
    ELSE IF ~IsFixed(t.t)
    THEN << Run(Join(Tup([i \in 1..f.n |-> NatLE(f.n * OffsetBytes + (i - 1) * Len(f.b), OffsetBytes)])), 1), Run(f.b, f.n) >>
    ELSE IF f.m = 0 THEN << Run(f.b, f.n) >>
    ELSE << Run(f.b, f.m - 1), Run(f.y, 1), Run(f.b, f.n - f.m) >>
Told(d, i) == \E k \in 1..Len(d) : d[k].p = i
Of(d, i) == d[CHOOSE k \in 1..Len(d) : d[k].p = i]
FieldRuns(t, d, i) == IF Told(d, i) THEN PartRuns(t.fs[i].t, Of(d, i))
                      ELSE IF IsFixed(t.fs[i].t) THEN << Run(<<0>>, FixedSize(t.fs[i].t)) >>
                      ELSE LET b == Ser(t.fs[i].t, Zero(t.fs[i].t)) IN IF b = << >> THEN << >> ELSE << Run(b, 1) >>
RECURSIVE HeadRuns(_, _, _, _, _)   \* up: the field whose offset is one too large
HeadRuns(t, d, up, i, off) ==
    IF i > Len(t.fs) THEN << >>
    ELSE IF IsFixed(t.fs[i].t) THEN FieldRuns(t, d, i) \o HeadRuns(t, d, up, i + 1, off)
    ELSE << Run(NatLE(IF i = up THEN off + 1 ELSE off, OffsetBytes), 1) >> \o HeadRuns(t, d, up, i + 1, off + RunsLen(FieldRuns(t, d, i)))
RECURSIVE TailRuns(_, _, _)
TailRuns(t, d, i) ==
    IF i > Len(t.fs) THEN << >>
    ELSE (IF IsFixed(t.fs[i].t) THEN << >> ELSE FieldRuns(t, d, i)) \o TailRuns(t, d, i + 1)
\* harm: 0 none, -1 the last byte missing, -2 a zero byte too many, otherwise the offset of that field
Shorten(rs) == LET l == rs[Len(rs)] IN SubSeq(rs, 1, Len(rs) - 1) \o << Run(l.b, l.n - 1), Run(SubSeq(l.b, 1, Len(l.b) - 1), 1) >>
Useful(rs) == SelectSeq(rs, LAMBDA r : r.n > 0 /\ r.b # << >>)
DescribedRuns(t, d, harm) ==
    LET rs == IF t.k # "cont" THEN Useful(PartRuns(t, d[1]))
              ELSE Useful(HeadRuns(t, d, harm, 1, Sum(Tup([i \in 1..Len(t.fs) |-> SlotSize(t.fs[i].t)]))) \o TailRuns(t, d, 1))
    IN Useful(IF harm = -1 THEN Shorten(rs) ELSE IF harm = -2 THEN rs \o << Run(<<0>>, 1) >> ELSE rs)
\* what harm always breaks the encoding
Even(t) == t.k = "list" /\ IsFixed(t.t) /\ FixedSize(t.t) > 1
Harms(t, d) ==
    {-2} \cup (IF \A i \in 1..Len(t.fs) : IsFixed(t.fs[i].t) \/ Even(t.fs[i].t) \/ FieldRuns(t, d, i) = << >> THEN {-1} ELSE {})
         \cup { i \in 2..Len(t.fs) : /\ ~IsFixed(t.fs[i].t)
                                     /\ LET k == Max({0} \cup { j \in 1..(i - 1) : ~IsFixed(t.fs[j].t) }) IN k > 0 /\ Even(t.fs[k].t) }
Filled(n, m, x, y) == Tup([j \in 1..n |-> IF j = m THEN y ELSE x])
DescribedPart(t, f) ==
    IF ~Elements(t) THEN Deser(t, f.b).v
    ELSE IF f.n = 0 THEN << >>
    ELSE Force(LAMBDA x : Force(LAMBDA y : Filled(f.n, f.m, x, y), IF f.m = 0 THEN << >> ELSE Deser(t.t, f.y).v), Deser(t.t, f.b).v)
Described(t, d) ==
    IF t.k # "cont" THEN DescribedPart(t, d[1])
    ELSE Tup([i \in 1..Len(t.fs) |-> IF Told(d, i) THEN DescribedPart(t.fs[i].t, Of(d, i)) ELSE Zero(t.fs[i].t)])
\* its YAML; [k |-> "r", n, m, x, y] is a sequence of n nodes x but for the m-th (m > 0), y
PartYaml(t, f) ==
    IF ~Elements(t) THEN Yaml(t, Deser(t, f.b).v)
    ELSE IF f.n = 0 THEN [k |-> "q", q |-> << >>]
    ELSE [k |-> "r", n |-> f.n, m |-> f.m, x |-> Yaml(t.t, Deser(t.t, f.b).v), y |-> IF f.m = 0 THEN << >> ELSE Yaml(t.t, Deser(t.t, f.y).v)]
DefaultYaml(t) == IF t.k # "vec" THEN Yaml(t, Zero(t)) ELSE [k |-> "r", n |-> t.n, m |-> 0, x |-> Yaml(t.t, Zero(t.t)), y |-> << >>]
DescribedYaml(t, d) ==
    IF t.k # "cont" THEN PartYaml(t, d[1]) ELSE
    [k |-> "m", f |-> Tup([i \in 1..Len(t.fs) |-> t.fs[i].f]),
     q |-> Tup([i \in 1..Len(t.fs) |-> IF Told(d, i) THEN PartYaml(t.fs[i].t, Of(d, i)) ELSE DefaultYaml(t.fs[i].t)])]
DescribedFits(t, d) ==
    IF t.k # "cont" THEN t.k = "list" => WithinLimit(d[1].n, t.lim)
    ELSE \A k \in 1..Len(d) : t.fs[d[k].p].t.k = "list" => WithinLimit(d[k].n, t.fs[d[k].p].t.lim)
=============================================================================
