-------------------------------- MODULE Ssz --------------------------------
(***************************************************************************)
(* SimpleSerialize: types, values, encoding, decoding, hash tree roots and *)
(* the YAML form used by the consensus tests.                              *)
(*                                                                         *)
(* A type is a record with field k:                                        *)
(*   uint(n)   n-byte little-endian integer; value: its n bytes            *)
(*   bool      value: 0 or 1                                               *)
(*   bytes(n)  byte vector; value: its n bytes                             *)
(*   bitvec(n), bitlist(lim)   value: sequence of 0/1                      *)
(*   vec(t,n), list(t,lim)     value: sequence of element values           *)
(*   cont(fs)  fs: sequence of [f: name, t: type]; value: sequence         *)
(* A limit is [k |-> "none"], [k |-> "nat", v |-> n], [k |-> "exp",        *)
(* v |-> e] for 2^e or [k |-> "plus", v |-> e, a |-> a] for 2^e + a, with  *)
(* 0 < a < 2^e and e > 30 (TLC integers have 32 bits, the registry limit   *)
(* 41).                                                                    *)
(* OffsetBytes is 4 in SSZ; SszDecoder.tla also explores smaller ones.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, ByteSeq, Merkle, SequencesExt
CONSTANT OffsetBytes

NoLimit == [k |-> "none", v |-> 0]
LimNat(n) == [k |-> "nat", v |-> n]
LimExp(e) == [k |-> "exp", v |-> e]
LimPlus(e, a) == [k |-> "plus", v |-> e, a |-> a]

TUint(n) == [k |-> "uint", n |-> n]
TBool == [k |-> "bool", n |-> 1]
TBytes(n) == [k |-> "bytes", n |-> n]
TBitvec(n) == [k |-> "bitvec", n |-> n]
TBitlist(lim) == [k |-> "bitlist", lim |-> lim]
TVec(t, n) == [k |-> "vec", t |-> t, n |-> n]
TList(t, lim) == [k |-> "list", t |-> t, lim |-> lim]
TCont(fs) == [k |-> "cont", fs |-> fs]
Fld(name, t) == [f |-> name, t |-> t]

WithinLimit(n, lim) == CASE lim.k \in {"none", "plus"} -> TRUE
                         [] lim.k = "nat" -> n <= lim.v
                         [] lim.k = "exp" -> IF lim.v >= 30 THEN TRUE ELSE n <= Pow2(lim.v)

RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
Sum(s) == SumFrom(s, 1)

RECURSIVE IsFixed(_)
IsFixed(t) == CASE t.k \in {"uint", "bool", "bytes", "bitvec"} -> TRUE
                [] t.k \in {"bitlist", "list"} -> FALSE
                [] t.k = "vec" -> IsFixed(t.t)
                [] t.k = "cont" -> \A i \in 1..Len(t.fs) : IsFixed(t.fs[i].t)

RECURSIVE FixedSize(_)
FixedSize(t) == CASE t.k \in {"uint", "bool", "bytes"} -> t.n
                  [] t.k = "bitvec" -> (t.n + 7) \div 8
                  [] t.k = "vec" -> t.n * FixedSize(t.t)
                  [] t.k = "cont" -> Sum(Tup([i \in 1..Len(t.fs) |-> FixedSize(t.fs[i].t)]))

\* bytes a field of type t takes in the fixed part of its parent
SlotSize(t) == IF IsFixed(t) THEN FixedSize(t) ELSE OffsetBytes

\* what the library reports as the encoded size (0: variable)
DeclaredSize(t) == IF IsFixed(t) THEN FixedSize(t) ELSE 0

RECURSIVE Zero(_)
Zero(t) == CASE t.k \in {"uint", "bytes"} -> Zeros(t.n)
             [] t.k = "bool" -> 0
             [] t.k = "bitvec" -> Zeros(t.n)
             [] t.k \in {"bitlist", "list"} -> << >>
             [] t.k = "vec" -> Tup([i \in 1..t.n |-> Zero(t.t)])
             [] t.k = "cont" -> Tup([i \in 1..Len(t.fs) |-> Zero(t.fs[i].t)])

RECURSIVE IsValue(_, _)
IsValue(t, v) ==
    CASE t.k \in {"uint", "bytes"} -> Len(v) = t.n /\ IsBytes(v)
      [] t.k = "bool" -> v \in {0, 1}
      [] t.k = "bitvec" -> Len(v) = t.n /\ \A i \in 1..Len(v) : v[i] \in {0, 1}
      [] t.k = "bitlist" -> WithinLimit(Len(v), t.lim) /\ \A i \in 1..Len(v) : v[i] \in {0, 1}
      [] t.k = "vec" -> Len(v) = t.n /\ \A i \in 1..Len(v) : IsValue(t.t, v[i])
      [] t.k = "list" -> WithinLimit(Len(v), t.lim) /\ \A i \in 1..Len(v) : IsValue(t.t, v[i])
      [] t.k = "cont" -> Len(v) = Len(t.fs) /\ \A i \in 1..Len(v) : IsValue(t.fs[i].t, v[i])

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
BitAt(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0
ByteOfBits(bits, k) ==   \* k-th byte (1-based)
    LET o == 8 * (k - 1)
    IN BitAt(bits, o+1) + 2 * BitAt(bits, o+2) + 4 * BitAt(bits, o+3) + 8 * BitAt(bits, o+4)
       + 16 * BitAt(bits, o+5) + 32 * BitAt(bits, o+6) + 64 * BitAt(bits, o+7) + 128 * BitAt(bits, o+8)
PackBits(bits) == Tup([k \in 1..((Len(bits) + 7) \div 8) |-> ByteOfBits(bits, k)])

\* fields: sequence of [fixed: BOOLEAN, b: bytes]; the offsets follow the data
RECURSIVE Offsets(_, _, _)
Offsets(parts, i, off) ==
    IF i > Len(parts) THEN << >>
    ELSE IF parts[i].fixed THEN <<0>> \o Offsets(parts, i + 1, off)
    ELSE <<off>> \o Offsets(parts, i + 1, off + Len(parts[i].b))
JoinParts(parts) ==
    LET fixedLen == Sum(Tup([i \in 1..Len(parts) |-> IF parts[i].fixed THEN Len(parts[i].b) ELSE OffsetBytes]))
        offs == Offsets(parts, 1, fixedLen)
        head == Tup([i \in 1..Len(parts) |-> IF parts[i].fixed THEN parts[i].b ELSE NatLE(offs[i], OffsetBytes)])
        tail == Tup([i \in 1..Len(parts) |-> IF parts[i].fixed THEN << >> ELSE parts[i].b])
    IN Join(head) \o Join(tail)

RECURSIVE Ser(_, _)
Ser(t, v) ==
    CASE t.k \in {"uint", "bytes"} -> v
      [] t.k = "bool" -> <<v>>
      [] t.k = "bitvec" -> PackBits(v)
      [] t.k = "bitlist" -> PackBits(v \o <<1>>)
      [] t.k \in {"vec", "list"} ->
           IF IsFixed(t.t) THEN Join(Tup([i \in 1..Len(v) |-> Ser(t.t, v[i])]))
           ELSE JoinParts(Tup([i \in 1..Len(v) |-> [fixed |-> FALSE, b |-> Ser(t.t, v[i])]]))
      [] t.k = "cont" ->
           JoinParts(Tup([i \in 1..Len(v) |-> [fixed |-> IsFixed(t.fs[i].t), b |-> Ser(t.fs[i].t, v[i])]]))

(***************************************************************************)
(* Decoding: [ok |-> BOOLEAN, v |-> value]                                 *)
(***************************************************************************)
Bad == [ok |-> FALSE, v |-> << >>]
Good(v) == [ok |-> TRUE, v |-> v]
All(rs) == IF \A i \in 1..Len(rs) : rs[i].ok
           THEN Good(Tup([i \in 1..Len(rs) |-> rs[i].v])) ELSE Bad
Slice(b, from, to) == SubSeq(b, from + 1, to)   \* [from, to), 0-based

OffsetAt(b, p) == LENat(SubSeq(b, p + 1, p + OffsetBytes))

UnpackBits(b, n) == Tup([i \in 1..n |-> (b[(i - 1) \div 8 + 1] \div Pow2((i - 1) % 8)) % 2])

\* sections of b given by a sequence of offsets: the i-th ends where the next begins
Monotone(offs, len) ==
    /\ \A i \in 1..Len(offs) : offs[i] <= len
    /\ \A i \in 1..(Len(offs) - 1) : offs[i] <= offs[i + 1]
Section(b, offs, i) == Slice(b, offs[i], IF i = Len(offs) THEN Len(b) ELSE offs[i + 1])

RECURSIVE Deser(_, _)
DeserFixedSeq(t, b, n) ==
    LET sz == FixedSize(t)
    IN All(Tup([i \in 1..n |-> Deser(t, Slice(b, (i - 1) * sz, i * sz))]))
DeserVarSeq(t, b, n, offs) ==
    IF offs[1] # n * OffsetBytes \/ ~Monotone(offs, Len(b)) THEN Bad
    ELSE All(Tup([i \in 1..n |-> Deser(t, Section(b, offs, i))]))
FieldPos(fs, i) == Sum(Tup([j \in 1..(i - 1) |-> SlotSize(fs[j].t)]))   \* 0-based
DeserCont(fs, b) ==
    LET n == Len(fs)
        fixedLen == Sum(Tup([i \in 1..n |-> SlotSize(fs[i].t)]))
        pos == Tup([i \in 1..n |-> FieldPos(fs, i)])
        var == SelectSeq(Tup([i \in 1..n |-> i]), LAMBDA i : ~IsFixed(fs[i].t))
        rank(i) == CHOOSE r \in 1..Len(var) : var[r] = i
    IN IF Len(b) < fixedLen THEN Bad
       ELSE LET offs == Tup([r \in 1..Len(var) |-> OffsetAt(b, pos[var[r]])])
            IN IF (Len(var) = 0 /\ Len(b) # fixedLen)
                  \/ (Len(var) > 0 /\ (offs[1] # fixedLen \/ ~Monotone(offs, Len(b))))
               THEN Bad
               ELSE All(Tup([i \in 1..n |->
                       IF IsFixed(fs[i].t)
                       THEN Deser(fs[i].t, Slice(b, pos[i], pos[i] + FixedSize(fs[i].t)))
                       ELSE Deser(fs[i].t, Section(b, offs, rank(i)))]))
Deser(t, b) ==
    CASE t.k \in {"uint", "bytes"} -> IF Len(b) = t.n THEN Good(b) ELSE Bad
      [] t.k = "bool" -> IF Len(b) = 1 /\ b[1] \in {0, 1} THEN Good(b[1]) ELSE Bad
      [] t.k = "bitvec" ->
           IF Len(b) # FixedSize(t) THEN Bad
           ELSE IF t.n % 8 # 0 /\ b[Len(b)] >= Pow2(t.n % 8) THEN Bad
           ELSE Good(UnpackBits(b, t.n))
      [] t.k = "bitlist" ->
           IF Len(b) = 0 \/ b[Len(b)] = 0 THEN Bad
           ELSE LET n == 8 * (Len(b) - 1) + BitLen8(b[Len(b)]) - 1
                IN IF WithinLimit(n, t.lim) THEN Good(UnpackBits(b, n)) ELSE Bad
      [] t.k = "vec" ->
           IF IsFixed(t.t)
           THEN IF Len(b) = FixedSize(t) THEN DeserFixedSeq(t.t, b, t.n) ELSE Bad
           ELSE IF Len(b) < t.n * OffsetBytes THEN Bad
                ELSE DeserVarSeq(t.t, b, t.n, Tup([i \in 1..t.n |-> OffsetAt(b, (i - 1) * OffsetBytes)]))
      [] t.k = "list" ->
           IF Len(b) = 0 THEN Good(<< >>)
           ELSE IF IsFixed(t.t)
           THEN LET sz == FixedSize(t.t)
                IN IF Len(b) % sz = 0 /\ WithinLimit(Len(b) \div sz, t.lim)
                   THEN DeserFixedSeq(t.t, b, Len(b) \div sz) ELSE Bad
           ELSE IF Len(b) < OffsetBytes THEN Bad
                ELSE LET first == OffsetAt(b, 0)
                         n == first \div OffsetBytes
                     IN IF first = 0 \/ first % OffsetBytes # 0 \/ first > Len(b)
                           \/ ~WithinLimit(n, t.lim) THEN Bad
                        ELSE DeserVarSeq(t.t, b, n, Tup([i \in 1..n |-> OffsetAt(b, (i - 1) * OffsetBytes)]))
      [] t.k = "cont" -> DeserCont(t.fs, b)

(***************************************************************************)
(* Hash tree root                                                          *)
(***************************************************************************)
IsBasic(t) == t.k \in {"uint", "bool"}

Max2(a, b) == IF a > b THEN a ELSE b
\* depth of a tree of at least `count` chunks limited to ceil(lim * num / den) chunks
LimitDepth(lim, num, den, count) ==
    CASE lim.k = "none" -> Log2CeilNat(count)
      [] lim.k = "nat" -> Log2CeilNat((lim.v * num + den - 1) \div den)
      [] lim.k = "exp" -> LET e == lim.v + Log2CeilNat(num) IN
                          IF e <= Log2CeilNat(den) THEN 0 ELSE e - Log2CeilNat(den)
      [] lim.k = "plus" -> lim.v + Log2CeilNat(num) - Log2CeilNat(den) + 1  \* num and den are powers of two, the latter below 2^e

\* the chunks of a value, the depth of their tree and the length mixed in (or -1)
RECURSIVE Htr(_, _)
\* the roots of the elements; in long sequences that of the first element is found once
ElementRoots(t, v) ==
    IF Len(v) < 64 THEN Tup([i \in 1..Len(v) |-> Htr(t, v[i])])
    ELSE Force(LAMBDA x : Force(LAMBDA r : Tup([i \in 1..Len(v) |-> IF v[i] = x THEN r ELSE Htr(t, v[i])]), Htr(t, x)), v[1])
Shape(t, v) ==
    CASE t.k \in {"uint", "bytes", "bool", "bitvec"} ->
           LET c == Pack(Ser(t, v)) IN [c |-> c, d |-> Log2CeilNat(Len(c)), mix |-> FALSE]
      [] t.k = "bitlist" ->
           LET c == Pack(PackBits(v)) IN [c |-> c, d |-> LimitDepth(t.lim, 1, 256, Len(c)), mix |-> TRUE]
      [] t.k = "vec" ->
           LET c == IF IsBasic(t.t) THEN Pack(Ser(t, v)) ELSE ElementRoots(t.t, v)
           IN [c |-> c, d |-> Log2CeilNat(Len(c)), mix |-> FALSE]
      [] t.k = "list" ->
           IF IsBasic(t.t)
           THEN LET c == Pack(Ser(t, v))
                IN [c |-> c, d |-> LimitDepth(t.lim, t.t.n, 32, Len(c)), mix |-> TRUE]
           ELSE LET c == IF Len(v) = 0 THEN <<ZeroChunk>> ELSE ElementRoots(t.t, v)
                IN [c |-> c, d |-> LimitDepth(t.lim, 1, 1, Len(c)), mix |-> TRUE]
      [] t.k = "cont" ->
           LET c == Tup([i \in 1..Len(v) |-> Htr(t.fs[i].t, v[i])])
           IN [c |-> c, d |-> Log2CeilNat(Len(c)), mix |-> FALSE]
Htr(t, v) == LET s == Shape(t, v)
                 r == MerkleRoot(s.c, s.d)
             IN IF s.mix THEN MixIn(r, Len(v)) ELSE r

(***************************************************************************)
(* YAML: a node is [k |-> "s", s |-> text], [k |-> "q", q |-> nodes] or    *)
(* [k |-> "m", f |-> names, q |-> nodes]                                   *)
(***************************************************************************)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexFrom(_, _)
HexFrom(b, i) == IF i > Len(b) THEN ""
                 ELSE HexDigit[(b[i] \div 16) + 1] \o HexDigit[(b[i] % 16) + 1] \o HexFrom(b, i + 1)
HexText(b) == "0x" \o HexFrom(b, 1)
RECURSIVE DecFrom(_, _)
DecFrom(d, i) == IF i > Len(d) THEN "" ELSE HexDigit[d[i] + 1] \o DecFrom(d, i + 1)
DecText(b) == DecFrom(DecDigits(b), 1)

RECURSIVE Yaml(_, _)
Yaml(t, v) ==
    CASE t.k = "uint" -> [k |-> "s", s |-> DecText(v)]
      [] t.k = "bool" -> [k |-> "s", s |-> IF v = 1 THEN "true" ELSE "false"]
      [] t.k \in {"bytes", "bitvec", "bitlist"} -> [k |-> "s", s |-> HexText(Ser(t, v))]
      [] t.k \in {"vec", "list"} -> [k |-> "q", q |-> Tup([i \in 1..Len(v) |-> Yaml(t.t, v[i])])]
      [] t.k = "cont" -> [k |-> "m", f |-> Tup([i \in 1..Len(v) |-> t.fs[i].f]),
                          q |-> Tup([i \in 1..Len(v) |-> Yaml(t.fs[i].t, v[i])])]

\* does the recorded node y stand for v? maps may list their keys in any order
RECURSIVE YamlIs(_, _, _)
YamlIs(t, v, y) ==
    CASE t.k \in {"uint", "bool", "bytes", "bitvec", "bitlist"} -> y.k = "s" /\ y.s = Yaml(t, v).s
      [] t.k \in {"vec", "list"} ->
           \/ y.k = "q" /\ Len(y.q) = Len(v) /\ \A i \in 1..Len(v) : YamlIs(t.t, v[i], y.q[i])
      [] t.k = "cont" ->
           /\ y.k = "m" /\ Len(y.f) = Len(t.fs)
           /\ \A i \in 1..Len(t.fs) : \E j \in 1..Len(y.f) :
                  y.f[j] = t.fs[i].f /\ YamlIs(t.fs[i].t, v[i], y.q[j])
=============================================================================
