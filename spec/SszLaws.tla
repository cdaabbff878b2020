------------------------------- MODULE SszLaws -------------------------------
(***************************************************************************)
(* What the definitions of Ssz.tla must satisfy, for all values of small   *)
(* types: the three forms of a value (bytes, root, YAML) tell values of a  *)
(* type apart, bytes and YAML are read back, sizes are as declared, a part *)
(* may be replaced by its root, and sequences are joined as their bytes.   *)
(* Form names how the forms are made: "plain" as in Ssz.tla; without the   *)
(* length mixed in ("nomix"), without the delimiting bit ("nodelim"),      *)
(* without offsets ("nooffset"), with leading zeros of hexadecimal text    *)
(* left out ("short"), with small elements packed into chunks as if basic  *)
(* ("packed").                                                             *)
(***************************************************************************)
EXTENDS SszSmall, SszObject
CONSTANTS Chosen, Digits, MaxItems, Form
VARIABLES type, some

RECURSIVE BytesOf(_, _), RootOf(_, _), TextOf(_, _)
BytesOf(t, v) ==
    CASE t.k = "bitlist" /\ Form = "nodelim" -> PackBits(v)
      [] Form = "nooffset" /\ t.k = "cont" -> Join(Tup([i \in 1..Len(v) |-> BytesOf(t.fs[i].t, v[i])]))
      [] Form = "nooffset" /\ t.k \in {"list", "vec"} -> Join(Tup([i \in 1..Len(v) |-> BytesOf(t.t, v[i])]))
      [] t.k = "cont" -> JoinParts(Tup([i \in 1..Len(v) |-> [fixed |-> IsFixed(t.fs[i].t), b |-> BytesOf(t.fs[i].t, v[i])]]))
      [] t.k \in {"list", "vec"} /\ ~IsFixed(t.t) -> JoinParts(Tup([i \in 1..Len(v) |-> [fixed |-> FALSE, b |-> BytesOf(t.t, v[i])]]))
      [] OTHER -> Ser(t, v)
RootOf(t, v) ==
    IF Form = "plain" THEN Htr(t, v)
    ELSE LET s == Shape(t, v)
             c == CASE t.k = "cont" -> Tup([i \in 1..Len(v) |-> RootOf(t.fs[i].t, v[i])])
                    [] t.k = "list" /\ Form = "packed" /\ IsFixed(t.t) -> Pack(Ser(t, v))
                    [] t.k \in {"list", "vec"} /\ ~IsBasic(t.t) /\ Len(v) > 0 -> Tup([i \in 1..Len(v) |-> RootOf(t.t, v[i])])
                    [] OTHER -> s.c
             r == MerkleRoot(c, Max2(s.d, Log2CeilNat(Len(c))))
         IN IF s.mix /\ Form # "nomix" THEN MixIn(r, Len(v)) ELSE r
RECURSIVE NoZeros(_)
NoZeros(b) == IF b # << >> /\ b[Len(b)] = 0 THEN NoZeros(SubSeq(b, 1, Len(b) - 1)) ELSE b
TextOf(t, v) ==
    CASE t.k \in {"bytes", "bitvec", "bitlist"} /\ Form = "short" -> [k |-> "s", s |-> HexText(NoZeros(BytesOf(t, v)))]
      [] t.k = "bitlist" -> [k |-> "s", s |-> HexText(BytesOf(t, v))]
      [] t.k \in {"vec", "list"} -> [k |-> "q", q |-> Tup([i \in 1..Len(v) |-> TextOf(t.t, v[i])])]
      [] t.k = "cont" -> [k |-> "m", f |-> Tup([i \in 1..Len(v) |-> t.fs[i].f]), q |-> Tup([i \in 1..Len(v) |-> TextOf(t.fs[i].t, v[i])])]
      [] OTHER -> Yaml(t, v)

Values(t) == ValuesOf(t, Digits, MaxItems)
T == SmallTypes[type]
Whole == some.all
V == some.v
\* a state for every value, and one for all values of a type together
Init == /\ type \in Chosen
        /\ some \in {[all |-> FALSE, v |-> v] : v \in Values(T)} \cup {[all |-> TRUE, v |-> Zero(T)]}
Next == FALSE /\ UNCHANGED <<type, some>>

Apart(S) == Cardinality(S) = Cardinality(Values(T))
BytesApart == Whole => Apart({BytesOf(T, v) : v \in Values(T)})
RootsApart == Whole => Apart({RootOf(T, v) : v \in Values(T)})
TextsApart == Whole => Apart({TextOf(T, v) : v \in Values(T)})
AsDefined == Form = "plain" => BytesOf(T, V) = Ser(T, V) /\ TextOf(T, V) = Yaml(T, V)
ReadBack == Deser(T, BytesOf(T, V)) = Good(V)
TextReadBack == FromYaml(T, TextOf(T, V)) = TextOk(V)
AValue == IsValue(T, V) /\ IsBytes(BytesOf(T, V)) /\ (IsFixed(T) => Len(BytesOf(T, V)) = FixedSize(T))
\* a part may be given by its root
Summary ==
    CASE T.k = "cont" ->
           RootOf(TCont(Tup([i \in 1..Len(T.fs) |-> Fld(T.fs[i].f, TBytes(32))])), Tup([i \in 1..Len(V) |-> RootOf(T.fs[i].t, V[i])])) = RootOf(T, V)
      [] T.k = "list" /\ ~IsBasic(T.t) -> RootOf(TList(TBytes(32), T.lim), Tup([i \in 1..Len(V) |-> RootOf(T.t, V[i])])) = RootOf(T, V)
      [] T.k = "vec" /\ ~IsBasic(T.t) -> RootOf(TVec(TBytes(32), T.n), Tup([i \in 1..Len(V) |-> RootOf(T.t, V[i])])) = RootOf(T, V)
      [] OTHER -> TRUE
\* lists of elements of fixed size are joined as their bytes; a limit is not seen in the bytes
Joined == T.k = "list" /\ IsFixed(T.t) => \A n \in 0..Len(V) :
    BytesOf(T, SubSeq(V, 1, n)) \o BytesOf(T, SubSeq(V, n + 1, Len(V))) = BytesOf(T, V)
LimitFree == T.k \in {"list", "bitlist"} => BytesOf([T EXCEPT !.lim = NoLimit], V) = BytesOf(T, V)
=============================================================================
