------------------------------ MODULE SszSmall ------------------------------
(***************************************************************************)
(* Types and values few enough for TLC to visit all of them.               *)
(***************************************************************************)
EXTENDS Ssz, TLC

U1 == TUint(1)
SmallTypes ==
    << TCont(<<Fld("a", U1), Fld("b", TList(U1, LimNat(3))), Fld("c", TBitlist(LimNat(9)))>>),
       TCont(<<Fld("a", TList(TBytes(2), NoLimit)), Fld("b", TBool), Fld("c", TCont(<<Fld("d", TBitlist(LimNat(2)))>>))>>),
       TList(TList(U1, LimNat(2)), LimNat(3)),
       TList(TCont(<<Fld("a", U1), Fld("b", TBitlist(NoLimit))>>), NoLimit),
       TCont(<<Fld("a", TBitvec(3)), Fld("b", TVec(U1, 2))>>),
       TCont(<<Fld("a", TList(TList(TList(U1, NoLimit), NoLimit), NoLimit))>>),
       TList(TBytes(2), NoLimit),
       TBitlist(LimNat(300)),
       TVec(TCont(<<Fld("a", TList(U1, NoLimit)), Fld("b", U1)>>), 2),
       TList(TBool, LimNat(4)) >>

Seqs(S, n) == UNION {{Tup(f) : f \in [1..k -> S]} : k \in 0..n}
Within(S, lim) == {s \in S : WithinLimit(Len(s), lim)}
RECURSIVE Rows(_)
Rows(sets) == IF sets = << >> THEN {<< >>}
              ELSE {<<x>> \o r : x \in Head(sets), r \in Rows(Tail(sets))}
\* all values made of the given bytes, with at most n elements or bits in a list
RECURSIVE ValuesOf(_, _, _)
ValuesOf(t, bytes, n) ==
    CASE t.k \in {"uint", "bytes"} -> {Tup(f) : f \in [1..t.n -> bytes]}
      [] t.k = "bool" -> {0, 1}
      [] t.k = "bitvec" -> {Tup(f) : f \in [1..t.n -> {0, 1}]}
      [] t.k = "bitlist" -> Within(Seqs({0, 1}, n), t.lim)
      [] t.k = "list" -> Within(Seqs(ValuesOf(t.t, bytes, n), n), t.lim)
      [] t.k = "vec" -> {Tup(f) : f \in [1..t.n -> ValuesOf(t.t, bytes, n)]}
      [] t.k = "cont" -> Rows(Tup([i \in 1..Len(t.fs) |-> ValuesOf(t.fs[i].t, bytes, n)]))
=============================================================================
