----------------------------- MODULE SszScenarios -----------------------------
(***************************************************************************)
(* Generates the histories that are replayed into the library. A session   *)
(* works on objects of one type; its events are the operations of          *)
(* SszTrace.tla without outcomes. Plan selects what the sessions probe.    *)
(***************************************************************************)
EXTENDS SszGen, SszObject, Json, IOUtils, FiniteSetsExt
CONSTANTS Plan, Scale, Names   \* Scale: how many values; Names: types to use ({} = all)

Sess(name, bases, ev) == [t |-> name, bases |-> bases, ev |-> ev]

(* -- operations -- *)
New(o) == [op |-> "new", o |-> o]
Load(o, b) == [op |-> "load", o |-> o, b |-> b]
PatchOp(o, k, ed, n) == [op |-> "patch", o |-> o, k |-> k, ed |-> ed, n |-> n]
\* form 0: node built by hand; 1: parsed from text
Yload(o, t, v, form) == [op |-> "yload", o |-> o, b |-> Ser(t, v), y |-> Yaml(t, v), form |-> form]
Yany(o, y, form) == [op |-> "yany", o |-> o, y |-> y, form |-> form]
Obs(o, w) == [op |-> "obs", o |-> o, w |-> w]
Eq(a, b) == [op |-> "eq", a |-> a, b |-> b]
Op2(op, a, b) == [op |-> op, a |-> a, b |-> b]
Yrt(a, b, form) == [op |-> "yrt", a |-> a, b |-> b, form |-> form]
Lim(o, m) == [op |-> "lim", o |-> o, m |-> m]
Mark == [op |-> "mark"]

\* F applied to the value of x and its encoding
WithValue(F(_, _), t, x) == Force(LAMBDA v : Force(LAMBDA b : F(v, b), Ser(t, v)), x)

(* -- values -- *)
IsState(name) == name = "BeaconState"
SizeOf(i) == CASE i % 4 = 0 -> 1 [] i % 4 = 1 -> 3 [] i % 4 = 2 -> 7 [] OTHER -> 14
ValueFor(t, i) ==
    CASE i = 1 -> SizedVal(t, 1)
      [] i = 2 -> RandVal(t, 2)
      [] i = 3 -> FullVal(t, RandomElement({1, 2, 9}))
      [] i % 4 = 0 -> CoinVal(t, 3)
      [] OTHER -> RandVal(t, SizeOf(i + RandomElement(0..3)))
Count(name) == IF IsState(name) THEN Max({1, Scale \div 3}) ELSE Scale

NameSeq == Tup([i \in 1..Len(Types) |-> Types[i].name])
Selected == SelectSeq(NameSeq, LAMBDA n : Names = {} \/ n \in Names)
\* one session per selected type and i in 1..n
PerType(Make(_, _, _), k) ==
    FlattenSeq(Tup([j \in 1..Len(Selected) |->
        LET name == Selected[j] IN
        Tup([i \in 1..(k * Count(name)) |-> Make(name, TypeOf[name], i)])]))

\* one session per selected type
Once(Make(_, _, _)) == Tup([j \in 1..Len(Selected) |-> Make(Selected[j], TypeOf[Selected[j]], 1)])

(***************************************************************************)
(* encode / root / yaml: a value given as bytes and as YAML, observed      *)
(***************************************************************************)
ObserveSession(w, name, t, i) ==
    LET v == ValueFor(t, i)
    IN Sess(name, << >>,
         << New(1), Yload(1, t, v, i % 2), Obs(1, w), New(2), Load(2, Ser(t, v)), Obs(2, w) >>)

LenSweep(t) ==
    IF t.k = "bitlist" THEN {0, 1, 7, 8, 9, 255, 256, 257, 511, 512, 513, 768, 769}
    ELSE IF IsBasic(t.t) THEN {0, 1, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65}
    ELSE {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33}
SweepSession(name, t, n) ==
    LET v == IF t.k = "bitlist" THEN RandBits(n) ELSE Tup([i \in 1..n |-> RandVal(t.t, 2)])
    IN Sess(name, << >>, << New(1), Load(1, Ser(t, v)), Obs(1, "srytz") >>)
SweepLens(t) == { n \in LenSweep(t) : WithinLimit(n, t.lim) } \cup
                (IF t.lim.k = "nat" /\ t.lim.v <= 600 THEN {t.lim.v} ELSE {})
Sweep(dummy) == LET lists == SelectSeq(Selected, LAMBDA n : TypeOf[n].k \in {"list", "bitlist"})
         IN FlattenSeq(Tup([j \in 1..Len(lists) |->
              LET t == TypeOf[lists[j]] ns == SetToSeq(SweepLens(t))
              IN Tup([i \in 1..Len(ns) |-> SweepSession(lists[j], t, ns[i])])]))

\* values whose encodings exceed what 16-bit offsets could address: about b bytes in every list that may be that long
Cycle(pool, n) == Tup([i \in 1..n |-> pool[((i - 1) % Len(pool)) + 1]])
AtMost(n, lim) == IF WithinLimit(n, lim) THEN n ELSE lim.v
RECURSIVE BigVal(_, _)
PoolLen(t, pool) == Sum(Tup([i \in 1..Len(pool) |-> Len(Ser(t, pool[i]))]))
BigList(t, b, pool) == Cycle(pool, AtMost((b * Len(pool)) \div PoolLen(t.t, pool) + Len(pool), t.lim))
BigVal(t, b) ==
    CASE t.k = "bitlist" -> RandBits(AtMost(2048, t.lim))
      [] t.k = "list" -> Force(LAMBDA pool : BigList(t, b, pool),
                               IF IsFixed(t.t) THEN Tup([i \in 1..3 |-> RandVal(t.t, 1)])
                               ELSE LET c == IF t.t.k = "list" THEN b ELSE b \div 2 IN << BigVal(t.t, c), BigVal(t.t, c), RandVal(t.t, 1) >>)
      [] t.k = "cont" -> Tup([i \in 1..Len(t.fs) |-> BigVal(t.fs[i].t, b)])
      [] OTHER -> RandVal(t, 1)
BigOf(name, t, v, b) == Sess(name, << >>, << New(1), Load(1, b), Obs(1, "sr"), Op2("rt", 2, 1), Obs(2, "s"), Eq(1, 2) >>)
BigNames == SelectSeq(Selected, LAMBDA n : LET t == TypeOf[n] IN
                 (t.k = "list" /\ ~IsFixed(t.t)) \/ (t.k = "cont" /\ ~IsFixed(t)))
Bigs(dummy) == Tup([j \in 1..Len(BigNames) |->
    LET n == BigNames[j] t == TypeOf[n]
    IN WithValue(LAMBDA v, b : BigOf(n, t, v, b), t, BigVal(t, IF IsState(n) THEN 20000 ELSE 70000))])

YamlSession(name, t, i) ==
    LET v == ValueFor(t, i)
    IN Sess(name, << >>,
         << New(1), Load(1, Ser(t, v)), Obs(1, "syrp"), Yrt(2, 1, 0), Obs(2, "sry"), Yrt(3, 1, 1), Obs(3, "sry"),
            New(4), Yload(4, t, v, i % 2), Obs(4, "syrp"), Yrt(5, 4, (i + 1) % 2) >>)

(***************************************************************************)
(* round trips                                                             *)
(***************************************************************************)
RoundSession(name, t, i) ==
    LET v == ValueFor(t, i)
        b == Ser(t, v)
    IN Sess(name, <<b>>,
         << New(1), Load(1, b), Obs(1, "sry"), Op2("rt", 2, 1), Obs(2, "sry"), Eq(1, 2),
            New(3), Yload(3, t, v, i % 2), Op2("rt", 4, 3), Obs(4, "sry"), Eq(4, 1),
            New(5), Op2("rt", 6, 5) >>)

(***************************************************************************)
(* damaged encodings                                                       *)
(***************************************************************************)
Pos(S, k) == \* up to k positions of S
    IF Cardinality(S) <= k THEN S ELSE { RandomElement(S) : i \in 1..k }
RECURSIVE PickSome(_, _)
PickSome(S, k) == IF k = 0 \/ S = {} THEN << >>
                  ELSE LET x == RandomElement(S) IN <<x>> \o PickSome(S \ {x}, k - 1)
Lengths(n, k) == \* shortened and extended lengths
    IF n <= k THEN Tup([i \in 1..(n + 4) |-> i - 1])
    ELSE Tup([i \in 1..10 |-> n - 6 + i]) \o <<0, 1, 3, 4, 5>> \o PickSome(0..n, Max({0, k - 12}))
EditVals(x, n) == {(x + 1) % 256, (x + 255) % 256, 0, 255, (x + 4) % 256, (x + 252) % 256, 128, n % 256, 1, 2}
                  \ {x}

\* single-byte edits of the given positions
Singles(o, k, b, ps, many) ==
    FlattenSeq(Tup([i \in 1..Len(ps) |->
        LET p == ps[i]
            vals == SetToSeq(IF many THEN EditVals(b[p], Len(b))
                             ELSE {(b[p] + RandomElement(1..255)) % 256, RandomElement(EditVals(b[p], Len(b)))})
        IN Tup([j \in 1..Len(vals) |-> PatchOp(o, k, << <<p, vals[j]>> >>, Len(b))])]))
\* combined edits: two or three steering bytes, with or without a change of length
Combined(o, k, b, S, n) ==
    IF S = {} THEN << >>
    ELSE Tup([i \in 1..n |->
        LET c == RandomElement(1..3)
            ed == Tup([j \in 1..c |-> <<RandomElement(S), RandomElement(0..RandomElement({3, 8, 64, 255}))>>])
        IN PatchOp(o, k, ed, Len(b))])
Resized(o, k, b, m) ==
    LET ls == Lengths(Len(b), m)
    IN Tup([i \in 1..Len(ls) |->
         PatchOp(o, k, IF ls[i] > Len(b) /\ RandomElement({0, 1}) = 1
                       THEN << <<ls[i], RandomElement(1..255)>> >> ELSE << >>, ls[i])])
\* swap two bytes that steer, exchange offsets' low bytes
Swaps(o, k, b, S, n) ==
    IF Cardinality(S) < 2 THEN << >>
    ELSE Tup([i \in 1..n |->
        LET p == RandomElement(S) q == RandomElement(S)
        IN PatchOp(o, k, << <<p, b[q]>>, <<q, b[p]>> >>, Len(b))])
RandomInput(o, t, n) == Load(o, Tup([i \in 1..n |-> IF RandomElement(1..3) = 1 THEN RandomElement(Byte)
                                                  ELSE RandomElement({0, 1, 4, 8, 255})]))

SmallValue(t, i) == IF i = 1 THEN SizedVal(t, 2)
                    ELSE IF i = 2 THEN SizedVal(t, 1)
                    ELSE IF i = 3 THEN SizedVal(t, 0) ELSE RandVal(t, 3)
DamageOf(o, t, b, S, k, lens, steer, combos, anywhere, noise) ==
    Resized(o, k, b, lens)
    \o Force(LAMBDA ps : Singles(o, k, b, ps, TRUE), PickSome(S, steer))
    \o Combined(o, k, b, S, combos)
    \o Swaps(o, k, b, S, combos \div 2)
    \o (IF Len(b) = 0 THEN << >>
         ELSE Force(LAMBDA ps : Singles(o, k, b, ps, FALSE), Tup([i \in 1..anywhere |-> RandomElement(1..Len(b))])))
    \o Tup([i \in 1..noise |-> RandomInput(o, t, RandomElement(0..40))])
Damage(o, t, v, b, k, lens, steer, combos, anywhere, noise) ==
    Force(LAMBDA S : DamageOf(o, t, b, S, k, lens, steer, combos, anywhere, noise), Steering(t, v, 0))
CanonOf(name, t, v, b, f) ==
    Sess(name, <<b>>, << New(1), Load(1, b) >>
         \o Damage(1, t, v, b, 1, 36 \div f, 16 \div f, 24 \div f, 12 \div f, 10 \div f)
         \o << Load(1, b), Obs(1, "s") >>)
CanonSession(name, t, i) ==
    WithValue(LAMBDA v, b : CanonOf(name, t, v, b, IF IsState(name) THEN 3 ELSE 1), t, SmallValue(t, i))
\* every string of one byte, and many of two, for types that small
TinySession(name, t, lo) ==
    Sess(name, << >>, <<New(1)>> \o Tup([i \in 1..64 |-> Load(1, <<64 * lo + i - 1>>)])
                      \o Tup([i \in 1..40 |-> Load(1, <<RandomElement(Byte), RandomElement({0, 1, 2, 3, 4, 16, 32, 64, 128, 255})>>)]))
TinyNames == SelectSeq(Selected, LAMBDA n : LET t == TypeOf[n] IN
                 (IsFixed(t) /\ FixedSize(t) <= 2) \/ t.k = "bitlist" \/ (t.k = "list" /\ t.t.k = "bool"))
Tiny(dummy) == FlattenSeq(Tup([j \in 1..Len(TinyNames) |->
          Tup([lo \in 1..4 |-> TinySession(TinyNames[j], TypeOf[TinyNames[j]], lo - 1)])]))

\* like CanonSession, but every object is used after every attempt
UseAfterEachOf(ops, w) ==
    FlattenSeq(Tup([i \in 1..Len(ops) |->
        IF i % 4 = 0 THEN << ops[i], Obs(1, w), Op2("copy", 3, 1), Eq(3, 1), Op2("asg", 2, 1), Obs(2, "s"), Op2("rt", 4, 1) >>
        ELSE << ops[i], Obs(1, IF i % 4 = 1 THEN "rzt" ELSE "sy") >>]))
UseAfterEach(ops, w) == Force(LAMBDA x : UseAfterEachOf(x, w), ops)
HostileOf(name, t, v, b, f) ==
    Sess(name, <<b>>, << New(1), New(2), Load(1, b), Obs(1, "srzypt") >>
         \o UseAfterEach(Damage(1, t, v, b, 1, 16 \div f, 12 \div f, 12 \div f, 4 \div f, 8 \div f), "srzypt"))
HostileSession(name, t, i) ==
    WithValue(LAMBDA v, b : HostileOf(name, t, v, b, IF IsState(name) THEN 4 ELSE 1), t, SmallValue(t, i))

(***************************************************************************)
(* limits                                                                  *)
(***************************************************************************)
\* encodings of n elements without building n random ones
RepeatVal(t, n) == LET x == IF t.k = "bitlist" THEN 1 ELSE Zero(t.t)
                   IN Tup([i \in 1..n |-> IF t.k = "bitlist" THEN RandomElement({0, 1}) ELSE x])
LimitSession(name, t) ==
    LET u == Unlimited(t)
        L == t.lim.v
        big == L * (IF t.k = "bitlist" THEN 1 ELSE Len(Ser(u, RepeatVal(u, 1)))) > 20000
        ns == IF big THEN <<L, L + 1>> ELSE <<L - 1, L, L + 1, L + 2, 2 * L, L, L + 8>>
    IN Sess(name, << >>, <<New(1)>> \o FlattenSeq(Tup([i \in 1..Len(ns) |->
          IF ns[i] < 0 THEN << >>
          ELSE LET v == RepeatVal(u, ns[i]) IN
               << Load(1, Ser(u, v)), Obs(1, "sr"), New(2), Yload(2, u, v, i % 2), Obs(2, "sr") >>])))
\* the same for each list inside a container: all other fields stay default
RECURSIVE Inner(_, _)   \* paths to lists with a small limit, as sequences of field numbers
Inner(t, depth) ==
    IF t.k # "cont" \/ depth = 0 THEN {}
    ELSE UNION { LET ft == t.fs[i].t IN
                 (IF ft.k \in {"list", "bitlist"} /\ ft.lim.k = "nat" THEN { <<i>> } ELSE {})
                 \cup { <<i>> \o p : p \in Inner(ft, depth - 1) } : i \in 1..Len(t.fs) }
RECURSIVE AtPath(_, _)
AtPath(t, p) == IF p = << >> THEN t ELSE AtPath(t.fs[p[1]].t, Tail(p))
RECURSIVE PutAt(_, _, _, _)
PutAt(t, v, p, x) == IF p = << >> THEN x
                     ELSE Tup([i \in 1..Len(v) |-> IF i = p[1] THEN PutAt(t.fs[i].t, v[i], Tail(p), x) ELSE v[i]])
InnerLimitSession(name, t, p) ==
    LET lt == AtPath(t, p)
        u == Unlimited(t)
        lu == Unlimited(lt)
        w(n) == PutAt(u, Zero(u), p, RepeatVal(lu, n))
        L == lt.lim.v
        big == L * Len(Ser(lu, RepeatVal(lu, 1))) > 12000
    IN Force(LAMBDA vv : Sess(name, << >>,
               << New(1), Load(1, Ser(u, vv[1])), Obs(1, "sr"), Load(1, Ser(u, vv[2])) >>
               \o (IF big THEN << >> ELSE << New(2), Yload(2, u, vv[1], 0), Yload(2, u, vv[2], 0) >>)),
             << w(L), w(L + 1) >>)
\* limits up to 2^64 - 1: 2^e, and 2^e + a
LimE(o, e) == Lim(o, (0 - 2) - e)
LimP(o, e, a) == Lim(o, (0 - 2) - e - 100 * a)
LimSetSession(name, t) == \* the limit changed after the fact
    LET u == Unlimited(t)
        v(n) == RepeatVal(u, n)
        big == IF t.k = "bitlist" THEN 300 ELSE 9
    IN Sess(name, << >>,
         << New(1), Lim(1, 0), Load(1, Ser(u, v(big))), Obs(1, "sr"), Lim(1, 1), Obs(1, "r"), Lim(1, big \div 2), Obs(1, "r"),
            Lim(1, big), Obs(1, "sr"), Lim(1, big - 1), Load(1, Ser(u, v(big))), Load(1, Ser(u, v(big - 1))), Obs(1, "sr"),
            Lim(1, big * 5), Load(1, Ser(u, v(big))), Obs(1, "sr"),
            Lim(1, 256 + Pick(0..(big - 1))), Load(1, Ser(u, v(IF t.k = "bitlist" THEN 250 ELSE big))), Obs(1, "sr"),
            Lim(1, 65536 + Pick(0..(big - 1))), Load(1, Ser(u, v(big))), Obs(1, "sr"),
            LimP(1, Pick(31..63), Pick(1..(big - 1))), Load(1, Ser(u, v(big))), Obs(1, "sr"),
            LimP(1, 32, Pick(1..(big - 1))), New(2), LimP(2, Pick(32..62), Pick(1..(big - 1))), Yload(2, u, v(big), 0), Obs(2, "r"),
            Load(1, Ser(u, v(big))), Obs(1, "sr") >>
         \o FlattenSeq(Tup([e \in 1..55 |-> << LimE(1, e + 9), Load(1, Ser(u, v(big))) >>]))
         \o FlattenSeq(Tup([e \in 1..11 |-> << LimE(2, 65 - e), Yload(2, u, v(3), 0) >>])))
DeepLimSession(name, t, i) ==
    LET u == Unlimited(t)
        n == IF t.k = "bitlist" THEN Pick({0, 1, 255, 256, 257, 700}) ELSE Pick({0, 1, 3, 4, 5, 9, 33})
        es == Tup([j \in 1..8 |-> IF j = 1 THEN 64 ELSE IF j = 2 THEN 63 ELSE Pick(6..64)])
    IN WithValue(LAMBDA v, b : Sess(name, << >>, << New(1), Lim(1, 0), Load(1, b) >>
                     \o FlattenSeq(Tup([j \in 1..8 |-> << LimE(1, es[j]), Obs(1, "rt") >>]))
                     \o << LimE(1, 64), Load(1, b), Obs(1, "sr"), New(2), LimE(2, Pick(10..64)), Load(2, b), Obs(2, "r"),
                            LimP(2, Pick(31..63), Pick(1..40)), Obs(2, "r"), LimP(2, Pick(31..63), Pick(1..1000000)), Load(2, b), Obs(2, "r") >>), u, RepeatVal(u, n))
Loadr(o, t, d, harm) == [op |-> "loadr", o |-> o, d |-> d, harm |-> harm, runs |-> DescribedRuns(t, d, harm)]
Serr(o, t, d) == [op |-> "serr", o |-> o, d |-> d, runs |-> DescribedRuns(t, d, 0)]
YamlRuns(op, o, t, d, form) == [op |-> op, o |-> o, d |-> d, form |-> form, y |-> DescribedYaml(t, d)]
Item(p, b, n, m, y) == [p |-> p, b |-> b, n |-> n, m |-> m, y |-> y]
LongListSession(name, t, p) ==
    LET L == t.fs[p].t.lim.v
        z(n) == << Item(p, Ser(t.fs[p].t.t, Zero(t.fs[p].t.t)), n, 0, << >>) >>
    IN Sess(name, << >>, << New(1), Loadr(1, t, z(L), 0), Obs(1, "r"), Loadr(1, t, z(L + 1), 0), Loadr(1, t, z(L - 1), 0), Loadr(1, t, z(0), 0) >>)
LongFields(t) == { p \in 1..Len(t.fs) : t.fs[p].t.k = "list" /\ t.fs[p].t.lim.k = "nat" }
LimitNames == SelectSeq(Selected, LAMBDA n : TypeOf[n].k \in {"list", "bitlist"} /\ TypeOf[n].lim.k = "nat")
LimSetNames == SelectSeq(Selected, LAMBDA n : TypeOf[n].k \in {"list", "bitlist"} /\ TypeOf[n].lim.k # "exp"
                                             /\ (TypeOf[n].k = "bitlist" \/ IsFixed(TypeOf[n].t)))
DeepLimits(dummy) == Join(Tup([j \in 1..Len(LimSetNames) |->
    Tup([i \in 1..2 |-> DeepLimSession(LimSetNames[j], TypeOf[LimSetNames[j]], i)])]))
ContNames == SelectSeq(Selected, LAMBDA n : TypeOf[n].k = "cont")
Limits(dummy) ==
    Tup([j \in 1..Len(LimitNames) |-> LimitSession(LimitNames[j], TypeOf[LimitNames[j]])])
    \o Tup([j \in 1..Len(LimSetNames) |-> LimSetSession(LimSetNames[j], TypeOf[LimSetNames[j]])])
    \o FlattenSeq(Tup([j \in 1..Len(ContNames) |->
         LET n == ContNames[j]
             \* a mainnet state is too large to spell out
             big == IsState(n) /\ ~Minimal
             ps == IF big THEN SetToSeq(LongFields(TypeOf[n]))
                   ELSE SetToSeq(Inner(TypeOf[n], IF IsState(n) \/ n = "BeaconBlockBody" THEN 1 ELSE 2))
         IN Tup([i \in 1..Len(ps) |-> IF big THEN LongListSession(n, TypeOf[n], ps[i]) ELSE InnerLimitSession(n, TypeOf[n], ps[i])])]))

(***************************************************************************)
(* malformed text                                                          *)
(***************************************************************************)
OddChars == <<"g", "G", "/", ":", "@", "`", " ", "x", "-", "_", "z", "~", "{", "!", "+", ".", "Z", "X">>
PutChar(s, i, c) == SubSeq(s, 1, i - 1) \o c \o SubSeq(s, i + 1, Len(s))
Upper == [c \in {"a", "b", "c", "d", "e", "f"} |->
           CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] OTHER -> "F"]
RECURSIVE UpperFrom(_, _)
UpperFrom(s, i) == IF i > Len(s) THEN ""
                   ELSE (LET c == CharAt(s, i) IN IF c \in DOMAIN Upper THEN Upper[c] ELSE c) \o UpperFrom(s, i + 1)
Scalar(s) == [k |-> "s", s |-> s]
MutHex(s) ==
    LET c == RandomElement(1..15)
        n == Len(s)
    IN CASE c = 1 -> SubSeq(s, 3, n)
         [] c = 2 -> "0X" \o SubSeq(s, 3, n)
         [] c \in {3, 4} /\ n > 2 -> PutChar(s, RandomElement(3..n), PickSeq(OddChars))
         [] c = 5 -> s \o "00"
         [] c = 6 -> s \o "0"
         [] c = 7 -> "0x" \o UpperFrom(s, 3)
         [] c = 8 -> SubSeq(s, 1, n - 2)
         [] c = 9 -> "0x"
         [] c = 10 -> ""
         [] c = 11 -> SubSeq(s, 1, n - 1)
         [] c = 12 -> "x" \o SubSeq(s, 2, n)
         [] c = 13 -> s \o "zz"
         [] c = 14 -> s \o PickSeq(OddChars)
         [] OTHER -> SubSeq(s, 1, 2 + 2 * RandomElement(0..((n - 2) \div 2)))
MutUint(s) == LET c == RandomElement(1..6)
              IN CASE c = 1 -> "" [] c = 2 -> "abc" [] c = 3 -> s \o "0" [] c = 4 -> "zero" [] c = 5 -> "true"
                   [] OTHER -> "18446744073709551615"
RECURSIVE MutYaml(_, _)
MutYaml(t, y) ==
    LET c == RandomElement(1..10)
    IN IF c = 1 /\ y.k # "s" THEN Scalar("0x00")
       ELSE IF c = 2 THEN [k |-> "q", q |-> << >>]
       ELSE IF c = 3 THEN [k |-> "m", f |-> <<"a">>, q |-> <<Scalar("1")>>]
       ELSE CASE t.k \in {"bytes", "bitvec", "bitlist"} -> Scalar(MutHex(y.s))
              [] t.k = "uint" -> Scalar(MutUint(y.s))
              [] t.k = "bool" -> Scalar(PickSeq(<<"2", "maybe", "", "true", "false">>))
              [] t.k \in {"vec", "list"} ->
                   IF Len(y.q) = 0 \/ c = 4 THEN [y EXCEPT !.q = Append(@, Yaml(t.t, Zero(t.t)))]
                   ELSE IF c = 5 THEN [y EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)]
                   ELSE LET i == RandomElement(1..Len(y.q)) IN [y EXCEPT !.q[i] = MutYaml(t.t, @)]
              [] t.k = "cont" ->
                   LET i == RandomElement(1..Len(y.q))
                   IN CASE c = 4 -> [y EXCEPT !.f = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)),
                                              !.q = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
                        [] c = 5 -> [y EXCEPT !.f[i] = @ \o "s"]
                        [] c = 6 -> [k |-> "m", f |-> Append(y.f, "extra"), q |-> Append(y.q, Scalar("7"))]
                        [] OTHER -> [y EXCEPT !.q[i] = MutYaml(t.fs[i].t, @)]
TextSession(name, t, i) ==
    LET v == IF IsState(name) THEN Zero(t) ELSE RandVal(t, 2)
        y == Yaml(t, v)
        k == IF IsState(name) THEN 2 ELSE IF t.k \in {"bytes", "bitvec", "bitlist"} THEN 24 ELSE 12
    IN Sess(name, << >>, << New(1), Yany(1, y, i % 2), Obs(1, "sry") >>
         \o FlattenSeq(Tup([j \in 1..k |-> << Yany(1, MutYaml(t, y), j % 2), Obs(1, "sry") >>])))

(***************************************************************************)
(* equality: pairs that differ in one leaf                                 *)
(***************************************************************************)
RECURSIVE Tweak(_, _)   \* a value that differs from v in one place, if the type allows
Tweak(t, v) ==
    CASE t.k \in {"uint", "bytes"} ->
           LET i == RandomElement(1..t.n) IN [v EXCEPT ![i] = (@ + RandomElement({1, 128, 255})) % 256]
      [] t.k = "bool" -> 1 - v
      [] t.k = "bitvec" -> LET i == RandomElement(1..t.n) IN [v EXCEPT ![i] = 1 - @]
      [] t.k = "bitlist" ->
           LET c == RandomElement(1..3)
           IN IF Len(v) = 0 \/ (c = 1 /\ WithinLimit(Len(v) + 1, t.lim)) THEN Append(v, 0)
              ELSE IF c = 2 THEN SubSeq(v, 1, Len(v) - 1)
              ELSE LET i == RandomElement(1..Len(v)) IN [v EXCEPT ![i] = 1 - @]
      [] t.k = "vec" -> LET i == RandomElement(1..t.n) IN [v EXCEPT ![i] = Tweak(t.t, @)]
      [] t.k = "list" ->
           LET c == RandomElement(1..4)
           IN IF Len(v) = 0 \/ (c = 1 /\ WithinLimit(Len(v) + 1, t.lim)) THEN Append(v, Zero(t.t))
              ELSE IF c = 2 THEN SubSeq(v, 1, Len(v) - 1)
              ELSE LET i == RandomElement(1..Len(v)) IN [v EXCEPT ![i] = Tweak(t.t, @)]
      [] t.k = "cont" -> LET i == RandomElement(1..Len(v)) IN [v EXCEPT ![i] = Tweak(t.fs[i].t, @)]
\* one tweak in each field of a container in turn
TweakField(t, v, i) == [v EXCEPT ![i] = Tweak(t.fs[i].t, @)]
EqPair(t, v, w, o) == << Load(o, Ser(t, w)), Obs(o, "sy"), Eq(1, o), Eq(o, 1) >>
EqualOf(name, t, v) ==
    LET n == IF t.k = "cont" THEN Len(t.fs) ELSE 4
    IN Sess(name, << >>,
         << New(1), Load(1, Ser(t, v)), Obs(1, "sy"), New(2), Eq(1, 1), Eq(1, 2), Yload(3, t, v, 0), Eq(1, 3), Eq(3, 1),
            New(4), Eq(2, 4) >>
         \o FlattenSeq(Tup([j \in 1..n |->
              EqPair(t, v, IF t.k = "cont" THEN TweakField(t, v, j) ELSE Tweak(t, v), 2)]))
         \o EqPair(t, v, v, 2)
         \o EqPair(t, v, RandVal(t, 3), 2))
EqualSession(name, t, i) == EqualOf(name, t, IF i = 1 THEN Zero(t) ELSE ValueFor(t, i))
\* a large value against the same but for one byte, near the front or anywhere
FarApart(name, t, b) ==
    LET at(j) == IF j = 1 THEN Pick(1..Min({Len(b), 2000})) ELSE Pick(1..Len(b))
    IN Sess(name, << b >>,
         << New(1), PatchOp(1, 1, << >>, Len(b)), New(2) >>
         \o FlattenSeq(Tup([j \in 1..5 |-> Force(LAMBDA p : << PatchOp(2, 1, << << p, (b[p] + 1) % 256 >> >>, Len(b)), Eq(1, 2), Eq(2, 1) >>, at(j))])))
EqualBigs(dummy) == Tup([j \in 1..Len(BigNames) |->
    LET n == BigNames[j] t == TypeOf[n]
    IN WithValue(LAMBDA v, b : FarApart(n, t, b), t, BigVal(t, 20000))])
EqualFull(name, t, i) == EqualOf(name, t, FullVal(t, 2))

(***************************************************************************)
(* histories                                                               *)
(***************************************************************************)
HistOp(t, vs, bs) ==
    LET a == RandomElement(1..4)
        b == RandomElement(1..4)
        k == RandomElement(1..Len(vs))
        c == RandomElement(1..16)
    IN CASE c \in {1, 2, 3} -> << Load(a, bs[k]) >>
         [] c \in {4, 5} -> << Yload(a, t, vs[k], RandomElement({0, 1})) >>
         [] c = 6 -> << PatchOp(a, k, << >>, RandomElement(0..Len(bs[k]))) >>
         [] c = 7 -> IF Len(bs[k]) = 0 THEN << >>
                     ELSE << PatchOp(a, k, << <<RandomElement(1..Len(bs[k])), RandomElement(Byte)>> >>, Len(bs[k])) >>
         [] c = 8 -> << PatchOp(a, k, << >>, Len(bs[k]) + RandomElement(1..3)) >>
         [] c = 9 -> << Op2("asg", a, b) >>
         [] c = 10 -> << Op2("copy", a, b) >>
         [] c = 11 -> IF a = b THEN << >> ELSE << Op2("masg", a, b) >>
         [] c = 12 -> << Yany(a, MutYaml(t, Yaml(t, vs[k])), 0) >>
         [] c = 13 -> << Eq(a, b) >>
         [] c = 14 -> << Obs(a, "t"), Obs(a, "p"), Obs(a, "srytz") >>
         [] c = 15 -> IF a = b THEN << >> ELSE << Op2("mcopy", a, b) >>
         [] OTHER -> << New(a) >>
HistoryOf(name, t, vs, bs) ==
    LET n == IF IsState(name) THEN 12 ELSE 40
    IN Sess(name, bs,
         FlattenSeq(Tup([k \in 1..4 |-> << New(5), Load(5, bs[k]), Obs(5, "sry"), New(6), Yload(6, t, vs[k], 0), Obs(6, "sry"),
                                          Eq(5, 6) >>]))
         \o << New(1), New(2), New(3), New(4), Obs(1, "sry"), Mark >>
         \o FlattenSeq(Tup([j \in 1..n |-> HistOp(t, vs, bs) \o << Obs(RandomElement(1..4), "sry") >>]))
         \o << Obs(1, "srytz"), Obs(2, "srytz"), Obs(3, "srytz"), Obs(4, "srytz"), Eq(1, 2), Eq(3, 4), Eq(2, 3) >>)
HistorySession(name, t, i) ==
    Force(LAMBDA vs : Force(LAMBDA bs : HistoryOf(name, t, vs, bs), Tup([k \in 1..Len(vs) |-> Ser(t, vs[k])])),
          << ValueFor(t, 1), SizedVal(t, 0), ValueFor(t, 3), SizedVal(t, 3) >>)


(***************************************************************************)
(* parts                                                                   *)
(***************************************************************************)
PartOp(op, o, t, p) == [op |-> op, o |-> o, p |-> p, at |-> PathText(t, p)]
SetOp(op, o, t, p, b) == [op |-> op, o |-> o, p |-> p, at |-> PathText(t, p), b |-> b]
Marks(v) == {i \in {1, 2, (Len(v) + 1) \div 2, Len(v)} : i \in 1..Len(v)}
RECURSIVE PartPaths(_, _, _)
PartPaths(t, v, d) ==
    IF d = 0 \/ t.k \notin {"cont", "list", "vec"} \/ t \in Opaque THEN {<< >>}
    ELSE {<< >>} \cup UNION { { <<i>> \o p : p \in PartPaths(PartType(t, <<i>>), v[i], d - 1) }
                              : i \in IF t.k = "cont" THEN 1..Len(v) ELSE Marks(v) }
ReadOps(o, t, p) ==
    << PartOp("get", o, t, p) >>
    \o (CASE PartType(t, p).k \in {"list", "vec"} -> << PartOp("items", o, t, p) >>
          [] PartType(t, p).k \in {"bitlist", "bitvec"} -> << PartOp("bits", o, t, p) >>
          [] PartType(t, p).k = "bool" \/ (PartType(t, p).k = "uint" /\ PartType(t, p).n = 8) -> << PartOp("num", o, t, p) >>
          [] OTHER -> << >>)
\* how a part is written: integers also as numbers
Setter(t) == IF (t.k = "bool" \/ (t.k = "uint" /\ t.n = 8)) /\ RandomElement(1..2) = 1 THEN "setn" ELSE "set"
\* a state's vectors are long: their elements are looked at one by one only here and there
ReadAll(o, t, ps) == FlattenSeq(Tup([i \in 1..Len(ps) |-> ReadOps(o, t, ps[i])]))
ReadsOf(o, t, v, d, n) == Force(LAMBDA S : ReadAll(o, t, PickSome(S, n)), PartPaths(t, v, d))
\* paths whose object may be written, other than the whole
WritePaths(t, v) == { p \in PartPaths(t, v, 4) : (p # << >> \/ t.k \in {"uint", "bool"}) /\ Writable(t, p) }
Room(t, v) == t.k = "list" /\ IsFixed(t.t) /\ WithinLimit(Len(v) + 1, t.lim)
PushPaths(t, v) == { p \in PartPaths(t, v, 3) : Writable(t, p) /\ Room(PartType(t, p), PartVal(v, p)) }
\* objects 1 (default), 2 (loaded), 3 (copy of 2), 4 (fresh); v: what 2 holds
RECURSIVE Writes(_, _, _)
WriteOne(t, v, p, x, w, push, n) ==
    << New(4), Load(4, Ser(t, w)), Obs(4, "sry"), New(5), Load(5, Ser(t, w)), Eq(4, 5), Eq(4, 3),
       SetOp(IF push THEN "push" ELSE Setter(PartType(t, p)), 2, t, p, Ser(PartType(t, IF push THEN Append(p, 1) ELSE p), x)), Obs(2, "sry") >>
    \o ReadOps(2, t, p)
    \o << Eq(2, 4), Eq(4, 2), Eq(2, 3), Obs(3, "s") >>
    \o Writes(t, w, n - 1)
WritePart(t, v, p, n) ==
    Force(LAMBDA x : Force(LAMBDA w : WriteOne(t, v, p, x, w, FALSE, n), WithPart(v, p, x)),
          IF RandomElement(1..3) = 1 THEN Tweak(PartType(t, p), PartVal(v, p)) ELSE RandVal(PartType(t, p), 3))
PushPart(t, v, p, n) ==
    Force(LAMBDA x : Force(LAMBDA w : WriteOne(t, v, p, x, w, TRUE, n), WithPart(v, p, Append(PartVal(v, p), x))),
          RandVal(PartType(t, p).t, 2))
Writes(t, v, n) ==
    IF n = 0 THEN << >>
    ELSE IF n % 4 = 0 /\ PushPaths(t, v) # {} THEN Force(LAMBDA p : PushPart(t, v, p, n), RandomElement(PushPaths(t, v)))
    ELSE IF WritePaths(t, v) # {} THEN Force(LAMBDA p : WritePart(t, v, p, n), RandomElement(WritePaths(t, v)))
    ELSE << >>
PartsOf(name, t, v, b) ==
    LET big == IsState(name) IN
    Sess(name, << >>,
         << New(1), Obs(1, "s") >> \o ReadsOf(1, t, Zero(t), 2, 40)
         \o << New(2), Load(2, b), Obs(2, "sry") >>
         \o ReadsOf(2, t, v, IF big THEN 1 ELSE 5, 60) \o (IF big THEN ReadsOf(2, t, v, 3, 60) ELSE << >>)
         \o << Op2("copy", 3, 2) >> \o Writes(t, v, 8)
         \o << Op2("asg", 3, 2), Obs(3, "sry"), Eq(2, 3) >>)
PartsSession(name, t, i) ==
    WithValue(LAMBDA v, b : PartsOf(name, t, v, b), t, IF i % 2 = 1 THEN SizedVal(t, 3) ELSE ValueFor(t, i))
\* values in which parts of equal type are now equal, now different
ShownStep(name, t, v, b) == << Load(2, b), Obs(2, "sry") >> \o ReadsOf(2, t, v, 1, 60) \o ReadsOf(2, t, v, 3, 12)
ShownSession(name, t, i) ==
    Sess(name, << >>, << New(2) >> \o FlattenSeq(Tup([k \in 1..(IF IsState(name) THEN 3 ELSE 8) |->
        WithValue(LAMBDA v, b : ShownStep(name, t, v, b), t, IF k % 3 = 0 THEN SizedVal(t, 2) ELSE CoinVal(t, 3))])))
Shown(dummy) == LET ns == SelectSeq(Selected, LAMBDA n : TypeOf[n] \in ReadOnly)
                IN FlattenSeq(Tup([j \in 1..Len(ns) |-> Tup([i \in 1..Scale |-> ShownSession(ns[j], TypeOf[ns[j]], i)])]))

\* rewritten in place, part by part; every value was seen in a fresh object before
RECURSIVE Chain(_, _, _)   \* n steps [p, x, w] from v
ChainStep(t, v, p, n) ==
    Force(LAMBDA x : Force(LAMBDA w : << [p |-> p, x |-> x, w |-> w] >> \o Chain(t, w, n - 1), WithPart(v, p, x)),
          IF RandomElement(1..2) = 1 THEN Tweak(PartType(t, p), PartVal(v, p)) ELSE RandVal(PartType(t, p), 2))
Chain(t, v, n) == IF n = 0 \/ WritePaths(t, v) = {} THEN << >>
                  ELSE Force(LAMBDA p : ChainStep(t, v, p, n), RandomElement(WritePaths(t, v)))
ChainOp(t, c, v, b, i) ==
    << SetOp(Setter(PartType(t, c.p)), 1, t, c.p, Ser(PartType(t, c.p), c.x)), Obs(1, RandomElement({"srytz", "sry", "rt", "t", "r", "s"})), Eq(1, 2) >>
    \o (CASE i % 4 = 1 -> << Op2("copy", 2, 1), Eq(1, 2) >> [] i % 4 = 2 -> << Op2("asg", 2, 1), Obs(2, "srt") >>
          [] i % 4 = 3 -> << Obs(2, "srt") >> [] OTHER -> << Obs(2, "srt"), Load(2, b), Obs(2, "sry") >>)
RewriteOf(name, t, v, b, ch) ==
    Sess(name, << >>,
         << New(3), Load(3, b), Obs(3, "sry"), Eq(3, 3) >>
         \o FlattenSeq(Tup([i \in 1..Len(ch) |-> << New(4), Load(4, Ser(t, ch[i].w)), Obs(4, "sry"), Eq(3, 4), Op2("rt", 5, 4) >>]))
         \o << New(1), Load(1, b), Obs(1, "srytz"), New(2), Load(2, b), Mark >>
         \o FlattenSeq(Tup([i \in 1..Len(ch) |-> ChainOp(t, ch[i], v, b, i)]))
         \o << Obs(1, "srytz"), Load(1, b), Obs(1, "srytz"), Obs(2, "srytz") >>)
RewriteSession(name, t, i) ==
    WithValue(LAMBDA v, b : Force(LAMBDA ch : RewriteOf(name, t, v, b, ch), Chain(t, v, 6)), t,
              IF i % 2 = 1 THEN FullVal(t, 2) ELSE ValueFor(t, i))
\* the same with long lists
LongNames == SelectSeq(Selected, LAMBDA n : LET t == TypeOf[n] IN t.k \in {"list", "cont"} /\ ~IsFixed(t))
LongRewriteSession(name, t) ==
    WithValue(LAMBDA v, b : Force(LAMBDA ch : RewriteOf(name, t, v, b, ch), Chain(t, v, 5)), t, BigVal(t, IF IsState(name) THEN 600 ELSE 1600))
LongRewrites(dummy) == Tup([j \in 1..Len(LongNames) |-> LongRewriteSession(LongNames[j], TypeOf[LongNames[j]])])

(***************************************************************************)
(* the state under the mainnet preset, described                           *)
(***************************************************************************)
RandItem(t, p) ==
    LET ft == t.fs[p].t IN
    IF ~Elements(ft) THEN Item(p, Ser(ft, RandVal(ft, 1)), 0, 0, << >>)
    ELSE IF ~IsFixed(ft.t) THEN Item(p, Ser(ft.t, RandVal(ft.t, 2)), Pick({0, 1, 2, 5}), 0, << >>)
    ELSE Force(LAMBDA x : Force(LAMBDA n : Item(p, Ser(ft.t, x), n, IF n = 0 THEN 0 ELSE Pick({0, 1, n, Pick(1..n)}), Ser(ft.t, Tweak(ft.t, x))),
                                IF ft.k = "vec" THEN ft.n ELSE Pick({0, 1, 2, 3, 5, 17, 64, 300})), RandVal(ft.t, 1))
RandDesc(t, i) == LET ps == SelectSeq(Tup([p \in 1..Len(t.fs) |-> p]), LAMBDA p : i = 1 \/ Pick(1..2) = 1)
                  IN IF ps = << >> THEN << >> ELSE Tup([k \in 1..Len(ps) |-> RandItem(t, ps[k])])
\* the same but for one element or field
Other(t, f) ==
    LET ft == t.fs[f.p].t IN
    IF ~Elements(ft) THEN [f EXCEPT !.b = Ser(ft, Tweak(ft, Deser(ft, f.b).v))]
    ELSE IF ~IsFixed(ft.t) \/ f.n = 0 THEN [f EXCEPT !.n = @ + 1]
    ELSE IF f.m = 0 THEN [f EXCEPT !.m = Pick({1, f.n, Pick(1..f.n)})] ELSE [f EXCEPT !.m = 0]
OtherDesc(t, d) == LET k == Pick(1..Len(d)) IN Tup([j \in 1..Len(d) |-> IF j = k THEN Other(t, d[j]) ELSE d[j]])
DescribedOf(name, t, d, e) ==
    Sess(name, << >>,
         << New(6), Serr(6, t, << >>), YamlRuns("yserr", 6, t, << >>, 0), YamlRuns("yloadr", 6, t, d, Pick(0..1)), Serr(6, t, d),
            New(1), Loadr(1, t, d, 0), Obs(1, "rz"), Obs(1, "t"), YamlRuns("yserr", 1, t, d, 0), Eq(1, 6),
            New(2), Loadr(2, t, e, 0), Obs(2, "rz"), Eq(1, 2), Eq(2, 1), Op2("copy", 3, 1), Eq(3, 1), Mark,
            Loadr(1, t, e, 0), Obs(1, "r"), Serr(1, t, e), Eq(1, 2), Eq(1, 3),
            YamlRuns("yloadr", 6, t, e, 0), YamlRuns("yserr", 6, t, e, 0),
            Loadr(2, t, d, Pick(Harms(t, d))), Loadr(2, t, e, Pick(Harms(t, e))),
            Loadr(2, t, d, 0), Obs(2, "rt"), Eq(2, 3), Op2("asg", 1, 2), Eq(1, 3), Obs(3, "r"), Op2("rt", 4, 3), Yrt(5, 3, 0) >>)
DescribedSession(name, t, i) == Force(LAMBDA d : Force(LAMBDA e : DescribedOf(name, t, d, e), OtherDesc(t, d)), RandDesc(t, i))

\* lists of more than 65536 elements
Far(dummy) == 65536 + Pick(2..300)
ManyItem(ft, p) ==
    Force(LAMBDA x : Force(LAMBDA n : IF IsFixed(ft.t) THEN Item(p, Ser(ft.t, x), n, Pick(65537..n), Ser(ft.t, Tweak(ft.t, x)))
                                      ELSE Item(p, Ser(ft.t, x), n, 0, << >>), Far(0)), RandVal(ft.t, 1))
ManyOf(name, t, d, e, less) ==
    Sess(name, << >>,
         IF t.k = "list" /\ ~IsFixed(t.t)
         THEN << New(1), Loadr(1, t, d, 0), Obs(1, "r"), Op2("rt", 2, 1), Eq(1, 2), Loadr(2, t, e, 0), Eq(1, 2) >>
         ELSE << New(1), Loadr(1, t, d, 0), Obs(1, "r"), Serr(1, t, d), New(2), Loadr(2, t, e, 0), Eq(1, 2), Obs(2, "r"),
            Loadr(2, t, less, 0), Obs(2, "r"), Serr(2, t, less), Loadr(2, t, d, 0), Eq(1, 2), Op2("copy", 3, 1), Op2("rt", 4, 3), Eq(3, 4) >>)
ManySession(name, t, ft, p) ==
    Force(LAMBDA f : ManyOf(name, t, << f >>, << IF f.m = 0 THEN [f EXCEPT !.n = @ - 1] ELSE [f EXCEPT !.m = 0] >>,
                            << [f EXCEPT !.n = 65536, !.m = 0] >>), ManyItem(ft, p))
ManyBitsOf(name, t, v, w) ==
    WithValue(LAMBDA vv, b : WithValue(LAMBDA ww, c :
        Sess(name, << >>, << New(1), Load(1, b), Obs(1, "srtz"), New(2), Load(2, c), Obs(2, "r"), Eq(1, 2), Load(2, b), Eq(1, 2),
                             Op2("copy", 3, 1), Op2("rt", 4, 3), Eq(3, 4) >>), t, w), t, v)
ManyBits(name, t) ==
    Force(LAMBDA v : Force(LAMBDA j : ManyBitsOf(name, t, v, [v EXCEPT ![j] = 1 - @]), Pick(65537..Len(v))), RandBits(Far(0)))
LongLists(t) == { p \in 1..Len(t.fs) : t.fs[p].t.k = "list" /\ t.fs[p].t.lim.k = "exp" /\ IsFixed(t.fs[p].t.t) }
Many(name, t) ==
    CASE t.k = "list" -> << ManySession(name, t, t, 0) >>
      [] t.k = "bitlist" -> << ManyBits(name, t) >>
      [] t.k = "cont" -> LET ps == SetToSeq(LongLists(t)) IN Tup([k \in 1..Len(ps) |-> ManySession(name, t, t.fs[ps[k]].t, ps[k])])

(***************************************************************************)
(* predicates                                                              *)
(***************************************************************************)
Step8(b, up) == IF up THEN SubSeq(AddLE(b, PadTo(<<1>>, 8)), 1, 8)
                ELSE SubSeq(AddLE(b, Tup([i \in 1..8 |-> 255])), 1, 8)
Near(b) == LET c == RandomElement(1..4) IN
           CASE c = 1 -> b [] c = 2 -> Step8(b, TRUE) [] c = 3 -> Step8(b, FALSE) [] OTHER -> RandUint(8)
Vp(o, e) == [op |-> "vp", o |-> o, ep |-> e]
ValidatorSession(i) ==
    LET base == RandUint(8)
        r == RandVal(TValidator, 1)
        v == [r EXCEPT ![3] = IF RandomElement(1..3) = 1 THEN Near(MAX_EFFECTIVE_BALANCE) ELSE MAX_EFFECTIVE_BALANCE,
                       ![5] = IF RandomElement(1..3) = 1 THEN Near(FAR_FUTURE_EPOCH) ELSE FAR_FUTURE_EPOCH,
                       ![6] = Near(base), ![7] = Near(base), ![8] = Near(base)]
    IN Sess("Validator", << >>, << New(1), Load(1, Ser(TValidator, v)), Obs(1, "sry") >>
         \o FlattenSeq(Tup([k \in 1..3 |-> << Vp(1, v[k + 5]), Vp(1, Step8(v[k + 5], TRUE)), Vp(1, Step8(v[k + 5], FALSE)) >>]))
         \o << Vp(1, base), Vp(1, Zeros(8)), Vp(1, FAR_FUTURE_EPOCH), Vp(1, RandUint(8)), Vp(1, RandUint(8)) >>)
VotesSession(i) ==
    LET b1 == RandUint(8)
        b2 == RandUint(8)
        x == RandVal(TAttestationData, 1)
        a == [x EXCEPT ![4][1] = Near(b1), ![5][1] = Near(b2)]
        ev(w) == << Load(2, Ser(TAttestationData, w)), Obs(2, "sry"), Op2("votes", 1, 2), Op2("votes", 2, 1) >>
        twin(k) == [a EXCEPT ![k] = Tweak(TAttestationData.fs[k].t, @)]
    IN Sess("AttestationData", << >>,
         << New(1), Load(1, Ser(TAttestationData, a)), Obs(1, "sry"), Op2("votes", 1, 1), New(2) >>
         \o ev(a)
         \o FlattenSeq(Tup([k \in 1..5 |-> ev(twin(k))]))
         \o ev([a EXCEPT ![4][2] = Tweak(Root, @)]) \o ev([a EXCEPT ![5][2] = Tweak(Root, @)])
         \o FlattenSeq(Tup([k \in 1..8 |-> ev([RandVal(TAttestationData, 1) EXCEPT ![4][1] = Near(a[4][1]), ![5][1] = Near(a[5][1])])]))
         \o FlattenSeq(Tup([k \in 1..4 |-> ev([a EXCEPT ![4][1] = Near(@), ![5][1] = Near(@)])])))
RECURSIVE Climb(_, _)
Climb(b, n) == IF n = 0 THEN << >>
               ELSE <<b>> \o Climb(SubSeq(AddLE(b, PadTo(<<RandomElement(1..3)>> \o
                        (IF RandomElement(1..6) = 1 THEN <<0, 0, RandomElement(0..255), 0, 1>> ELSE << >>), 8)), 1, 8), n - 1)
IndexedSession(i) ==
    LET n == RandomElement({0, 1, 2, 3, 4, 5, 9, 17, 40})
        start == IF RandomElement(1..3) = 1 THEN Zeros(8)
                 ELSE IF RandomElement(1..3) = 1 THEN <<250, 255, 255, 255, 255, 255, 255, 127>> ELSE RandUint(8)
        s == Climb(start, n)
        x == RandVal(TIndexedAttestation, 1)
        ev(q) == << Load(1, Ser(TIndexedAttestation, [x EXCEPT ![1] = q])), Obs(1, "sy"), [op |-> "valid", o |-> 1] >>
        k == IF n = 0 THEN 1 ELSE RandomElement(1..n)
        j == IF n = 0 THEN 1 ELSE RandomElement(1..n)
    IN Sess("IndexedAttestation", << >>,
         <<New(1)>> \o ev(s)
         \o (IF n < 2 THEN << >> ELSE ev([s EXCEPT ![k] = s[j], ![j] = s[k]])
              \o ev([s EXCEPT ![k] = s[j]])
              \o ev(SubSeq(s, 1, n - 1) \o <<s[1]>>)
              \o ev([s EXCEPT ![n] = s[n - 1]]) \o ev([s EXCEPT ![1] = s[2]])
              \o ev([s EXCEPT ![1] = s[n], ![n] = s[1]])
              \o ev([s EXCEPT ![k] = Near(@)])))

\* up to as many as a committee may have, disturbed in one place
LongIndexedSession(i, n) ==
    LET low == RandomElement(0..1000) gap == RandomElement(1..3) high == RandBytes(4)
        s == Tup([j \in 1..n |-> NatLE(low + gap * j, 4) \o high])
        b == Ser(TIndexedAttestation, [RandVal(TIndexedAttestation, 1) EXCEPT ![1] = s])
        put(j, e) == Tup([m \in 1..8 |-> << Len(b) - 8 * (n - j + 1) + m, e[m] >>])
        ask(ed) == << PatchOp(1, 1, ed, Len(b)), [op |-> "valid", o |-> 1] >>
        places == { p \in {1, 2, 31, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, n - 2, n - 1, RandomElement(1..(n - 1))} : p \in 1..(n - 1) }
        ps == SetToSeq(places)
    IN Force(LAMBDA sb : Force(LAMBDA q :
         Sess("IndexedAttestation", << sb >>,
           <<New(1)>> \o ask(<< >>)
           \o FlattenSeq(Tup([x \in 1..Len(ps) |-> LET p == ps[x] IN ask(put(p + 1, q[p])) \o ask(put(p, q[p + 1]) \o put(p + 1, q[p]))]))
           \o ask(put(n, q[1])) \o ask(put(1, q[n])) \o ask(put(1, q[n]) \o put(n, q[1])) \o ask(<< >>)), s), b)

(***************************************************************************)
(* running out of memory                                                   *)
(***************************************************************************)
Starve(op, on) == [x \in (DOMAIN op) \cup {"op", "do", "on"} |-> IF x = "op" THEN "starve" ELSE IF x = "do" THEN op.op
                                                                 ELSE IF x = "on" THEN on ELSE op[x]]
MemoryOf(name, t, v, w, b, bw, cut, k) ==
    Sess(name, << >>,
         << New(1), Load(1, b), Obs(1, "srt"), New(2), Load(2, bw), Obs(2, "srt"), Op2("copy", 3, 1), Obs(3, "srt"),
            Eq(1, 3), Eq(1, 2), Eq(2, 1), New(6), Obs(6, "srt"), Load(6, cut), Load(6, bw), Obs(6, "srt"), Op2("asg", 6, 1), Obs(6, "srt"),
            New(7), Yload(7, t, v, 0), Obs(7, "srty"), Yload(7, t, w, 0), Obs(7, "srty"), Mark,
            Starve(New(4), k), Obs(4, "srt"), Starve(Load(4, b), 1 - k), Starve(Obs(4, "r"), k), Obs(4, "srt"), Eq(4, 1),
            Starve(Obs(1, "s"), 0), Starve(Obs(1, "t"), k), Obs(1, "srt"), Starve(Obs(1, "s"), 1),
            Starve(Op2("copy", 5, 1), k), Obs(5, "srt"), Starve(Eq(1, 2), k), Starve(Eq(5, 1), 1 - k),
            Starve(Op2("asg", 2, 1), 1 - k), Starve(Obs(2, "r"), 1 - k), Obs(2, "srt"), Obs(1, "srt"), Eq(2, 1),
            Starve(Load(6, cut), k), Starve(Load(6, bw), k), Obs(6, "r"), Obs(6, "srt"), Eq(6, 1),
            Starve(Load(3, bw), k), Obs(3, "srt"), Eq(3, 6), Obs(1, "srt"), Obs(5, "s"),
            New(7), Starve(Yload(7, t, v, 0), k), Obs(7, "srt"), Eq(7, 1), Starve(Obs(7, "y"), k), Starve(Yload(7, t, w, 0), 1 - k),
            Obs(7, "srt"), Eq(7, 6), Obs(1, "srt"), [op |-> "end"] >>)
MemorySession(name, t, i) ==
    WithValue(LAMBDA v, b : WithValue(LAMBDA w, bw :
        MemoryOf(name, t, v, w, b, bw, SubSeq(b, 1, IF i % 2 = 0 \/ Len(b) < 2 THEN Max({0, Len(b) - 1}) ELSE RandomElement(1..(Len(b) - 1))), i % 2),
        t, ValueFor(t, i + 1)), t, IF i % 2 = 1 THEN SizedVal(t, 3) ELSE ValueFor(t, i))

DefaultSession(name, t) ==
    Sess(name, << >>, << New(1), Obs(1, IF IsState(name) THEN "srz" ELSE "srytzp"), New(2), New(3), New(4), Obs(2, "sr"), Eq(1, 2), Eq(3, 4),
                         New(1), Obs(1, "sr"), Obs(3, "sry"), Obs(4, "s"), Op2("rt", 5, 3), Op2("copy", 6, 4), Obs(6, "s"), Eq(6, 1) >>)
BigDefault(name, t) == Sess(name, << >>, << New(1), Obs(1, "srz"), New(2), Obs(2, "r"), Eq(1, 2) >>)

(***************************************************************************)
(* many sessions at once                                                   *)
(***************************************************************************)
TogetherOf(name, t, v, w, b, bw) ==
    Sess(name, <<b>>,
         << New(1), [op |-> "pobs", o |-> 1, w |-> IF IsState(name) THEN "sr" ELSE "srytz", k |-> 3],
            Load(1, b), [op |-> "pobs", o |-> 1, w |-> IF IsState(name) THEN "srt" ELSE "srytzp", k |-> 3],
            Yload(2, t, v, 0), Eq(1, 2), Load(3, bw), Eq(1, 3), Obs(3, "sry"), Op2("asg", 2, 3), Obs(2, "srt"),
            Op2("rt", 4, 1), Yrt(5, 3, 1) >>
         \o (IF Len(b) = 0 THEN << >> ELSE << PatchOp(6, 1, << <<1, 255>> >>, Len(b)), PatchOp(6, 1, << >>, Len(b) - 1), Obs(6, "sr") >>)
         \o (IF name = "Validator" THEN << Vp(1, v[6]), Vp(1, v[7]) >>
             ELSE IF name = "AttestationData" THEN << Op2("votes", 1, 3), Op2("votes", 1, 1) >>
             ELSE IF name = "IndexedAttestation" THEN << [op |-> "valid", o |-> 1], [op |-> "valid", o |-> 3] >> ELSE << >>))
TogetherSession(name, t, i) ==
    WithValue(LAMBDA v, b : Force(LAMBDA w : TogetherOf(name, t, v, w, b, Ser(t, w)), ValueFor(t, i + 1)), t, ValueFor(t, i))

Encode(name, t, i) == ObserveSession("syrz", name, t, i)
RootS(name, t, i) == ObserveSession("srytz", name, t, i)
Sessions(dummy) ==
    CASE Plan = "encode" -> PerType(Encode, 1) \o Bigs(0)
      [] Plan = "root" -> PerType(RootS, 1) \o Sweep(0) \o DeepLimits(0)
      [] Plan = "yaml" -> PerType(YamlSession, 1)
      [] Plan = "round" -> PerType(RoundSession, 1) \o PerType(CanonSession, 1) \o Bigs(0)
      [] Plan = "canon" -> PerType(CanonSession, 1) \o Tiny(0)
      [] Plan = "hostile" -> PerType(HostileSession, 1)
      [] Plan = "limits" -> Limits(0)
      [] Plan = "text" -> PerType(TextSession, 1)
      [] Plan = "equal" -> PerType(EqualSession, 1) \o Once(EqualFull) \o EqualBigs(0)
      [] Plan = "history" -> PerType(HistorySession, 1) \o PerType(RewriteSession, 1) \o LongRewrites(0)
      [] Plan = "memory" -> PerType(MemorySession, 1)
      [] Plan = "parts" -> PerType(PartsSession, 1) \o Shown(0)
      [] Plan = "validator" -> Tup([i \in 1..(40 * Scale) |-> ValidatorSession(i)])
      [] Plan = "votes" -> Tup([i \in 1..(30 * Scale) |-> VotesSession(i)])
      [] Plan = "indexed" -> Tup([i \in 1..(60 * Scale) |-> IndexedSession(i)])
             \o FlattenSeq(Tup([i \in 1..Scale |-> LET ns == <<50, 64, 65, 66, 127, 129, 257, 512, 600, 1025, 2047, 2048>>
                                                  IN Tup([j \in 1..Len(ns) |-> LongIndexedSession(i, ns[j])])]))
      [] Plan = "together" -> PerType(TogetherSession, 1)
      [] Plan = "preset" ->   \* the types whose shape the preset determines
             PerType(LAMBDA n, t, i : IF IsState(n) THEN DescribedSession(n, t, i)
                                      ELSE CASE i % 5 = 0 -> EqualSession(n, t, i) [] i % 5 = 1 -> ObserveSession("srytzp", n, t, i)
                                             [] i % 5 = 2 -> RoundSession(n, t, i) [] i % 5 = 3 -> HistorySession(n, t, i)
                                             [] OTHER -> CanonSession(n, t, i), 1)
      [] Plan = "many" -> FlattenSeq(Tup([j \in 1..Len(Selected) |-> Many(Selected[j], TypeOf[Selected[j]])]))
      [] Plan = "defaults" -> Tup([j \in 1..Len(Selected) |->
             IF Preset = "mainnet" /\ IsState(Selected[j]) THEN BigDefault(Selected[j], TypeOf[Selected[j]])
             ELSE DefaultSession(Selected[j], TypeOf[Selected[j]])])

ASSUME ndJsonSerialize(IOEnv.OUT, Sessions(0))
=============================================================================
