------------------------------ MODULE PrimTrace ------------------------------
(***************************************************************************)
(* Judges the recorded results of the operations of PrimScenarios.         *)
(* Classes: bytes (C19), parse (texts that are refused or decoded), math   *)
(* (C20), const (C21), crash.                                              *)
(***************************************************************************)
EXTENDS ByteAlgebra, Presets, TLC, Json, IOUtils
CONSTANT Focus

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

AllAre(outs, b) == \A j \in 1..Len(outs) : outs[j] = b
\* a text that must be read wrongly: the parser's fault, and the byte string's if it is how that prints
ParseClass(e, want, printed) ==
    IF want.is = "any" THEN {}
    ELSE IF want.is = "no" THEN (IF e.x THEN {} ELSE {"parse"})
    ELSE IF e.x \/ e.r # want.b THEN (IF printed THEN {"bytes", "parse"} ELSE {"parse"}) ELSE {}
Lower(s) == \A i \in 1..Len(s) : s[i] \notin 65..90
Number(s) == IF \A i \in 1..Len(s) : IsDigit(s[i]) THEN [is |-> "ok", b |-> <<HexNumber(s, 1, 0)>>]
             ELSE [is |-> "no", b |-> << >>]
BytesRight(e) ==
    CASE e.op = "fi" -> AllAre(e.outs, FromInt(e.v, e.n))
      [] e.op = "ti" -> e.r = e.b /\ e.h = e.b
      [] e.op = "tx" -> e.r = HexText(e.b) /\ e.h = HexText(e.b)
      [] e.op = "cat" -> e.r = e.a \o e.b /\ e.n = Len(e.a) + Len(e.b)
      [] e.op = "xor" -> e.r = Xor(e.a, e.b) /\ e.back = e.a /\ e.right = e.b
      [] e.op = "ix" -> AllAre(e.outs, e.b) /\ e.n = Len(e.b) /\ e.m = Len(e.b)
      [] e.op = "wr" -> e.r = [e.b EXCEPT ![e.i + 1] = e.v]
      [] e.op \in {"eq", "ev"} -> e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b) /\ e.sw = (e.a = e.b)
      [] e.op = "slot" -> AllAre(e.outs, e.v)
      [] e.op = "bool" -> AllAre(e.outs, <<e.v>>)

MathRight(f, w, x, r) == IF f = "l" THEN r = NatLE(Log2CeilLE(x), w) ELSE IsSqrt(r, x)
Succ(b) == SubSeq(AddLE(b, <<1>> \o Zeros(Len(b) - 1)), 1, Len(b))
\* every function here is monotone, so a constant run is right when its ends are
RunsRight(e) ==
    /\ Len(e.runs) > 0 /\ e.runs[Len(e.runs)][2] = e.hi
    /\ \A k \in 1..Len(e.runs) :
         /\ e.runs[k][1] = (IF k = 1 THEN e.lo ELSE Succ(e.runs[k - 1][2]))
         /\ LeLE(e.runs[k][1], e.runs[k][2])
         /\ MathRight(e.f, e.w, e.runs[k][1], e.runs[k][3])
         /\ MathRight(e.f, e.w, e.runs[k][2], e.runs[k][3])

Judge(e) ==
    IF "crash" \in DOMAIN e THEN {"crash"}
    ELSE CASE e.op = "ps" -> LET want == Parse(e.s, e.n) IN ParseClass(e, want, want.is = "ok" /\ e.s = HexText(want.b))
           [] e.op = "hx" -> ParseClass(e, Number(<<e.v>>), Lower(<<e.v>>))
           [] e.op = "hs" -> ParseClass(e, Number(e.s), Lower(e.s))
           [] e.op = "math" -> IF MathRight(e.f, e.w, e.x, e.r) THEN {} ELSE {"math"}
           [] e.op = "sweep" -> IF RunsRight(e) THEN {} ELSE {"math"}
           [] e.op = "const" -> IF e.r = Constant(e.preset, e.name) THEN {} ELSE {"const"}
           [] OTHER -> IF BytesRight(e) THEN {} ELSE {"bytes"}

Init == l \in 1..Len(Lines) /\ bad = {"?"}
Next == bad = {"?"} /\ bad' = Judge(Lines[l]) /\ UNCHANGED l
        /\ (bad' \cap Focus = {} /\ bad' # {} => PrintT(<<"CUT", l, bad'>>))
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Focus = {}
=============================================================================
