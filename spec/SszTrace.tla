------------------------------- MODULE SszTrace -------------------------------
(***************************************************************************)
(* Checks recorded runs of the library (one session per line) against      *)
(* SszObject. A session is a fixed sequence of operations on objects 1..9  *)
(* of one type, each with the outcome the code produced. Every event is    *)
(* one step, judged with every class of disagreement it shows. A check     *)
(* looks for some classes (Focus); bad names the first found. A            *)
(* disagreement of another class is another property's to report: the      *)
(* objects whose value it leaves in doubt are no longer judged, and the    *)
(* session goes on. After a mark only what the session did not show before *)
(* it counts (seen), so "h:" classes tell what history alone changed.      *)
(***************************************************************************)
EXTENDS SszObject, Json, IOUtils
CONSTANTS Focus, AllocPerByte, AllocBase   \* allocation bound in KiB

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, objs, bad, hist, seen

Slots == 1..9
S == Trace[sid]
T == TypeOf[S.t]
Has(e, f) == f \in DOMAIN e
InputOf(e) == IF e.op = "load" THEN e.b ELSE Patch(S.bases[e.k], e.ed, e.n)

RS(os, cs) == [objs |-> os, bad |-> cs]
R(os, c) == RS(os, IF c = "" THEN {} ELSE {c})
Put(i, o) == [objs EXCEPT ![i] = o]

(* -- loading bytes -- *)
JudgeLoad(e) ==
    LET o == objs[e.o]
        t == TypeWith(T, o)
        b == InputOf(e)
        d == Deser(t, b)
        over == ~d.ok /\ Deser(Unlimited(t), b).ok
        after == IF e.r = "t" THEN (IF d.ok THEN Holding(o, d.v, "b") ELSE Spoilt(o)) ELSE Spoilt(o)
    IN R(Put(e.o, after),
         CASE e.r \notin {"t", "f"} -> IF d.ok THEN "reject" ELSE "loadexc"
           [] e.al > AllocBase + (AllocPerByte * Len(b)) \div 1024 -> "alloc"
           [] e.r = "t" /\ ~d.ok -> IF over THEN "overlimit" ELSE "accept"
           [] e.r = "f" /\ d.ok -> "reject"
           [] OTHER -> "")

(* -- loading a described container -- *)
JudgeRuns(e) ==
    LET o == objs[e.o]
        fits == DescribedFits(T, e.d)
    IN IF e.runs # DescribedRuns(T, e.d, e.harm) THEN R(objs, "scenario")
       ELSE IF ~fits \/ e.harm # 0
       THEN R(Put(e.o, Spoilt(o)), IF e.r = "t" THEN (IF fits THEN "accept" ELSE "overlimit") ELSE IF e.r # "f" THEN "loadexc" ELSE "")
       ELSE IF e.r # "t" THEN R(Put(e.o, Spoilt(o)), "reject")
       ELSE RS(Put(e.o, Holding(o, Described(T, e.d), "b")), IF e.same THEN {} ELSE {"rt", "ser"})

\* giving its YAML, comparing its encoding and its YAML
JudgeYamlRuns(e) ==
    LET o == objs[e.o] ok == e.r = "t"
    IN IF ~DescribedFits(T, e.d) THEN R(Put(e.o, Spoilt(o)), IF ok THEN "yover" ELSE "")
       ELSE R(Put(e.o, IF ok THEN Holding(o, Described(T, e.d), "y") ELSE Spoilt(o)), IF ok THEN "" ELSE "yreject")
JudgeAgrees(e) ==
    LET o == objs[e.o]
    IN IF o.st # "known" THEN R(objs, "")
       ELSE IF o.v # Described(T, e.d) \/ (e.op = "serr" /\ e.runs # DescribedRuns(T, e.d, 0)) THEN R(objs, "scenario")
       ELSE R(objs, IF e.same THEN "" ELSE IF e.op = "yserr" THEN "yaml" ELSE IF e.long THEN "ser" ELSE "len")

(* -- loading YAML that spells the value encoded by e.b -- *)
JudgeYload(e) ==
    LET o == objs[e.o]
        d == Deser(TypeWith(T, o), e.b)
    IN IF ~d.ok
       THEN R(Put(e.o, Spoilt(o)), IF e.r = "t" THEN "yover" ELSE "")
       ELSE R(Put(e.o, IF e.r = "t" THEN Holding(o, d.v, "y") ELSE Spoilt(o)),
              IF e.r = "t" THEN "" ELSE "yreject")
(* -- loading arbitrary YAML -- *)
JudgeYany(e) ==
    LET o == objs[e.o]
        t == TypeWith(T, o)
        d == FromYaml(t, e.y)
        over == d.s = "bad" /\ FromYaml(Unlimited(t), e.y).s = "ok"
    IN CASE e.r = "t" /\ d.s = "bad" -> R(Put(e.o, Spoilt(o)), IF over THEN "yover" ELSE "yaccept")
         [] e.r # "t" /\ d.s = "ok" -> R(Put(e.o, Spoilt(o)), "yreject")
         [] e.r = "u" -> R(Put(e.o, Spoilt(o)), "yexc")
         [] e.r = "t" /\ d.s = "ok" -> R(Put(e.o, Holding(o, d.v, "z")), "")
         [] OTHER -> R(Put(e.o, Spoilt(o)), "")

(* -- observing -- *)
RootOk(t, v, e) == e.root = Htr(t, v)
Views(t, v, e) ==   \* <<name, agrees>> for each requested view of the value
    (IF Has(e, "ser") THEN Force(LAMBDA b : << <<IF Len(e.ser) = Len(b) THEN "ser" ELSE "len", e.ser = b>> >>, Ser(t, v)) ELSE << >>)
    \o (IF Has(e, "root") THEN << <<"root", RootOk(t, v, e)>> >> ELSE << >>)
    \o (IF Has(e, "yaml") THEN << <<"yaml", YamlIs(t, v, e.yaml)>> >> ELSE << >>)
Blame(vs, src) ==
    LET wrong == { i \in 1..Len(vs) : ~vs[i][2] }
    IN IF Len(vs) > 1 /\ Cardinality(wrong) = Len(vs) THEN {"value:" \o src}
       ELSE { (IF src = "w" THEN "w:" ELSE "") \o vs[i][1] : i \in wrong }
Doubt(cs) == \E c \in cs : c \in { "value:" \o x : x \in {"d", "b", "y", "z", "c", "w"} }
If(c, x) == IF c THEN {x} ELSE {}
ObsClasses(e, o, t) ==
    If(Has(e, "size") /\ e.size # DeclaredSize(T), "size") \cup
    (IF o.st # "known" THEN {}
     ELSE IF ~HasRoot(t, o.v) THEN If(Has(e, "root"), "overroot")
     ELSE IF e.x # "" THEN {"obsexc"}
     ELSE Blame(Views(t, o.v, e), o.src)
          \cup If(Has(e, "rp") /\ ~YamlIs(t, o.v, e.rp), "rp")
          \cup If(Has(e, "tl") /\ Has(e, "root") /\ e.tl # e.root, "tl"))
JudgeObs(e) ==
    LET o == objs[e.o]
    IN Force(LAMBDA cs : RS(IF Doubt(cs) THEN Put(e.o, Spoilt(o)) ELSE objs, cs), ObsClasses(e, o, TypeWith(T, o)))

\* what several threads saw of one object at the same time
JudgeTogether(e) ==
    RS(objs, UNION { If(~e.outs[i].same /\ objs[e.o].st = "known", "eq")
                     \cup JudgeObs([x \in (DOMAIN e.outs[i]) \cup {"o"} |-> IF x = "o" THEN e.o ELSE e.outs[i][x]]).bad
                     : i \in 1..Len(e.outs) })

JudgeEq(e) ==
    LET a == objs[e.a] b == objs[e.b]
    IN R(objs, IF \/ a.st = "known" /\ b.st = "known" /\ (e.eq # (a.v = b.v) \/ e.ne # (a.v # b.v))
                  \/ e.eq = e.ne
               THEN (IF "w" \in {a.src, b.src} THEN "w:eq" ELSE "eq") ELSE "")

(* -- decode(encode(b)) into a fresh object a -- *)
JudgeRt(e) ==
    LET b == objs[e.b]
        src == IF e.op = "rt" THEN "b" ELSE "y"
        good == e.r = "t" /\ e.eq /\ ~e.ne /\ e.ss /\ e.sr
    IN R(Put(e.a, IF b.st = "known" /\ good THEN Holding(NoObj, b.v, src) ELSE Spoilt(b)),
         IF good \/ b.st # "known" THEN "" ELSE e.op)

JudgeVp(e) ==
    LET v == objs[e.o].v
    IN R(objs, IF objs[e.o].st # "known" THEN ""
               ELSE IF e.act # IsActive(v, e.ep) THEN "active"
               ELSE IF e.sl # IsSlashableValidator(v, e.ep) THEN "slashable"
               ELSE IF e.el # IsEligible(v) THEN "eligible" ELSE "")

(* -- parts of an object -- *)
PartOf(e, t, v) ==   \* the verdict on what was read
    LET pt == PartType(t, e.p) x == PartVal(v, e.p)
    IN CASE e.op = "get" -> e.ser = Ser(pt, x)
         [] e.op = "bits" -> e.n = Len(x) /\ e.out = BitText(x, 1) /\ e.str = Yaml(pt, x).s /\ e.made = Ser(pt, x)
         [] e.op = "num" -> /\ e.num = IF pt.k = "bool" THEN ToString(x) ELSE Yaml(pt, x).s
                            /\ e.wide = Ser(pt, x) /\ e.made = Ser(pt, x)
         [] OTHER -> /\ e.n = Len(x) /\ Len(e.its) = Len(x) /\ e.again = e.its
                     /\ \A i \in 1..Len(x) : e.its[i] = Ser(pt.t, x[i])
JudgeRead(e) ==
    LET o == objs[e.o]
    IN R(objs, IF o.st # "known" THEN ""
               ELSE IF ~Reaches(T, o.v, e.p) \/ PathText(T, e.p) # e.at THEN "scenario"
               ELSE IF e.r # "t" \/ ~PartOf(e, TypeWith(T, o), o.v) THEN "part" ELSE "")
JudgeWrite(e) ==
    LET o == objs[e.o]
        pt == IF e.op = "push" THEN PartType(T, e.p).t ELSE PartType(T, e.p)
        d == Deser(pt, e.b)
    IN IF o.st # "known" THEN R(objs, "")
       ELSE IF ~Reaches(T, o.v, e.p) \/ ~Writable(T, e.p) \/ PathText(T, e.p) # e.at THEN R(objs, "scenario")
       ELSE IF e.r = "n" THEN R(Put(e.o, Spoilt(o)), "part")
       ELSE IF e.r # "t" \/ ~d.ok
            THEN R(Put(e.o, Spoilt(o)), IF d.ok THEN "reject" ELSE IF e.r = "t" THEN "accept" ELSE "")
       ELSE R(Put(e.o, Holding(o, WithPart(o.v, e.p, IF e.op = "push" THEN Append(PartVal(o.v, e.p), d.v) ELSE d.v), "w")), "")

(* -- memory -- *)
\* an operation tried again and again, its k-th allocation failing for ever larger k, and at last with none failing:
\* each failed try throws bad_alloc (b) or gives the last result all the same (k); the last is the operation
\* (text passes through streams, which turn an exception into a failed conversion or a short text: any outcome there)
Allowed(e) == {"b", "k"} \cup (IF e.do = "yload" \/ Has(e, "yaml") THEN {"w", "x"} ELSE {})
RECURSIVE Judge(_)
JudgeStarved(e) ==
    LET r == IF Has(e, "x") /\ e.x # "" THEN R(objs, "obsexc")
             ELSE Judge([x \in DOMAIN e |-> IF x = "op" THEN e.do ELSE e[x]])
    IN RS(r.objs, r.bad \cup If(ToSet(e.hows) \ Allowed(e) # {}, "mem"))
\* blocks the same session leaves behind, run again and again: the first time it may set up what lasts
JudgeEnd(e) == R(objs, IF \E i \in 2..Len(e.live) : e.live[i] > 0 THEN "leak" ELSE "")

Judge(e) ==
    CASE Has(e, "crash") -> R(objs, "crash")
      [] e.op = "starve" -> JudgeStarved(e)
      [] e.op = "end" -> JudgeEnd(e)
      [] e.op = "new" -> R(Put(e.o, Fresh(T)), "")
      [] e.op \in {"load", "patch"} -> JudgeLoad(e)
      [] e.op = "yloadr" -> JudgeYamlRuns(e)
      [] e.op \in {"serr", "yserr"} -> JudgeAgrees(e)
      [] e.op = "loadr" -> JudgeRuns(e)
      [] e.op = "yload" -> JudgeYload(e)
      [] e.op = "yany" -> JudgeYany(e)
      [] e.op = "obs" -> JudgeObs(e)
      [] e.op = "pobs" -> JudgeTogether(e)
      [] e.op = "race" -> R(objs, "race")   \* no behaviour has unordered conflicting accesses
      [] e.op = "eq" -> JudgeEq(e)
      [] e.op \in {"copy", "asg"} -> R(Put(e.a, CopyOf(objs[e.b])), "")
      [] e.op \in {"mcopy", "masg"} ->
           R([objs EXCEPT ![e.a] = CopyOf(objs[e.b]), ![e.b] = Spoilt(objs[e.b])], "")
      [] e.op \in {"rt", "yrt"} -> JudgeRt(e)
      [] e.op = "lim" -> R(Put(e.o, WithLimit(objs[e.o], e.m)), "")
      [] e.op = "vp" -> JudgeVp(e)
      [] e.op = "votes" -> R(objs, IF objs[e.a].st = "known" /\ objs[e.b].st = "known"
                                      /\ e.r # SlashableVotes(objs[e.a].v, objs[e.b].v) THEN "votes" ELSE "")
      [] e.op = "valid" -> R(objs, IF objs[e.o].st = "known" /\ e.r # ValidIndexed(objs[e.o].v)
                                   THEN "valid" ELSE "")
      [] e.op \in {"get", "items", "bits", "num"} -> JudgeRead(e)
      [] e.op \in {"set", "setn", "push"} -> JudgeWrite(e)
      [] e.op = "mark" -> R(objs, "")

Init == /\ sid \in 1..Len(Trace)
        /\ l = 1 /\ bad = "" /\ hist = FALSE /\ seen = {}
        /\ objs = [i \in Slots |-> NoObj]

\* what explains c when the session has shown it before
Explains(c) == {c} \cup { x \in {"ser", "len", "root", "yaml", "eq"} : c = "w:" \o x }
               \cup (IF c \in {"part", "value:w"} THEN {"ser", "len"} ELSE {})
Named(c) == IF hist THEN "h:" \o c ELSE c
Next ==
    /\ l <= Len(S.ev)
    /\ l' = l + 1
    /\ UNCHANGED sid
    /\ LET e == S.ev[l] IN
       /\ hist' = (hist \/ e.op = "mark")
       /\ IF bad # "" THEN UNCHANGED <<objs, bad, seen>>
          ELSE LET r == Judge(e)
                   hits == { c \in r.bad : Named(c) \in Focus /\ Explains(c) \cap seen = {} }
                   others == r.bad \ hits
               IN /\ objs' = r.objs
                  /\ bad' = IF hits # {} THEN Named(CHOOSE c \in hits : TRUE)
                            ELSE IF others \cap {"crash", "scenario"} # {} THEN "left" ELSE ""
                  /\ seen' = IF hist THEN seen ELSE seen \cup others
                  /\ IF others # {} /\ hits = {} THEN PrintT(<<"CUT", sid, l, others>>) ELSE TRUE

Brief == [sid |-> sid, l |-> l, bad |-> bad]

Spec == Init /\ [][Next]_<<sid, l, objs, bad, hist, seen>>

\* no event of the recorded runs breaks the property under scrutiny
Conforms == bad \notin Focus
=============================================================================
