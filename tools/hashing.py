"""Batch hashing: calls generated by TLC, run on the real backends, judged by TLC."""
import json, os, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
from common import *
import ssz

ALL = ("SSE", "AVX", "AVX2", "SHA", "NONE", "AUTO")
QEMU_CPUS = ["max", "SandyBridge", "Haswell", "Denverton", "EPYC", "Nehalem", "max,-sha-ni", "max,-avx2", "max,-avx2,-sha-ni",
             "SandyBridge,level=6", "max,level=6", "max,-avx,-avx2", "max,-sse3,-sha-ni", "Broadwell", "Skylake-Client",
             "Haswell,level=5", "Penryn", "Opteron_G4", "Snowridge"]


# qemu's vinserti128 loads 32 bytes where the processor loads 16, so what runs there keeps this far from a page that faults
QEMU = ("qemu-x86_64", "-cpu", "max", "-E", "MAMMON_SLACK=64")
NEEDS = {"SHA": {"sha_ni", "avx"}, "AVX2": {"avx2", "avx"}, "AVX": {"avx"}, "SSE": {"avx"}}


def flags():
    try:
        return set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception:
        return set()


def prefix_of(backend):
    """() where this machine has the backend's instructions, else the emulator."""
    return () if NEEDS.get(backend, set()) <= flags() else QEMU


def native_runs_all():
    return not any(prefix_of(b) for b in NEEDS)


def prefix_of_event(e):
    calls = e["calls"] if "calls" in e else [e["a"], e["b"]] if e["op"] == "nest" else [e]
    return next((p for p in (prefix_of(c.get("be")) for c in calls) if p), ())


def scenarios(work, plan, pool, maxn, big, backends=ALL):
    out = work.path("hs_%s.json" % plan)
    cfg = 'CONSTANTS Plan = "%s"\n PoolSize = %d\n MaxN = %d\n Big = %d\n Backends = {%s}\n' % (
        plan, pool, maxn, big, ", ".join('"%s"' % b for b in backends))
    r = tlc(work, "gen_" + plan, "HashScenarios", cfg, env={"OUT": out}, seed=SEED, workers=1)
    if not r.ok or not os.path.exists(out):
        raise Broken("scenario generation failed\n" + tail(r.out, 3000))
    with open(out) as f:
        return json.load(f)


def blocks(c):
    return "%d %d %d %d %d" % (c["n"], c["s"], c["k"], *c["z"])


def conc(c):
    return "%s %s" % (c["be"], blocks(c))


def le(b):
    return int.from_bytes(bytes(b), "little")


def line(c):
    op = c["op"]
    if op in ("tree", "bytes"):
        what = blocks(c) if op == "tree" else bytes(c["b"]).hex() or "-"
        return "%s %s %s %d %d %s" % (op, what, c["side"], le(c["lim"]), len(c["mix"]), " ".join(str(le(m)) for m in c["mix"]))
    if op == "call":
        return "call %s %s %d %s %d %d" % (conc(c), c["im"], c["io"], c["om"], c["oo"], c["sp"])
    if op == "huge":
        return "huge %s %s" % (c["be"], c["n"])
    if op == "pick":
        return "pick %d %d" % (c["req"], c.get("run", 1))
    if op == "threads":
        return "threads %d %d %d %s" % (c["t"], c["r"], len(c["calls"]), " ".join(conc(x) for x in c["calls"]))
    if op == "solo":
        return "solo %d %s" % (len(c["calls"]), " ".join(conc(x) for x in c["calls"]))
    if op == "nest":
        return "nest %s %s" % (conc(c["a"]), conc(c["b"]))
    return op


def execute(work, exe, pool, events, tag, digs, prefix=(), limit=600):
    """Runs the events in one process (restarted after a death); returns them with their outcomes."""
    src = work.path("hp_%s.txt" % tag)
    with open(src, "w") as f:
        f.write("".join("pool %s\n" % bytes(b).hex() for b in pool))
        f.write("".join(line(e) + "\n" for e in events))
    outs, start = [None] * len(events), 0
    while start < len(events):
        p = None
        try:
            p = subprocess.run([*prefix, exe, src, str(start)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit)
            text, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as e:
            text, rc = (e.stdout or b"").decode(errors="replace"), "hang"
        table = {}
        for l in text.split("\n"):
            if l.startswith("D "):
                table[len(table) + 1] = digs.setdefault(l[2:], len(digs) + 1)
            elif l.startswith("{"):
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                def remap(x):
                    return [remap(y) for y in x] if isinstance(x, list) else table[x]
                for k in ("out", "outs", "solo"):
                    if k in o:
                        o[k] = remap(o[k])
                outs[o.pop("i")] = o
        done = max([i + 1 for i in range(len(events)) if outs[i] is not None] + [start])
        if rc == 0:
            break
        if done < len(events):
            outs[done] = {"crash": str(rc)}
        start = done + 1
    res = []
    for e, o in zip(events, outs):
        if o is None:
            raise Broken("no outcome for " + line(e))
        res.append(dict(e, **o))
    return res


def judge(work, pool, events, digs, focus, tag, module="HashTrace"):
    path = work.path("ht_%s.json" % tag)
    table = [list(bytes.fromhex(h)) for h, _ in sorted(digs.items(), key=lambda x: x[1])]
    with open(path, "w") as f:
        f.write(json.dumps({"pool": pool, "digs": table}) + "\n")
        for e in events:
            f.write(json.dumps(e) + "\n")
    cfg = "SPECIFICATION Spec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\nCONSTANT Focus = {%s}\n" % ", ".join('"%s"' % x for x in sorted(focus))
    r = tlc(work, "val_" + tag, module, cfg, env={"TRACE": path}, heap="8g")
    if r.invariant == "Conforms":
        st = last_state(r.out)
        return r, (int(st["l"]) - 2, st["bad"].strip('{}"'))
    if not r.ok:
        raise Broken("trace validation failed\n" + tail(r.out, 3000))
    if r.distinct != 2 * len(events):
        raise Broken("trace validation visited %d states, expected %d" % (r.distinct, 2 * len(events)))
    return r, None


def strip(e, keep):
    return {k: v for k, v in e.items() if k in keep}


def run_plan(work, exe, sc, focus, tag, prefix=(), parallel=True, module="HashTrace"):
    """Executes, judges, and repeats a rejection before believing it."""
    events = sc["ev"]
    for attempt in range(4):
        digs = {}
        if parallel and len(events) > 50:
            with ThreadPoolExecutor(CPUS) as ex:
                parts = list(ex.map(lambda k: execute_part(work, exe, sc["pool"], [events[i] for i in share(k, len(events))],
                                                           "%s_%d" % (tag, k), prefix), range(CPUS)))
            got = [None] * len(events)
            for k, (res, d) in enumerate(parts):
                back = {v: digs.setdefault(h, len(digs) + 1) for h, v in d.items()}
                for i, e in zip(share(k, len(events)), res):
                    got[i] = renumber(e, back)
        else:
            got, digs = execute_part(work, exe, sc["pool"], events, tag, prefix)
        r, bad = judge(work, sc["pool"], got, digs, focus, tag, module)
        if bad is None and attempt == 0:
            return r, got, None
        if bad is None:
            continue
        i, why = bad
        # once more, this call alone; for overlapping calls the same batch again
        for _ in range(6 if events[i]["op"] == "threads" else 1):
            again, d2 = execute_part(work, exe, sc["pool"], [events[i]], tag + "_again", prefix)
            r2, bad2 = judge(work, sc["pool"], again, d2, focus, tag + "_again", module)
            if bad2:
                e = again[0]
                return r, got, {"why": "%s: %s" % (bad2[1], json.dumps(e)[:700]),
                                "replay": {"event": events[i], "observed": e, "pool": sc["pool"], "kind": bad2[1]}}
        # or after what was run before it
        if events[i]["op"] != "threads" and len(events) > 1:
            every = before(i, len(events)) if parallel and len(events) > 50 else list(range(i + 1))
            for past in (every[-2 * RUN:], every):
                again, d2 = execute_part(work, exe, sc["pool"], [events[j] for j in past], tag + "_past", prefix)
                r2, bad2 = judge(work, sc["pool"], again, d2, focus, tag + "_past", module)
                if not bad2:
                    continue
                e = again[bad2[0]]
                return r, got, {"why": "%s after %d others: %s" % (bad2[1], bad2[0], json.dumps(e)[:700]),
                                "replay": {"events": [events[j] for j in past[:bad2[0] + 1]], "observed": e, "pool": sc["pool"], "kind": bad2[1]}}
    raise Broken("a rejection did not repeat: %s" % (bad or why,))


RUN = 40   # events that stay together, in order, in one process


def share(k, n):
    """The events the k-th process runs."""
    return [i for g in range(k * RUN, n, CPUS * RUN) for i in range(g, min(g + RUN, n))]


def before(i, n):
    """The event i and those run before it in the same process."""
    mine = next(x for x in (share(k, n) for k in range(CPUS)) if i in x)
    return [j for j in mine if j <= i]


def execute_part(work, exe, pool, events, tag, prefix):
    d = {}
    if not callable(prefix):
        return execute(work, exe, pool, events, tag, d, prefix), d
    got = [None] * len(events)
    for p in sorted({prefix(e) for e in events}):
        where = [i for i, e in enumerate(events) if prefix(e) == p]
        for i, e in zip(where, execute(work, exe, pool, [events[i] for i in where], tag, d, p)):
            got[i] = e
    return got, d


def renumber(e, back):
    def remap(x):
        return [remap(y) for y in x] if isinstance(x, list) else back[x]
    return dict(e, **{k: remap(e[k]) for k in ("out", "outs", "solo") if k in e})


def tally(cov, r, got, events=None):
    cov["states"] += r.distinct
    cov["transitions"] += max(1, r.generated - r.distinct // 2)
    cov["traces_validated_against_impl"] += len(got)
    for e in got:
        k = e["op"] + ":" + str(e.get("be", e.get("req", e.get("a", {}).get("be", ""))))
        cov["operations"][k] = cov["operations"].get(k, 0) + 1
    cov["blocks_hashed"] = cov.get("blocks_hashed", 0) + sum(e.get("n", 0) for e in got if e["op"] == "call")
    for e in got[:: max(1, len(got) // 3)][:3]:
        cov["samples"].append(json.dumps(e)[:600])


def new_cov():
    return {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "operations": {}, "design_models": {}}


BATCH_CFG = """SPECIFICATION Spec
CONSTANTS MaxBlocks = %d
 Contents = {%s}
 Pipelines <- %s
INVARIANTS InBounds Correct Prefix EachReadOnce
%s
"""


adding = threading.Lock()


def add_design(work, cov, name, module, cfg, **kw):
    r = design(work, name, module, cfg, **kw)
    with adding:
        cov["design_models"][name] = {"states": r.distinct, "refuted": bool(kw.get("expect_violation"))}
        cov["states"] += r.distinct
        cov["transitions"] += r.generated


def batch_designs(work, cov):
    live = "PROPERTY Returns"
    add_design(work, cov, "batch_long", "BatchHash", BATCH_CFG % (22 if THOROUGH else 14, "1", "RealPipelines", live), min_states=500)
    add_design(work, cov, "batch_contents", "BatchHash", BATCH_CFG % (5 if THOROUGH else 4, "1, 2, 3", "RealPipelines", live), min_states=500)
    add_design(work, cov, "batch_forgetful", "BatchHash", BATCH_CFG % (14, "1", "ForgetfulPipelines", ""), expect_violation=True)
    add_design(work, cov, "batch_greedy", "BatchHash", BATCH_CFG % (5, "1", "GreedyPipelines", ""), expect_violation=True)


def sha_test(work, cov):
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Same Zero\nCONSTANT N = %d\n" % (200 if THOROUGH else 24)
    add_design(work, cov, "sha256_override", "Sha256Test", cfg, min_states=8)


def prefix_all():
    return () if native_runs_all() else QEMU


def single_calls(work, plan, args, focus):
    """A plan on this machine, or under emulation if it lacks an extension."""
    cov = new_cov()
    with ThreadPoolExecutor(6) as ex:
        override_classes(work)
        exe = ex.submit(build_hash, work)
        sc = ex.submit(scenarios, work, plan, *args)
        d1 = ex.submit(batch_designs, work, cov)
        if plan == "values":
            sha_test(work, cov)
        exe, sc = exe.result(), sc.result()
        d1.result()
    log("built, %d calls" % len(sc["ev"]))
    r, got, bad = run_plan(work, exe, sc, focus, plan, prefix_of_event)
    tally(cov, r, got)
    cov["machine"] = "native" if native_runs_all() else "qemu for " + ", ".join(b for b in NEEDS if prefix_of(b))
    log("judged")
    return cov, bad


def values(work):
    return single_calls(work, "values", (1999, 200, 120) if THOROUGH else (499, 70, 20), {"digest", "crash"})


def edges(work):
    return single_calls(work, "edges", (251, 130, 80) if THOROUGH else (97, 50, 10), {"touch", "regs", "crash"})


def choice(work):
    cov = new_cov()
    add_design(work, cov, "dispatch", "Dispatch",
               "SPECIFICATION Spec\nINVARIANTS WordMatches NamedIsHonoured AutomaticIsRunnable AutomaticAgree\n", min_states=1000)
    override_classes(work)
    exe = build_hash(work, wrap=True)
    sc = scenarios(work, "picks", 11, 8, 1, ("SHA",))
    log("built")
    machines = [()] + [("qemu-x86_64", "-cpu", c) for c in QEMU_CPUS]
    cov["machines"] = {}

    def on(k):
        digs = {}
        res = execute(work, exe, sc["pool"], sc["ev"], "pick_%d" % k, digs, machines[k], 120)
        return res, digs

    def runs():
        with ThreadPoolExecutor(CPUS) as ex:
            return list(ex.map(on, range(len(machines))))

    def gather():
        events, digs, where = [], {}, []
        for k, (res, d) in enumerate(runs()):
            name = " ".join(machines[k][1:]) or "native"
            cap = next((e for e in res if e["op"] == "cap" and "adv" in e), None)
            if cap is None:
                log("no cpuid report on", name)
                if k == 0:
                    raise Broken("the harness does not run")
                if not all("crash" in e for e in res):
                    raise Broken("half a report on " + name)
                continue   # this CPU model does not start here
            back = {v: digs.setdefault(h, len(digs) + 1) for h, v in d.items()}
            cov["machines"][name] = sorted(cap["adv"])
            for e in res:
                e = renumber(e, back)
                e["adv"] = cap["adv"]
                events.append(e)
                where.append(name)
        return events, digs, where

    events, digs, where = gather()
    r, bad = judge(work, sc["pool"], events, digs, {"cap", "pick"}, "picks")
    if bad:
        events2, digs2, where2 = gather()
        r2, bad2 = judge(work, sc["pool"], events2, digs2, {"cap", "pick"}, "picks")
        if not bad2:
            raise Broken("a rejection did not repeat: %s" % (bad,))
        e = events2[bad2[0]]
        return cov, {"why": "%s on %s: %s" % (bad2[1], where2[bad2[0]], json.dumps(e)[:500]),
                     "replay": {"machine": where2[bad2[0]], "observed": e, "kind": bad2[1]}}
    tally(cov, r, events)
    return cov, None


THREADS_CFG = """SPECIFICATION Spec
CONSTANTS Threads = {%s}
 Blocks = %d
 MaxNest = %d
 Shared = %s
INVARIANT Alone
CHECK_DEADLOCK FALSE
"""


def overlap(work):
    """Batch calls on several threads at once, and one call interrupted at every instruction by another."""
    cov = new_cov()
    with ThreadPoolExecutor(4) as ex:
        override_classes(work)
        exe = ex.submit(build_hash, work)
        sc = ex.submit(scenarios, work, "concurrent", 61, 24, 12 if THOROUGH else 4)
        add_design(work, cov, "calls_private", "HashThreads", THREADS_CFG % (("1, 2, 3", 2, 1, "FALSE") if THOROUGH else ("1, 2", 2, 1, "FALSE")),
                   min_states=1000)
        add_design(work, cov, "calls_shared", "HashThreads", THREADS_CFG % ("1, 2", 1, 0, "TRUE"), expect_violation=True)
        add_design(work, cov, "calls_shared_nested", "HashThreads", THREADS_CFG % ("1", 1, 1, "TRUE"), expect_violation=True)
        exe, sc = exe.result(), sc.result()
    pre = prefix_all()
    if pre:   # no single-stepping under emulation
        sc["ev"] = [e for e in sc["ev"] if e["op"] != "nest"]
    log("built, %d overlapping batches" % len(sc["ev"]))

    def attempt(events, tag):
        digs = {}
        solo = execute(work, exe, sc["pool"], [{"op": "solo", "calls": [e["a"], e["b"]] if e["op"] == "nest" else e["calls"]} for e in events],
                       tag + "_solo", digs, pre)
        got = execute(work, exe, sc["pool"], events, tag, digs, pre)
        got = [dict(g, solo=s["outs"]) if "outs" in s else g for g, s in zip(got, solo)]
        r, bad = judge(work, sc["pool"], got, digs, {"alone"}, tag)
        return r, got, bad

    r, got, bad = attempt(sc["ev"], "overlap")
    log("ran and judged")
    if bad:
        for k in range(8):
            e = sc["ev"][bad[0]]
            r2, again, bad2 = attempt([e], "overlap_again")
            if bad2:
                return cov, {"why": "overlapping calls: %s" % json.dumps(again[0])[:600],
                             "replay": {"event": e, "observed": again[0], "pool": sc["pool"]}}
        raise Broken("a rejection did not repeat: %s" % (bad,))
    tally(cov, r, got)
    cov["machine"] = "native" if not pre else "qemu (no nesting)"
    return cov, None


TREE_CFG = """SPECIFICATION Spec
CONSTANTS MaxChunks = %d
 MaxLimit = %d
 Capacity <- %s
INVARIANTS NoOverrun NodesRight RootRight DefinitionsAgree NoJunkLeft
%s
CHECK_DEADLOCK FALSE
"""


def gen_trees(work, name, maxn, big, bign):
    out = work.path(name + ".json")
    g = tlc(work, "gen_" + name, "TreeScenarios", "CONSTANTS MaxN = %d\n Big = %d\n BigN = %d\n" % (maxn, big, bign), {"OUT": out}, SEED, 1)
    if not g.ok:
        raise Broken("scenario generation failed\n" + tail(g.out, 3000))
    return json.load(open(out))


def trees(focus):
    def go(work):
        cov = new_cov()
        with ThreadPoolExecutor(4) as ex:
            override_classes(work)
            exe = ex.submit(build_tree, work)
            g = ex.submit(gen_trees, work, "trees", *((300, 200, 5000) if THOROUGH else (130, 30, 2500)))
            add_design(work, cov, "merkle_machine", "MerkleMachine",
                       TREE_CFG % (24 if THOROUGH else 13, 40 if THOROUGH else 20, "RealCapacity", "PROPERTY Finishes"), min_states=1000)
            add_design(work, cov, "merkle_short_store", "MerkleMachine", TREE_CFG % (9, 12, "TightCapacity", ""), expect_violation=True)
            sc = g.result()
            exe = exe.result()
        log("built, %d trees" % len(sc["ev"]))
        r, got, bad = run_plan(work, exe, sc, focus, "trees", () , True, "TreeTrace")
        tally(cov, r, got)
        return cov, bad
    return go


BACKENDS_CFG = """SPECIFICATION Spec
CONSTANTS MaxChunks = %d
 MaxLimit = %d
 Place = "%s"
 Fault = "%s"
INVARIANTS SameRoot LevelRight
%s
CHECK_DEADLOCK FALSE
"""
TREE_CPUS = ["SandyBridge", "Haswell", "Denverton", "EPYC", "max", "max,-sha-ni"]   # every backend is the choice of one


def backends(work):
    """The same trees and the same objects with every backend, named or chosen by the CPU: every root is the specified one."""
    cov = new_cov()
    n, l = (24, 40) if THOROUGH else (13, 20)
    with ThreadPoolExecutor(6) as ex:
        override_classes(work)
        exe, custom, objects = ex.submit(build_tree, work), ex.submit(build_tree, work, True), ex.submit(build_ssz, work, MIN, False, True)
        few = ex.submit(gen_trees, work, "few_trees", 6, 3, 300)
        many = ex.submit(gen_trees, work, "trees", *((160, 60, 3000) if THOROUGH else (34, 12, 1500)))
        sess = ex.submit(ssz.generate, work, "root", "root", 12 if THOROUGH else 4, MIN, BACKEND_TYPES if not THOROUGH else (), SEED * 1000)
        add_design(work, cov, "tree_backends", "TreeBackends", BACKENDS_CFG % (n, l, "behind", "none", "PROPERTY Finishes"), min_states=1000)
        add_design(work, cov, "tree_backends_over", "TreeBackends", BACKENDS_CFG % (n, l, "over", "none", ""), min_states=1000)
        for place, fault in (("over", "backward"), ("behind", "rounded"), ("behind", "skipped")):
            add_design(work, cov, "tree_backends_" + fault, "TreeBackends", BACKENDS_CFG % (9, 12, place, fault, ""), expect_violation=True)
        exe, few, many, sess = exe.result(), few.result(), many.result(), sess.result()
        try:
            custom, objects = custom.result(), objects.result()
        except Broken as e:
            log("no choice of hasher for trees:", str(e)[:200])
            custom = objects = None
    log("built, %d trees, %d sessions" % (len(many["ev"]), len(sess)))
    focus = {"root", "nodes", "refuse", "crash"}
    runs = [(few, exe, "auto on " + c, ("qemu-x86_64", "-cpu", c, "-E", "MAMMON_SLACK=64")) for c in TREE_CPUS]
    if custom:
        runs += [(many, custom, b, (*prefix_of(b), "-E", "MAMMON_BACKEND=" + b) if prefix_of(b) else ("env", "MAMMON_BACKEND=" + b))
                 for b in ("SSE", "AVX", "AVX2", "SHA")]
    cov["runs"] = {}
    for k, (sc, exe, name, prefix) in enumerate(runs):
        if "qemu" in prefix[0] and run([*prefix, exe, "/dev/null"], timeout=60).returncode:
            cov["runs"][name] = "does not start"
            continue
        r, got, bad = run_plan(work, exe, sc, focus, "trees_%d" % k, prefix, True, "TreeTrace")
        tally(cov, r, got)
        cov["runs"][name] = len(got)
        if bad:
            bad["why"] = name + ": " + bad["why"]
            bad["replay"]["hasher"] = name
            return cov, bad
    log("trees judged")
    if objects:
        def objects_of(which, tag):
            all_, where = [], []
            for b in ("SSE", "AVX", "AVX2", "SHA"):
                tr, _ = ssz.replay(work, objects, which, "%s_%s" % (tag, b), {"MAMMON_BACKEND": b}, 60, prefix_of(b))
                all_ += tr
                where += [b] * len(tr)
            r, bad = ssz.validate(work, all_, {"root", "tl"}, tag, MIN)
            return all_, where, r, bad
        traces, where, r, bad = objects_of(sess, "objects")
        cov["states"] += r.distinct
        cov["transitions"] += max(0, r.generated - len(traces))
        cov["traces_validated_against_impl"] += len(traces)
        cov["runs"]["objects"] = len(traces)
        if bad:
            s = sess[bad[0] % len(sess)]
            again, where2, _, bad2 = objects_of([s], "objects_again")
            if not bad2:   # in the midst of the others
                again, where2, _, bad2 = objects_of(sess, "objects_again")
                s = sess[bad2[0] % len(sess)] if bad2 else s
            if not bad2:
                raise Broken("a rejection did not repeat: %s" % (bad,))
            return cov, {"why": "%s of a %s with the backend %s" % (bad2[2], s["t"], where2[bad2[0]]),
                         "replay": {"session": s, "observed": again[bad2[0]], "hasher": where2[bad2[0]], "kind": bad2[2]}}
        log("objects judged")
    return cov, None


MIN = "minimal"
BACKEND_TYPES = ("Fork", "Checkpoint", "Validator", "AttestationData", "Attestation", "IndexedAttestation", "DepositData", "Deposit",
                 "BeaconBlockHeader", "BeaconBlockBody", "SignedBeaconBlock", "HistoricalBatch", "BeaconState")
