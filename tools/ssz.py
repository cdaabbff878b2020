"""SSZ objects: generate histories with TLC, replay them in the library, have TLC judge the record."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *

HIST = ["accept", "overlimit", "reject", "loadexc", "alloc", "yaccept", "yover", "yreject", "yexc", "ser", "len", "root", "yaml", "rp",
        "tl", "size", "obsexc", "overroot", "eq", "rt", "yrt", "crash", "active", "slashable", "eligible", "votes",
        "valid"] + ["value:" + s for s in "dbyzcw"] + ["part", "mem", "leak"] + ["w:" + s for s in ("ser", "len", "root", "yaml", "eq")]


def generate(work, tag, plan, scale, preset="minimal", names=(), seed=None):
    out = work.path("sc_%s.json" % tag)
    cfg = ('CONSTANTS OffsetBytes = 4\n Preset = "%s"\n Plan = "%s"\n Scale = %d\n Names = {%s}\n'
           % (preset, plan, scale, ", ".join('"%s"' % n for n in names)))
    r = tlc(work, "gen_" + tag, "SszScenarios", cfg, env={"OUT": out}, seed=SEED if seed is None else seed, workers=1)
    if not r.ok or not os.path.exists(out):
        raise Broken("scenario generation failed\n" + tail(r.out, 3000))
    with open(out) as f:
        return [json.loads(l) for l in f if l.strip()]


def hexs(b):
    return bytes(b).hex() or "-"


def spelt(y):
    """The tree with its runs (one node n times, the m-th of them another) written out."""
    if y["k"] == "r":
        xs = [spelt(y["x"])] * y["n"]
        if y["m"]:
            xs[y["m"] - 1] = spelt(y["y"])
        return {"k": "q", "q": xs}
    return {**y, "q": [spelt(c) for c in y["q"]]} if "q" in y else y


def tree_text(y):
    """The tree for YAML::Node construction."""
    if y["k"] == "s":
        return "s" + y["s"].encode().hex() + ";"
    if y["k"] == "q":
        return "q%d;" % len(y["q"]) + "".join(tree_text(c) for c in y["q"])
    return "m%d;" % len(y["f"]) + "".join("s" + k.encode().hex() + ";" + tree_text(c) for k, c in zip(y["f"], y["q"]))


def flow(y):
    """The tree as YAML text."""
    if y["k"] == "s":
        s = y["s"]
        if re.fullmatch(r"[0-9]+|true|false|abc|zero|maybe", s):
            return s
        return "'%s'" % s if re.fullmatch(r"[0-9A-Za-z]*", s) else json.dumps(s)
    if y["k"] == "q":
        return "[" + ", ".join(flow(c) for c in y["q"]) + "]"
    return "{" + ", ".join("%s: %s" % (k, flow(c)) for k, c in zip(y["f"], y["q"])) + "}"


PARTS = {"get": "g", "items": "i", "bits": "b", "set": "s", "push": "a", "num": "n", "setn": "w"}


def command(c):
    op = c["op"]
    if op == "new":
        return "new %d" % c["o"]
    if op == "load":
        return "load %d %s" % (c["o"], hexs(c["b"]))
    if op in ("loadr", "serr"):
        return "%s %d %s" % (op, c["o"], " ".join("%s*%d" % (hexs(r["b"]), r["n"]) for r in c["runs"]))
    if op == "patch":
        return "patch %d %d %d %s" % (c["o"], c["k"], c["n"], " ".join("%d:%d" % tuple(e) for e in c["ed"]))
    if op in ("yloadr", "yserr"):
        y = spelt(c["y"])
        return "yserr %d %s" % (c["o"], tree_text(y)) if op == "yserr" else command({**c, "op": "yload", "y": y})
    if op in ("yload", "yany"):
        if c["form"]:
            return "ytext %d %s" % (c["o"], flow(c["y"]).encode().hex())
        return "ynode %d %s" % (c["o"], tree_text(c["y"]))
    if op == "obs":
        return "obs %d %s" % (c["o"], c["w"])
    if op == "pobs":
        return "pobs %d %s %d" % (c["o"], c["w"], c["k"])
    if op in ("eq", "copy", "asg", "mcopy", "masg", "votes", "rt"):
        return "%s %d %d" % (op, c["a"], c["b"])
    if op == "yrt":
        return "yrt %d %d %d" % (c["a"], c["b"], c["form"])
    if op == "lim":
        m = c["m"]
        return "lim %d %d" % (c["o"], m if m >= 0 else min(2 ** ((-2 - m) % 100) + (-2 - m) // 100, 2 ** 64 - 1))
    if op in PARTS:
        return "part %d %s %s" % (c["o"], PARTS[op], c["at"]) + (" " + hexs(c["b"]) if "b" in c else "")
    if op == "vp":
        return "vp %d %d" % (c["o"], int.from_bytes(bytes(c["ep"]), "little"))
    if op == "valid":
        return "valid %d" % c["o"]
    if op == "starve":
        do = c["do"]
        rest = {"new": lambda: "", "load": lambda: hexs(c["b"]), "yload": lambda: tree_text(c["y"]), "obs": lambda: c["w"]}.get(do, lambda: str(c["b"]))()
        return "starve %d %s %d %s" % (c["on"], do, c["a"] if do in ("eq", "copy", "asg") else c["o"], rest)
    if op == "end":
        return "end"
    raise Broken("unknown command " + op)


def write_session(f, i, s):
    f.write("S %d %s\n" % (i, s["t"]))
    for b in s["bases"]:
        f.write("base %s\n" % hexs(b))
    for c in s["ev"]:
        if c["op"] != "mark":
            f.write(command(c) + "\n")


def merge(s, outs):
    """The events of the session with their outcomes."""
    ev, k = [], 0
    for c in s["ev"]:
        e = {x: y for x, y in c.items() if not (x == "y" and (c["op"] in ("yload", "yloadr", "yserr") or c.get("do") == "yload")) and x not in ("w", "form")}
        if c["op"] != "mark":
            if k >= len(outs):
                raise Broken("outcomes missing in a session of %s" % s["t"])
            e.update(outs[k])
            k += 1
        ev.append(e)
        if "crash" in e:
            break
    return {"t": s["t"], "bases": s["bases"], "ev": ev}


def replay(work, exe, sessions, tag, env=None, session_limit=20, prefix=()):
    """Runs the sessions; returns them with outcomes merged into their events."""
    n = min(CPUS, max(1, len(sessions)))
    order = sorted(range(len(sessions)), key=lambda i: -len(json.dumps(sessions[i]["bases"])) - 40 * len(sessions[i]["ev"]))
    shards = [order[k::n] for k in range(n)]

    def one(k):
        src = work.path("run_%s_%d.txt" % (tag, k))
        with open(src, "w") as f:
            for i in shards[k]:
                write_session(f, i, sessions[i])
        e = dict(os.environ)
        e.update(env or {})
        e["ASAN_OPTIONS"] = "exitcode=66:detect_leaks=0:max_allocation_size_mb=256:allocator_may_return_null=0:abort_on_error=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=66"
        with open(src + ".out", "w") as o, open(src + ".err", "w") as er:
            try:
                r = subprocess.run([*prefix, exe, src, str(session_limit)], stdout=o, stderr=er, timeout=800, env=e)
            except subprocess.TimeoutExpired:
                raise Broken("harness timed out")
        err = open(src + ".err", errors="replace").read()
        if r.returncode:
            raise Broken("harness failed: rc %d %s" % (r.returncode, err[-800:]))
        results, cur, pending = {}, None, None
        for line in open(src + ".out"):
            line = line.rstrip("\n")
            if line.startswith("S "):
                cur = int(line[2:])
                results[cur] = []
                if pending:
                    results[cur].append(pending)
                    pending = None
            elif line == "E":
                cur = None
            elif cur is None:
                pending = json.loads(line)
            else:
                results[cur].append(json.loads(line))
        return results, [x for x in err.splitlines() if "ERROR: AddressSanitizer" in x or "runtime error" in x]

    merged, notes = {}, []
    with ThreadPoolExecutor(n) as ex:
        for res, err in ex.map(one, range(n)):
            merged.update(res)
            notes += err
    traces = []
    for i, s in enumerate(sessions):
        if i not in merged:
            raise Broken("no outcome for session %d" % i)
        traces.append(merge(s, merged[i]))
    return traces, notes


TRACE_CFG = """SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
ALIAS Brief
CONSTANTS OffsetBytes = 4
 Preset = "%s"
 Focus = {%s}
 AllocPerByte = 1024
 AllocBase = 4096
"""


def validate(work, traces, focus, tag, preset="minimal"):
    path = work.path("trace_%s.json" % tag)
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    cfg = TRACE_CFG % (preset, ", ".join('"%s"' % x for x in sorted(focus)))
    r = tlc(work, "val_" + tag, "SszTrace", cfg, env={"TRACE": path}, heap="8g")
    if r.invariant == "Conforms":
        st = last_state(r.out)
        return r, (int(st["sid"]) - 1, int(st["l"]) - 2, st["bad"].strip('"'))
    if not r.ok:
        raise Broken("trace validation failed\n" + tail(r.out, 4000))
    expect = sum(len(t["ev"]) + 1 for t in traces)
    if r.distinct != expect:
        raise Broken("trace validation visited %d states, expected %d" % (r.distinct, expect))
    return r, None


def cuts(r):
    return [m for m in re.findall(r'<<"CUT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', r.out)]


def check(work, plans, focus, sanitize=False):
    """plans: list of (plan, scale, preset, names). Returns (coverage, violation or None)."""
    presets = sorted({p[2] for p in plans})
    jobs = {}
    with ThreadPoolExecutor(6) as ex:
        override_classes(work)
        exes = {p: ex.submit(build_ssz, work, p, sanitize) for p in presets}
        gens = [ex.submit(generate, work, "%d_%s" % (k, p[0]), p[0], p[1], p[2], p[3] if len(p) > 3 else (),
                          SEED * 1000 + k) for k, p in enumerate(plans)]
        exes = {p: f.result() for p, f in exes.items()}
        log("library and harness built")
        sess = [g.result() for g in gens]
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "events": 0, "operations": {},
           "disagreements_of_other_properties": 0, "plans": [list(p[:3]) for p in plans]}
    for p in presets:
        ks = [k for k in range(len(plans)) if plans[k][2] == p]
        sessions = [s for k in ks for s in sess[k]]
        log("%s: %d sessions, %d operations" % (p, len(sessions), sum(len(s["ev"]) for s in sessions)))
        attempts = 0
        while True:
            attempts += 1
            traces, notes = replay(work, exes[p], sessions, p)
            log("replayed")
            r, bad = validate(work, traces, focus, p, p)
            log("validated: %d states" % r.distinct)
            if bad is None and attempts == 1:
                break
            if bad is None and attempts < 6:
                continue
            if bad is None:
                raise Broken("a rejection did not repeat: %s" % (first,))
            if attempts == 1:
                first = bad
                # does it repeat?
                sid = bad[0]
                again, notes = replay(work, exes[p], [sessions[sid]], p + "_again")
                r2, bad2 = validate(work, again, focus, p + "_again", p)
                if bad2 is None:
                    continue
                traces = {sid: again[0]}
                bad = (sid, bad2[1], bad2[2])
            sid, l, why = bad
            tr = traces[sid]
            return cov, {"why": "%s: %s after operation %d of a %s session: %s" % (
                p, why, l + 1, tr["t"], json.dumps(tr["ev"][l] if l < len(tr["ev"]) else tr["ev"][-1])[:600]),
                "replay": {"preset": p, "session": sessions[sid], "observed": tr, "kind": why, "notes": notes[:5]}}
        cov["states"] += r.distinct
        cov["transitions"] += max(0, r.generated - len(sessions))
        cov["traces_validated_against_impl"] += len(traces)
        cov["events"] += sum(len(t["ev"]) for t in traces)
        cov["disagreements_of_other_properties"] += len(cuts(r))
        if cuts(r):
            log("others:", cuts(r)[:5], [traces[int(c[0]) - 1]["ev"][int(c[1]) - 1] for c in cuts(r)[:2]])
        for t in traces:
            for e in t["ev"]:
                k = e["op"] + (":" + e["r"] if isinstance(e.get("r"), str) else "")
                cov["operations"][k] = cov["operations"].get(k, 0) + 1
        for t in traces[:: max(1, len(traces) // 3)][:3]:
            s = json.dumps(t)
            cov["samples"].append(s if len(s) < 1500 else s[:1500] + "...")
    return cov, None


def together(work, scale, rounds):
    """Sessions on several threads of one process: everything they record must be what they record alone."""
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "events": 0, "operations": {},
           "design_models": {}}
    with ThreadPoolExecutor(4) as ex:
        override_classes(work)
        plain = ex.submit(build_ssz, work, "minimal", False)
        tsan = ex.submit(build_ssz, work, "minimal", "thread")
        sessions = ex.submit(generate, work, "together", "together", scale)
        plain, tsan, sessions = plain.result(), tsan.result(), sessions.result()
    log("built, %d sessions" % len(sessions))
    src = work.path("together.txt")
    with open(src, "w") as f:
        for i, s in enumerate(sessions):
            write_session(f, i, s)

    def once(exe, rounds, threads=CPUS):
        e = dict(os.environ, TSAN_OPTIONS="exitcode=0 halt_on_error=0 history_size=4 report_signal_unsafe=0 ignore_noninstrumented_modules=1")
        with open(src + ".out", "w") as o, open(src + ".err", "w") as er:
            rc = subprocess.run([exe, src, "400", str(threads), str(rounds)], stdout=o, stderr=er, timeout=600, env=e).returncode
        err = open(src + ".err", errors="replace").read()
        got, cur = [], None
        for line in open(src + ".out"):
            line = line.rstrip("\n")
            if line.startswith("S "):
                cur = (int(line[2:]), [])
            elif line == "E":
                got.append(cur)
            else:
                cur[1].append(json.loads(line))
        races = sorted(set(x for x in re.findall(r"SUMMARY: ThreadSanitizer: (data race[^\n]*)", err)
                           if not re.search(r"\(\S*/lib\S*\.so", x) or REPO in x))
        return rc, got, races, err

    def alone_ok(sid):
        tr, _ = replay(work, plain, [sessions[sid]], "alone")
        r, _ = validate(work, tr, set(), "alone")
        return not cuts(r)

    for name, exe, n in (("plain", plain, rounds), ("tsan", tsan, 2)):
        rc, got, races, err = once(exe, n)
        for k in range(3):
            if rc and "FATAL: ThreadSanitizer" in err:
                log("the race detector did not start; again")
                rc, got, races, err = once(exe, n)
        if rc and "FATAL: ThreadSanitizer" in err:
            cov["race_detector"] = "could not start"
            continue
        log("%s: rc %s, %d records, %d races" % (name, rc, len(got), len(races)))
        if rc:
            # a crash of the threads together: is it one of a single session?
            solo, _ = replay(work, plain, sessions, "solo")
            if any("crash" in t["ev"][-1] for t in solo if t["ev"]):
                cov["left_to_other_properties"] = "a session crashes even alone"
                continue
            again = [once(exe, n)[0] for _ in range(4)]
            if any(again):
                return cov, {"why": "sessions that run alone crash together (%s, exit %s)" % (name, rc),
                             "replay": {"sessions": [s["t"] for s in sessions], "exit": rc, "stderr": err[-2000:]}}
            raise Broken("a crash did not repeat: exit %s" % rc)
        traces = [merge(sessions[sid], outs) for sid, outs in got]
        who = [sid for sid, _ in got]
        if set(who) != set(range(len(sessions))):
            raise Broken("a session has no record")
        if name == "tsan":
            cov["race_detector"] = "on"
            for r in races[:20]:
                traces.append({"t": "Slot", "bases": [], "ev": [{"op": "race", "what": r}]})
        r, bad = validate(work, traces, {"race"}, "together_" + name)
        if bad:
            what = traces[bad[0]]["ev"][0]["what"]
            return cov, {"why": what, "replay": {"races": races, "stderr": err[:6000]}}
        for sid, l, why in cuts(r)[:6]:
            t = traces[int(sid) - 1]
            if alone_ok(who[int(sid) - 1]):
                return cov, {"why": "%s: %s only when run with others: %s" % (t["t"], why, json.dumps(t["ev"][int(l) - 1])[:500]),
                             "replay": {"session": sessions[who[int(sid) - 1]], "observed": t}}
            cov["left_to_other_properties"] = cov.get("left_to_other_properties", 0) + 1
        cov["states"] += r.distinct
        cov["transitions"] += max(0, r.generated - len(traces))
        cov["traces_validated_against_impl"] += len(traces)
        cov["events"] += sum(len(t["ev"]) for t in traces)
    return cov, None
