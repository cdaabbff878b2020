"""Byte strings, integer functions and constants: operations generated by TLC, run, judged by TLC."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
from hashing import new_cov, add_design


def generate(work, plan, scale):
    out = work.path("ps_%s.json" % plan)
    cfg = 'CONSTANTS Plan = "%s"\n Scale = %d\n' % (plan, scale)
    r = tlc(work, "gen_" + plan, "PrimScenarios", cfg, env={"OUT": out}, seed=SEED, workers=1)
    if not r.ok or not os.path.exists(out):
        raise Broken("scenario generation failed\n" + tail(r.out, 3000))
    return json.load(open(out))["ev"]


def h(b):
    return bytes(b).hex() or "-"


def line(e):
    op = e["op"]
    f = {"fi": "n w v", "ti": "n b", "tx": "n b", "ps": "n how s", "cat": "n m a b", "xor": "n a b", "ix": "n b",
         "wr": "n how b i v", "eq": "n m a b", "ev": "n a b", "slot": "v", "bool": "v", "hx": "v", "hs": "s",
         "math": "f w x", "sweep": "f w lo hi cap"}[op].split()
    return " ".join([op] + [h(e[k]) if isinstance(e[k], list) else str(e[k]) for k in f])


def build(work, name, flags):
    inc = make_config(work, "minimal")
    units = [(os.path.join(REPO, s), []) for s in tree_sources()] + [(os.path.join(HARNESS, "prim_main.cpp"), [])]
    return compile_all(work, name, units, [*flags, "-m64", "-I" + inc, "-I" + REPO], ["-lyaml-cpp", "-lpthread"])


def build_consts(work, preset, names):
    inc = make_config(work, preset)
    with open(os.path.join(inc, "consts.inc"), "w") as f:
        f.write("".join("K(%s)\n" % n for n in names))
    units = [(os.path.join(REPO, s), []) for s in tree_sources()] + [(os.path.join(HARNESS, "const_main.cpp"), [])]
    return compile_all(work, "const_" + preset, units, ["-O1", "-m64", "-I" + inc, "-I" + REPO], ["-lyaml-cpp"])


def execute(work, exe, events, tag):
    src = work.path("pp_%s.txt" % tag)
    with open(src, "w") as f:
        f.write("".join(line(e) + "\n" for e in events))
    outs, start = [None] * len(events), 0
    while start < len(events):
        try:
            p = subprocess.run([exe, src, str(start)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=700)
            text, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as e:
            text, rc = (e.stdout or b"").decode(errors="replace"), "hang"
        done = start
        for l in text.split("\n"):
            try:
                o = json.loads(l)
            except ValueError:
                continue
            done = o.pop("i") + 1
            outs[done - 1] = o
        if rc == 0:
            break
        if rc == 3:
            raise Broken("harness refused a command")
        if done < len(events):
            # output is buffered: find the event that died by running one at a time from here
            if start == done or events[done]["op"] == "sweep" or rc == "single":
                outs[done] = {"crash": str(rc)}
                done += 1
            else:
                outs[done] = single(work, exe, src, done)
                done += 1
        start = done
    return [dict(e, **o) for e, o in zip(events, outs)]


def single(work, exe, src, i):
    path = src + ".one"
    with open(path, "w") as f:
        f.write(open(src).read().split("\n")[i] + "\n")
    p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=700)
    if p.returncode:
        return {"crash": str(p.returncode)}
    o = json.loads(p.stdout)
    o.pop("i")
    return o


def judge(work, events, focus, tag):
    path = work.path("pt_%s.json" % tag)
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    cfg = "SPECIFICATION Spec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\nCONSTANT Focus = {%s}\n" % ", ".join('"%s"' % x for x in sorted(focus))
    r = tlc(work, "val_" + tag, "PrimTrace", cfg, env={"TRACE": path}, heap="8g")
    if r.invariant == "Conforms":
        st = last_state(r.out)
        return r, (int(st["l"]) - 1, st["bad"].strip('{}"'))
    if not r.ok:
        raise Broken("trace validation failed\n" + tail(r.out, 3000))
    if r.distinct != 2 * len(events):
        raise Broken("trace validation visited %d states, expected %d" % (r.distinct, 2 * len(events)))
    return r, None


def tally(cov, r, got):
    cov["states"] += r.distinct
    cov["transitions"] += max(1, r.generated - r.distinct // 2)
    cov["traces_validated_against_impl"] += len(got)
    for e in got:
        k = e["op"] + (":" + str(e["f"]) if "f" in e else "")
        cov["operations"][k] = cov["operations"].get(k, 0) + 1
    for e in got[:: max(1, len(got) // 3)][:3]:
        cov["samples"].append(json.dumps(e)[:500])


def cases(work, plan, scale, focus, builds, cov=None):
    """builds: list of (name, compiler flags)."""
    cov = cov or new_cov()
    with ThreadPoolExecutor(4) as ex:
        override_classes(work)
        exes = [(n, ex.submit(build, work, "prim_" + n, f)) for n, f in builds]
        ev = ex.submit(generate, work, plan, scale)
        exes = [(n, f.result()) for n, f in exes]
        ev = ev.result()
    log("built, %d operations" % len(ev))
    for n, exe in exes:
        got = execute(work, exe, ev, n)
        log("ran", n)
        r, bad = judge(work, got, focus, n)
        log("judged: %d states" % r.distinct)
        if bad:
            i, why = bad
            # alone, or after the ones before it
            for past in ([ev[i]], ev[:i + 1], ev):
                again = execute(work, exe, past, n + "_again")
                r2, bad2 = judge(work, again, focus, n + "_again")
                if bad2:
                    e = again[bad2[0]]
                    return cov, {"why": "%s (%s): %s" % (bad2[1], n, json.dumps(e)[:600]),
                                 "replay": {"build": n, "events": past[max(0, bad2[0] - 99):bad2[0] + 1], "observed": e, "kind": bad2[1]}}
            raise Broken("a rejection did not repeat: %s" % (bad,))
        tally(cov, r, got)
    return cov, None


def constants(work):
    cov = new_cov()
    ev = generate(work, "presets", 1)
    got = []
    for preset in ("minimal", "mainnet"):
        mine = [e for e in ev if e["preset"] == preset]
        exe = build_consts(work, preset, [e["name"] for e in mine])
        p = run([exe])
        if p.returncode:
            raise Broken("the constant printer failed")
        val = dict(l.split(" ", 1) for l in p.stdout.decode().splitlines())
        got += [dict(e, r=val[e["name"]]) for e in mine]
    r, bad = judge(work, got, {"const"}, "presets")
    if bad:
        e = got[bad[0]]
        return cov, {"why": "constant %s of the %s preset is %s" % (e["name"], e["preset"], e["r"]), "replay": e}
    tally(cov, r, got)
    return cov, None
