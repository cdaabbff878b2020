"""Shared machinery: building the code under test, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself could not give an answer."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


class Work:
    """A scratch directory of one run, removed afterwards."""

    def __init__(self, name):
        self.dir = os.path.join(VERIF, ".work", "%s-%d" % (name, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def sub(self, name):
        p = self.path(name)
        os.makedirs(p, exist_ok=True)
        return p

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


# ---------------------------------------------------------------- building

DEFAULT_SSZ = """common/bitlist.cpp ssz/hasher.cpp ssz/hashtree.cpp ssz/sha256_shani.asm ssz/sha256_avx_one_block.asm
 ssz/sha256_avx.asm ssz/sha256_avx2.asm ssz/ssz_container.cpp beacon-chain/attestation.cpp
 beacon-chain/validator.cpp""".split()


def ssz_sources():
    try:
        text = re.sub(r"#.*", "", open(os.path.join(REPO, "CMakeLists.txt")).read())
        m = re.search(r"set\s*\(\s*ssz_sources\s+([^)]*)\)", text)
        got = m.group(1).split()
    except Exception:
        got = []
    got = [s for s in got if os.path.exists(os.path.join(REPO, s))]
    return got or DEFAULT_SSZ


def hash_sources():
    return [s for s in ssz_sources() if s.startswith("ssz/") and (s.endswith(".asm") or "hasher" in os.path.basename(s))]


_lock = threading.RLock()


def make_config(work, preset):
    """What cmake's configure_file would produce for the preset."""
    with _lock:
        return _make_config(work, preset)


def _make_config(work, preset):
    d = work.sub("inc_" + preset)
    text = open(os.path.join(REPO, "config", preset + ".hpp.in")).read()
    for pat in ("@%s@", "${%s}"):
        text = text.replace(pat % "CMAKE_SOURCE_DIR", REPO).replace(pat % "PROJECT_SOURCE_DIR", REPO)
    with open(os.path.join(d, "config.hpp"), "w") as f:
        f.write(text)
    os.makedirs(os.path.join(d, "include"), exist_ok=True)
    link = os.path.join(d, "include", "config.hpp")
    if not os.path.lexists(link):
        os.symlink("../config.hpp", link)
    return d


def compile_all(work, name, units, flags, libs, link_flags=(), std=("-std=c++20", "-w")):
    """units: list of (source, extra flags). Returns the path of the executable."""
    out = work.sub("obj_" + name)

    def one(i_unit):
        i, (src, extra) = i_unit
        obj = os.path.join(out, "%d_%s.o" % (i, os.path.basename(src)))
        if src.endswith(".asm"):
            r = run(["yasm", "-f", "elf64", "-I" + REPO, "-I" + REPO + "/ssz", "-o", obj, src], cwd=REPO)
            if r.returncode:
                raise Broken("yasm failed on %s\n%s" % (src, r.stderr.decode()[-2000:]))
            return obj
        err = ""
        for cc in ("g++", "clang++"):
            r = run([cc, *std, *flags, *extra, "-c", src, "-o", obj])
            if r.returncode == 0:
                return obj
            err += r.stderr.decode(errors="replace")[-2000:]
        raise Broken("cannot compile %s\n%s" % (src, err))

    with ThreadPoolExecutor(CPUS) as ex:
        objs = list(ex.map(one, enumerate(units)))
    exe = work.path(name)
    r = run(["g++", *link_flags, "-o", exe, *objs, *libs])
    if r.returncode:
        raise Broken("cannot link %s\n%s" % (name, r.stderr.decode(errors="replace")[-3000:]))
    return exe


SANITIZE = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-g1"]


TSAN = ["-fsanitize=thread", "-DNO_COUNTING", "-g1"]


CUSTOM = ["-DCUSTOM_HASHER"]   # the library's user supplies the hasher of its trees: harness/custom_hasher.cpp


def build_ssz(work, preset="minimal", sanitize=False, custom=False):
    """sanitize: False, True (addresses and undefined behaviour) or "thread"."""
    inc = make_config(work, preset)
    extra = TSAN if sanitize == "thread" else SANITIZE if sanitize else []
    flags = ["-O1", "-m64", "-I" + inc, "-I" + REPO, "-I" + HARNESS, *extra, *(CUSTOM if custom else [])]
    units = [(os.path.join(HARNESS, "ssz_types.cpp"), ["-DPART=%d" % p]) for p in (2, 5, 1, 4, 3)]
    units += [(os.path.join(HARNESS, "ssz_main.cpp"), [])]
    units += [(os.path.join(REPO, s), []) for s in ssz_sources()]
    if custom:
        units.append((os.path.join(HARNESS, "custom_hasher.cpp"), []))
    tag = "_custom" if custom else "_tsan" if sanitize == "thread" else "_san" if sanitize else ""
    return compile_all(work, "ssz_%s%s" % (preset, tag), units, flags,
                       ["-lyaml-cpp", "-lpthread"], extra)


WRAPPED = ["sha256_shani", "sha256_8_avx2", "sha256_4_avx", "sha256_1_avx"]


def build_hash(work, wrap=False):
    """Only the hasher and its assembly; wrap: note which backend's code a call enters."""
    units = [(os.path.join(REPO, s), []) for s in hash_sources()]
    main = os.path.join(HARNESS, "hash_main.cpp")
    flags = ["-O2", "-m64", "-I" + REPO]
    if wrap:
        try:
            return compile_all(work, "hash_wrap", units + [(main, ["-DWRAP"])], flags, ["-lpthread"],
                               ["-Wl," + ",".join("--wrap=" + x for x in WRAPPED)])
        except Broken:
            pass
    return compile_all(work, "hash", units + [(main, [])], flags, ["-lpthread"])


def tree_sources():
    return [s for s in ssz_sources() if s.startswith("ssz/")]


def build_tree(work, custom=False):
    inc = make_config(work, "minimal")
    mains = ["tree_main.cpp"] + (["custom_hasher.cpp"] if custom else [])
    units = [(os.path.join(REPO, s), []) for s in tree_sources()] + [(os.path.join(HARNESS, m), []) for m in mains]
    return compile_all(work, "tree_custom" if custom else "tree", units,
                       ["-O2", "-m64", "-I" + inc, "-I" + REPO, *(CUSTOM if custom else [])], ["-lyaml-cpp", "-lpthread"])


# ---------------------------------------------------------------- TLC

_override = {}


def override_classes(work):
    """Java implementation of Sha256Fast!Digest; without it TLC evaluates the TLA+ definition."""
    with _lock:
        return _override_classes(work)


def _override_classes(work):
    if work.dir not in _override:
        d = work.sub("java")
        r = run(["javac", "-cp", JARS.split(":")[0], "-d", d, os.path.join(VERIF, "java", "Sha256Fast.java")])
        _override[work.dir] = d if r.returncode == 0 else None
    return _override[work.dir]


class TlcResult:
    pass


def tlc(work, name, module, cfg, env=None, seed=None, workers=None, timeout=800, heap="5g", extra=(), fast_sha=True):
    meta = work.sub("tlc_" + name)
    cfgp = work.path(name + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cp = JARS
    if fast_sha:
        ov = override_classes(work)
        if ov:
            cp = ov + ":" + cp
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + meta, "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-workers", str(workers or CPUS), "-config", cfgp]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = run(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out = p.stdout.decode(errors="replace")
    r.rc = p.returncode
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", r.out)
    r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    r.ok = "No error has been found" in r.out
    m = re.search(r"Invariant (\S+) is violated", r.out)
    r.invariant = m.group(1) if m else None
    if not r.ok and not r.invariant:
        m = re.search(r"(?:Temporal properties were violated|Action property (\S+) is violated|is not satisfied)", r.out)
        if m:
            r.invariant = m.group(1) or "property"
    return r


def last_state(out):
    """The variables of the last state TLC printed, as text."""
    blocks = re.split(r"\nState \d+:[^\n]*\n", out)
    if len(blocks) < 2:
        return {}
    return dict(re.findall(r"^(?:/\\ )?(\w+) = (.*)$", blocks[-1], re.M))


def design(work, name, module, cfg, expect_violation=False, min_states=1, timeout=600, extra=()):
    """Checks a design model; a failure here is an error of the specification, not of the code."""
    r = tlc(work, name, module, cfg, timeout=timeout, extra=extra)
    if expect_violation:
        if not r.invariant:
            raise Broken("%s: the deliberately broken variant was not refuted\n%s" % (name, r.out[-1500:]))
    elif not r.ok:
        raise Broken("%s: design model failed\n%s" % (name, r.out[-3000:]))
    elif r.distinct < min_states:
        raise Broken("%s: only %d states" % (name, r.distinct))
    return r


# ---------------------------------------------------------------- reporting

def violation(pid, replay, why):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, TIER))
    with open(path, "w") as f:
        json.dump({"property": pid, "why": why, "seed": SEED, "tier": TIER, "replay": replay}, f, indent=1)
    print("reason: " + why)
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return path


def tail(text, n=1500):
    return text[-n:]
