#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's working tree."""
import json, os, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import ssz
import hashing
import prims

LEVEL = {}
K = 3 if THOROUGH else 1


def ssz_check(plans, focus, sanitize=False):
    return lambda work: ssz.check(work, plans, focus, sanitize)


def q(quick, thorough):
    return thorough if THOROUGH else quick


def both(*checks):
    """Runs the checks one after another, until one finds a violation; adds up what they covered."""
    def go(work):
        cov = None
        for c in checks:
            more, bad = c(work)
            cov = more if cov is None else add_up(cov, more)
            if bad:
                return cov, bad
        return cov, None
    return go


def add_up(a, b):
    for k, v in b.items():
        if k not in a:
            a[k] = v
        elif isinstance(v, dict):
            for x, y in v.items():
                a[k][x] = a[k][x] + y if isinstance(y, int) and x in a[k] else y
        elif isinstance(v, list):
            a[k] = a[k] + v
        elif isinstance(v, int) and not isinstance(v, bool):
            a[k] += v
    return a


def sqrt_design(work):
    cov = prims.new_cov()
    cfg = "CONSTANTS W = %d\n Error = 3\n Clamped = %s\n Margin = %d\nSPECIFICATION Spec\nINVARIANTS Exact Fast NoDivisionByZero Brackets\n%s"
    hashing.add_design(work, cov, "sqrt", "SqrtMachine", cfg % (q(8, 10), "TRUE", 1, "PROPERTY Finishes\n"), min_states=1000)
    hashing.add_design(work, cov, "sqrt_unclamped", "SqrtMachine", cfg % (8, "FALSE", 1, ""), expect_violation=True)
    hashing.add_design(work, cov, "sqrt_bisect_short", "SqrtMachine", cfg % (8, "TRUE", 0, ""), expect_violation=True)
    return cov, None


def models(*runs):
    """A check of design models: (name, module, configuration, what add_design takes)."""
    def go(work):
        cov = prims.new_cov()
        with ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(hashing.add_design, work, cov, name, module, cfg, **kw) for name, module, cfg, kw in runs]:
                f.result()
        log("design models: %d states" % cov["states"])
        return cov, None
    return go


HOLDS, FAILS = {"min_states": 80, "extra": ("-deadlock",)}, {"expect_violation": True, "extra": ("-deadlock",)}
SSZ_CFG = "CONSTANTS OffsetBytes = %d\n"
PRESET_CFG = "CONSTANTS OffsetBytes = 4\n Preset = \"minimal\"\n"
DECODER_GUARDS = ("space", "beyond", "ordered", "first", "aligned", "whole", "tail")


def names(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def decoder_run(name, offset, types, alphabet, length, guards=DECODER_GUARDS, extra="", kw=HOLDS):
    return (name, "SszDecoder", SSZ_CFG % offset +
            " Types = {%s}\n Alphabet = {%s}\n MaxLen = %d\n Guards = %s\n" % (types, alphabet, length, names(guards)) +
            "SPECIFICATION Spec\nINVARIANTS Inside AgreesWithDeser Linear Canonical\n" + extra, kw)


def decoder_models():
    some, short = "1, 2, 3, 4, 5, 6, 7", "0, 1, 2, 3, 4, 5"
    runs = [decoder_run("decoder_narrow", 1, some, short, q(4, 6), extra="PROPERTY Finishes\n" if not THOROUGH else ""),
            decoder_run("decoder_wide", 2, "2, 3, 4, 7", "0, 1, 2, 3, 4", q(5, 7))]
    for g in DECODER_GUARDS:
        o, n = (2, 5) if g == "aligned" else (1, 4)
        runs.append(decoder_run("decoder_without_" + g, o, some, short, n, [x for x in DECODER_GUARDS if x != g], "", FAILS))
    return models(*runs)


def encoder_run(fault, name="", offset=1, types="1, 2, 3, 4, 5, 6, 9", digits="0, 1", items=2, kw=FAILS):
    return ("encoder_" + fault + name, "SszEncoder", SSZ_CFG % offset +
            " Types = {%s}\n Digits = {%s}\n MaxItems = %d\n Fault = \"%s\"\n" % (types, digits, items, fault) +
            "SPECIFICATION Spec\nINVARIANTS Running Encodes ReadBack Sized Once Ends\n", kw)


def encoder_models():
    return models(encoder_run("none", digits=q("0, 1", "0, 1, 2"), kw=HOLDS),
                  encoder_run("none", "_wide", 4, q("1, 3, 5, 9", "1, 3, 4, 5, 9"), items=q(2, 3), kw=HOLDS),
                  *[encoder_run(f) for f in ("still", "early", "outer", "tail", "slots", "skip", "carry")])


def law_models(laws, *wrong):
    """What the definitions themselves must satisfy; each wrong form of them breaks one of these laws."""
    def run(form, kw=FAILS):
        return ("laws_" + form, "SszLaws", PRESET_CFG +
                " Chosen = {%s}\n Digits = {%s}\n MaxItems = 2\n Form = \"%s\"\n" %
                ("1, 3, 4, 5, 7, 8, 9, 10", q("0, 1", "0, 1, 128"), form) + "INIT Init\nNEXT Next\nINVARIANTS AsDefined %s\n" % laws, kw)
    return models(run("plain", HOLDS), *[run(f) for f in wrong])


def history_run(variant, slots, items, kw=FAILS):
    return ("histories_%s_%d_%d" % (variant.lower(), slots, items), "SszHistories", PRESET_CFG +
            " Slots = {%s}\n MaxItems = %d\n Variant = \"%s\"\n" % (", ".join(map(str, range(1, slots + 1))), items, variant) +
            "INIT Init\nNEXT Next\nVIEW View\nINVARIANTS LastGiven HistoryFree Stands\n", kw)


def history_models():
    runs = [history_run("Plain", 2, q(1, 2), HOLDS)] + ([history_run("Plain", 3, 1, HOLDS)] if THOROUGH else [])
    return models(*runs, *[history_run(v, 2, 1) for v in ("NoClear", "Shared", "Cached", "Written", "Appended")])


def text_run(name, checks, kw=FAILS, length=5, width=1, extra=""):
    return ("text_" + name, "TextParser", PRESET_CFG +
            " Width = %d\n Chars = {\"0\", \"x\", \"9\", \"a\", \"F\", \"g\"}\n MaxText = %d\n Checks = %s\n" % (width, length, names(checks)) +
            "SPECIFICATION Spec\nINVARIANTS InBounds AgreesWithText ReadsBack\n" + extra, kw)


def text_models():
    every = ("prefix", "digits", "length")
    return models(text_run("parser", every, HOLDS, extra="PROPERTY Finishes\n"),
                  *([text_run("parser_long", every, HOLDS, 7, 2)] if THOROUGH else []),
                  text_run("no_prefix", ("digits", "length")), text_run("no_digits", ("prefix", "length")),
                  text_run("loose", ("prefix", "digits", "loose")), text_run("no_length", ("prefix", "digits")))


def life_models():
    def run(fault, last, kw=FAILS):
        return ("validator_life_" + fault, "ValidatorLife", PRESET_CFG +
                " LastEpoch = %d\n Lookahead = 1\n Delay = 2\n Fault = \"%s\"\n" % (last, fault) +
                "INIT Init\nNEXT Next\nINVARIANTS SlashedOnce Punishable Lingering AfterExit Unqueued Ordered Stretch\n", kw)
    return models(run("none", q(7, 14), HOLDS), *[run(f, 6) for f in ("requeue", "closed", "forget", "early")])


def vote_models():
    def run(rule, kw=FAILS):
        return ("votes_" + rule, "VoteHistory", PRESET_CFG +
                " Epochs = {%s}\n Roots = {0, 1}\n MaxVotes = %d\n Rule = \"%s\"\n" % (q("0, 1, 2, 3", "0, 1, 2, 3, 4"), q(4, 5), rule) +
                "INIT Init\nNEXT Next\nINVARIANTS NoEvidence %s\n" % ("Laws" if kw is HOLDS else ""), kw)
    laws = ("votes_laws", "VoteHistory", PRESET_CFG + " Epochs = {0, 1, 2, 3}\n Roots = {0, 1}\n MaxVotes = 3\n Rule = \"none\"\n"
            "INIT Init\nNEXT Next\nINVARIANT Laws\n", HOLDS)
    return models(run("both", HOLDS), run("rising", HOLDS), laws, *[run(r) for r in ("newold", "oldnew", "double", "none")])


def scan_models():
    def run(name, passes, kw=FAILS, extra=""):
        return ("indexed_" + name, "IndexedScan", PRESET_CFG + " Values = {0, 1, 2, 3}\n MaxIndices = %d\n Passes = %s\n" % (q(5, 7), names(passes)) +
                "SPECIFICATION Spec\nINVARIANTS Strict AsSet\n" + extra, kw)
    return models(run("scan", ("sorted", "distinct", "empty"), HOLDS, "PROPERTY Finishes\n"),
                  run("unsorted", ("distinct", "empty")), run("repeated", ("sorted", "empty")), run("empty", ("sorted", "distinct")),
                  run("from_second", ("sorted", "distinct", "empty", "from2")), run("ends", ("sorted", "ends", "empty")))


def limit_models():
    def run(how, w=6, count=40, kw=FAILS):
        return ("limits_" + how, "LimitWords", "CONSTANTS\n W = %d\n Chunk = 8\n Sizes = {1, 2, 4, 8}\n MaxCount = %d\n How = \"%s\"\n" % (w, count, how) +
                "SPECIFICATION Spec\nINVARIANTS Exactly RootRight\n", kw)
    return models(run("quotient", q(6, 8), q(40, 60), HOLDS),
                  *[run(h, 5, 20) for h in ("product", "narrow", "signed", "rounded", "scaled", "floor", "few")])


def byte_models():
    def run(form, kw=FAILS):
        return ("bytes_" + form, "ByteLaws", "CONSTANTS\n Digits = {0, 1, %s16, 127, 128, 255}\n MaxLen = 2\n Form = \"%s\"\n" %
                (q("", "2, 9, 10, 15, 64, 160, 254, ") if kw is HOLDS else "", form) +
                "SPECIFICATION Spec\nINVARIANTS FromInteger Text Longer Refused Order Parts Equal Undone\n", kw)
    return models(run("plain", HOLDS), *[run(f) for f in ("big", "signed", "whole", "nibbles", "swapped", "short", "ored")])


def shape_models():
    def run(preset, wrong, kw=FAILS):
        return ("shapes_%s_%s" % (preset, wrong), "PresetShapes", "CONSTANTS\n OffsetBytes = 4\n Preset = \"%s\"\n Wrong = \"%s\"\n" % (preset, wrong) +
                "SPECIFICATION Spec\nINVARIANTS Listed Declared Bounded NamesApart Related\n", kw)
    return models(run("minimal", "none", HOLDS), run("mainnet", "none", HOLDS),
                  *[run(q("minimal", "mainnet"), w) for w in ("proof", "other", "epoch", "half", "flag")])


def construction_models():
    def run(how, types, kw=FAILS):
        return ("construction_" + how, "Construction", "CONSTANTS\n OffsetBytes = 4\n Chosen = {%s}\n Digits = {0, 255}\n" % types +
                " MaxItems = 1\n Slots = {1, 2}\n How = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Default Alike Shortest Sound\n" % how, kw)
    return models(run("plain", q("1, 2, 3, 5, 10", "1, 2, 3, 4, 5, 6, 7, 9, 10"), HOLDS),
                  *[run(h, t) for h, t in (("left", "1, 5"), ("flags", "2"), ("once", "1"), ("room", "3, 10"), ("first", "5"), ("ones", "5"))])


def memory_models():
    def run(fault, objects=(1, 2), values=(1, 2), blocks=4, kw=FAILS):
        return ("memory_" + fault, "Exhaustion", "CONSTANTS\n Objects = {%s}\n Values = {%s}\n Blocks = {%s}\n Fault = \"%s\"\nSPECIFICATION Spec\n"
                "INVARIANTS Owned Apart Stands Returned Right\nPROPERTY Ends\n" %
                (", ".join(map(str, objects)), ", ".join(map(str, values)), ", ".join(str(b + 1) for b in range(blocks)), fault), kw)
    return models(run("none", blocks=q(3, 4), kw=HOLDS), *[run(f) for f in ("flag", "keep", "release", "swallow", "torn")])


PRESET_TYPES = ("IndexedAttestation", "PendingAttestation", "Attestation", "Deposit", "AttesterSlashing", "BeaconBlockBody",
                "BeaconState")
MIN, MAIN = "minimal", "mainnet"
PRESET = ("preset", q(5, 15), MAIN, PRESET_TYPES)
MANY = ("many", q(1, 3), MAIN, ("BeaconState", "ListAttestation_0", "ListSlot_0", "ListBytes32_0", "ListBoolean_0", "Bitlist_0"))
CHECKS = {
    "C01": hashing.values,
    "C02": hashing.edges,
    "C03": hashing.choice,
    "C04": hashing.trees({"root", "refuse", "crash"}),
    "C05": hashing.trees({"nodes", "crash"}),
    "C06": both(encoder_models(), law_models("AValue Joined LimitFree BytesApart", "nooffset", "nodelim"), ssz_check([("encode", q(6, 30), MIN), PRESET, MANY], {"ser", "len", "size", "crash"})),
    "C07": both(law_models("ReadBack BytesApart", "nooffset", "nodelim"), ssz_check([("round", q(4, 16), MIN), PRESET, MANY], {"reject", "rt", "accept", "ser", "len", "value:b", "crash"})),
    "C08": both(decoder_models(), ssz_check([("canon", q(5, 24), MIN), PRESET, MANY], {"accept", "reject", "loadexc", "overlimit", "crash"})),
    "C09": both(decoder_models(), ssz_check([("hostile", q(3, 12), MIN)], {"crash", "alloc"}, True)),
    "C10": both(limit_models(), ssz_check([("limits", 1, MIN), ("limits", 1, MAIN)],
                                           {"overlimit", "yover", "overroot", "reject", "yreject", "obsexc", "crash"})),
    "C11": both(law_models("RootsApart Summary", "nomix", "packed"), ssz_check([("root", q(4, 20), MIN), PRESET, MANY], {"root", "tl", "crash"})),
    "C12": both(law_models("TextReadBack TextsApart", "short", "nodelim"), ssz_check([("yaml", q(5, 24), MIN), PRESET], {"yaml", "rp", "yreject", "value:y", "yrt", "crash"})),
    "C13": both(text_models(), ssz_check([("text", q(3, 16), MIN)], {"yaccept", "yexc", "value:z", "crash"}),
                lambda work: prims.cases(work, "texts", q(1, 6), {"parse", "crash"}, [("o2", ["-O2"])])),
    "C14": both(law_models("BytesApart RootsApart TextsApart", "nooffset", "nomix"), ssz_check([("equal", q(4, 16), MIN), PRESET, MANY], {"eq", "crash"})),
    "C15": both(history_models(), ssz_check([("history", q(2, 10), MIN), PRESET], {"h:" + x for x in ssz.HIST})),
    "C16": both(life_models(), ssz_check([("validator", q(3, 30), MIN)], {"active", "slashable", "eligible", "crash"})),
    "C17": both(vote_models(), ssz_check([("votes", q(3, 30), MIN)], {"votes", "crash"})),
    "C18": both(scan_models(), ssz_check([("indexed", q(3, 30), MIN)], {"valid", "crash"})),
    "C19": both(byte_models(), lambda work: prims.cases(work, "bytes", q(1, 6), {"bytes", "crash"}, [("o2", ["-O2"])])),
    "C20": both(sqrt_design, lambda work: prims.cases(work, "math", q(1, 6), {"math", "crash"},
                                                      [("o2", ["-O2"]), ("fast", ["-O3", "-ffast-math"])])),
    "C21": both(shape_models(), prims.constants,
                ssz_check([(plan, 1, p, PRESET_TYPES) for p in (MIN, MAIN) for plan in ("limits", "defaults")],
                          {"len", "size", "overlimit", "yover", "reject", "yreject"})),
    "C22": both(hashing.overlap, lambda work: ssz.together(work, 1, q(6, 30))),
    "C23": both(construction_models(),
                ssz_check([("defaults", 1, MIN), ("defaults", 1, MAIN)], {"value:d", "value:c", "ser", "len", "root", "eq", "obsexc", "crash"})),
    "C25": hashing.backends,
    "C26": both(memory_models(), ssz_check([("memory", q(4, 16), MIN)], {"h:" + x for x in ssz.HIST})),
    "C24": ssz_check([("parts", q(3, 16), MIN)], {"part", "value:w", "w:ser", "w:len", "w:root", "w:yaml", "w:eq", "crash"}),
}


def main():
    pid = sys.argv[1]
    work = Work(pid)
    try:
        cov, bad = CHECKS[pid](work)
        ev = {"property": pid, "tier": TIER, "seed": SEED, "level": LEVEL.get(pid, "model_checking"), "coverage": cov,
              "wall_s": round(time.time() - T0, 1), "violations": 1 if bad else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if bad:
            violation(pid, bad["replay"], bad["why"])
            return 1
        print("OK property=%s states=%s traces=%s wall=%.1fs" % (
            pid, cov.get("states"), cov.get("traces_validated_against_impl"), time.time() - T0))
        return 0
    except Broken as e:
        print("ERROR property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        work.close()


if __name__ == "__main__":
    sys.exit(main())
