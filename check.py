#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the monitors from /repo's working tree, runs those of one property and writes evidence/PROPERTY.json.
Exit 0: held on everything observed. Exit 1: VIOLATION line. Exit 2: no verdict."""
import argparse, concurrent.futures as cf, json, os, shlex, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from vlib import *
import derive_run, monrun, parse_run, quote_run

RULES = {
    "C01": "texts: every sequence of up to 6 structural tokens, of number characters and of string-body fragments, every character in every position, every \\u escape, random and mutated documents, sized families; each is fed to parse and compared with an independent reader. Distinct texts are counted.",
    "C02": "the texts of C01 that are valid plus documents rendered from a known value and objects with many repeated keys; the parsed value is compared node by node. Distinct texts are counted.",
    "C03": "values built from enums, by parsing and by editing, and typed values; the text is read back by an independent reader and compared. Distinct values are counted.",
    "C04": "values as in C03 and documents; parse(to_string(v)) is compared with v, and the second text with the first. Distinct values are counted.",
    "C05": "the same content built in several ways (insertion orders, deletions, clones, hash seeds); texts are compared with each other and with a reference writer. Distinct values are counted.",
    "C06": "values of 40-odd types, bounds and random; decode(encode(x)) is compared with x. Distinct encoded texts are counted.",
    "C07": "pairs of Json values and target types, half fitting and half broken at one place; compared with a reference conversion. Distinct pairs are counted.",
    "C08": "documents with every path into them and near misses; get, find, find! and indexing against a reference walk, by address of the returned reference. Distinct (document, path) pairs are counted.",
    "C09": "documents with paths, set and update; the whole tree is compared with a reference afterwards. Distinct cases are counted.",
    "C10": "documents with paths, del and discard; the whole tree and the returned value against a reference. Distinct cases are counted.",
    "C11": "path strings over the path alphabet and random ones, with the documents that distinguish their readings. Distinct path strings are counted.",
    "C12": "histories of insert, append, delete and lookups on one object, against a reference multimap. Distinct histories are counted.",
    "C13": "histories of push, replace, remove and lookups on one array, against a reference vector. Distinct histories are counted.",
    "C14": "macro invocations of many arities and argument kinds compiled into the monitor, run with random values and side-effect logs. Distinct invocations with their arguments are counted.",
    "C15": "texts, paths and typed values; get, set, del and decode against parse-act-encode done by hand. Distinct cases are counted.",
    "C16": "documents and paths; a unique value is written through every mutable access and the tree compared. Distinct cases are counted.",
    "C17": "hostile texts, paths, indices and edit histories on threads with 2 MB stacks; a panic, a dead process or a call that takes more than 30 s is a violation. Distinct inputs are counted.",
    "C18": "34 families of growing documents and the operations on them: allocations, peak and processor time at doubling sizes. Distinct measurements are counted.",
    "C19": "the same calls repeated, shuffled, after failures, on new threads, on six threads at once, in other processes; values shared between threads; a race detector under the concurrent ones. Distinct calls are counted.",
    "C20": "calls on valid and invalid inputs with a balance of allocations around each, and under AddressSanitizer, valgrind and Miri. Distinct inputs are counted.",
    "C21": "number texts of all lengths, exponents and halfway cases against exact big-integer rounding; doubles of every exponent written and read. Distinct texts and doubles are counted.",
    "C22": "every Unicode scalar, every \\u escape in both cases, every surrogate pair, every other escape character, and random mixtures. Distinct strings are counted.",
    "C29": "failing calls on documents: the whole value before and after, and the kind and text of the error against a reference. Distinct cases are counted.",
    "C30": "pairs of values that are equal or differ in one place; == and clone against a reference. Distinct pairs are counted.",
}
RULES.update(derive_run.RULE)
RULES.update(parse_run.RULE)
RULES.update(quote_run.RULE)
TRUST = ["the reference reader, writer, tree and big-integer arithmetic of the harness", "rustc and std", "absence of violations is shown for the executions observed, not for all"]


def mon_coverage(prop, r, **more):
    cov = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct"], "rule": RULES[prop], "samples": r["samples"][:8] or ["(none kept)"],
           "streams": r["streams"], "observed": r["counts"], "time_capped": r["capped"]}
    cov.update(more)
    return cov


def plain(prop, tier, seed):
    d = build()
    return mon_coverage(prop, monrun.mon_check(d, prop, seed, tier))


# ---- C17: known findings are probed one by one, in processes of their own ----
PROBES = [("deep-array", 30000), ("deep-object", 30000), ("long-path", 1000000)]


def c17(prop, tier, seed):
    d = build()
    cov = mon_coverage(prop, monrun.mon_check(d, prop, seed, tier))
    kn, seen = known(prop), []
    for name, n in PROBES:
        rc, out, err, cpu = run([os.path.join(d, "mon"), "probe", "--name", name, "--n", str(n)], 300, cpu=120)
        key = "%s-%d" % (name, n)
        if "PROBE-RETURNED true" in out:
            seen.append(key + " returns")
        elif rc is not None and rc < 0 and "overflowed its stack" in err and key in kn:
            seen.append(key + " overflows the stack (known)")
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[key]))
        elif rc is None:
            raise Problem("probe %s does not end" % key)
        else:
            msg = "%s: %s" % (key, clip((out + err).strip(), 300))
            raise Violation(msg, save_replay(prop, {"engine": "probe", "name": name, "n": n, "message": msg}))
    cov["probes"] = seen
    return cov


# ---- C19 ----
def corpus(d, seed, n, out):
    rc, o, err, _ = run([os.path.join(d, "mon"), "corpus", "--tier", "mini", "--n", str(n), "--out", out, "--seed", str(seed)], 120)
    if rc != 0:
        raise Problem("no corpus: " + tail(err))


def mini_done(out):
    m = re.search(r"MINI-DONE cases=(\d+) concurrent=(\d+)", out)
    return (int(m.group(1)), int(m.group(2))) if m else None


def send_sync():
    """a value can be moved to and read by other threads: the compiler has to agree"""
    d = os.path.join(HARNESS, "target", "sendsync")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "sendsync"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\njson = { path = "/repo" }\n[workspace]\n')
    src = {"control": "fn main() { let _: Vec<json::Json> = Vec::new(); let _: Vec<json::Error> = Vec::new(); let _: Vec<json::Path> = Vec::new(); }\n"}
    for t in ("Json", "Error", "Path"):
        src[t] = "fn shared<T: Send + Sync + 'static>() {}\nfn main() { shared::<json::%s>() }\n" % t
    res = {}
    for k, s in src.items():
        open(os.path.join(d, "src", "main.rs"), "w").write(s)
        rc, out, err, _ = run(["cargo", "check", "--offline", "-q"], 300, cwd=d, e=env(CARGO_TARGET_DIR=os.path.join(HARNESS, "target", "sendsync-target"), RUSTFLAGS="-W " + LINT))
        res[k] = (rc, err)
        if k == "control" and rc != 0:
            raise Problem("the control program does not compile:\n" + tail(err))
        if rc != 0 and "E0277" in err and "cannot be" in err:
            return "json::%s is not Send + Sync: %s" % (k, clip(" ".join(x.strip() for x in err.splitlines() if "cannot be" in x), 300))
        if rc != 0:
            raise Problem("a program that moves %s to a thread does not compile:\n%s" % (k, tail(err)))
    return None


RACE = re.compile(r"WARNING: ThreadSanitizer: (.*?)\n(.*?)={10,}", re.S)


def race_in_library(err):
    for m in RACE.finditer(err + "\n" + "=" * 20):
        if "/repo/" in m.group(2) or "json::" in m.group(2):
            fr = [l.strip() for l in m.group(2).splitlines() if "/repo/" in l or "json::" in l]
            return "%s: %s" % (m.group(1).strip(), clip(" | ".join(fr[:4]), 400))
    return None


def c19(prop, tier, seed):
    d = build()
    cov = mon_coverage(prop, monrun.mon_check(d, prop, seed, tier))
    mon = os.path.join(d, "mon")
    # the same calls in other processes (other hash seeds, other orders, another history)
    n = 20000 if tier == "quick" else 300000
    ref = None
    for order in ("forward", "reverse", "shuffle", "odd-first", "shuffle") if tier == "quick" else ("forward", "reverse", "odd-first") + ("shuffle",) * 8:
        rc, out, err, _ = run([mon, "digests", "--n", str(n), "--order", order, "--seed", str(seed)], 600)
        if rc != 0:
            raise Problem("digests end with %s: %s" % (rc, tail(err)))
        x = out.split()
        if ref is None:
            ref = x
        elif x != ref:
            k = next(i for i in range(max(len(x), len(ref))) if x[i:i + 1] != ref[i:i + 1])
            msg = "call %d of seed %d gives another result in a process that makes the calls in the order '%s'" % (k, seed, order)
            raise Violation(msg, save_replay(prop, {"engine": "digests", "seed": seed, "n": n, "order": order, "call": k, "message": msg}))
    cov["processes_compared"], cov["calls_compared_across_processes"] = (5 if tier == "quick" else 11), n
    e = send_sync()
    if e:
        raise Violation(e, save_replay(prop, {"engine": "send-sync", "message": e}))
    # race detector
    t = build("tsan")
    tmp = monrun.scratch()
    try:
        c = os.path.join(tmp, "corpus")
        corpus(d, seed, 20000, c)
        budget = 25 if tier == "quick" else 300
        races = []
        for cmd in ([os.path.join(t, "mini"), c, "0", "2", str(budget), "4"], [os.path.join(t, "mon"), prop, "--seed", str(seed), "--mem-gb", "0", "--budget", str(budget), "--report", os.path.join(tmp, "r")]):
            rc, out, err, _ = run(cmd, budget + 200, e=dict(env(), TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_signal_unsafe=0"))
            races.append(err.count("WARNING: ThreadSanitizer"))
            r = race_in_library(err)
            if r:
                raise Violation("data race: " + r, save_replay(prop, {"engine": "tsan", "message": r, "report": clip(err, 6000)}))
            if "MINI-DIFFERS" in out:
                msg = out[out.index("MINI-DIFFERS"):].splitlines()[0]
                raise Violation(msg, save_replay(prop, {"engine": "tsan", "message": msg, "seed": seed}))
            if rc is None or rc not in (0, 66) or (rc == 66 and not races[-1]):
                raise Problem("under the race detector: %s\n%s" % (rc, tail(out + err)))
            m = mini_done(out)
            if m:
                cov["race_detector_mini"] = {"cases": m[0], "concurrent_runs": m[1]}
                if m[0] < 50:
                    raise Problem("the race detector saw only %d cases" % m[0])
        cov["race_detector_monitor"] = {k: v for k, v in json.load(open(os.path.join(tmp, "r")))["counts"].items()}
        cov["race_reports_outside_the_library"] = sum(races)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return cov


# ---- C20 ----
def miri(seed, tier, c, threads=1):
    """the interpreter, on as many processes as there are cores; -> (cases, concurrent runs)"""
    budget = 60 if tier == "quick" else 700
    # one build; cargo keeps its lock while the program runs, so the interpreter is then started by itself
    cmd, e = miri_cmd([c, "0", "1", "0", "1"])
    rc, out, err, _ = run(cmd, 400, cwd=HARNESS, e=e)
    if rc != 0 or not mini_done(out):
        raise Problem("Miri does not start: %s\n%s" % (rc, tail(err)))
    line = [l.split("running command: ", 1)[1] for l in err.splitlines() if "[cargo-miri runner] running command: " in l]
    if not line:
        raise Problem("no interpreter command in the output of cargo miri:\n" + tail(err))
    words = shlex.split(line[-1])
    words = words[words.index("&&") + 1:]
    words = words[:len(words) - 1 - words[::-1].index("--")]

    def go(k):
        th = 3 if k == 7 else threads
        return run(words + ["-Zmiri-seed=%d" % (seed * 8 + k), "--", c, str(k), "8", str(budget), str(th)], budget + 240, cwd=HARNESS, e=e)
    cases = conc = late = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for k, (rc, out, err, _) in enumerate(ex.map(go, range(8))):
            m = re.search(r"error: (Undefined Behavior.*|memory leaked.*|.*[dD]ata race.*)", err)
            if m:
                at = [l.strip() for l in err[m.start():].splitlines() if "/repo/" in l][:4]
                raise Violation("Miri: %s %s" % (m.group(1).strip(), " | ".join(at)), save_replay("C20", {"engine": "miri", "seed": seed, "shard": k, "message": m.group(1), "report": clip(err[m.start():], 5000)}))
            if "panicked at" in err and "UTF-8" in err:
                raise Violation("Miri: " + clip(err[err.index("panicked at"):], 300), save_replay("C20", {"engine": "miri", "seed": seed, "shard": k, "report": clip(err, 5000)}))
            if rc is None:
                late += 1
            elif rc != 0 or not mini_done(out):
                raise Problem("Miri ends with %s\n%s" % (rc, tail(err)))
            else:
                cases += mini_done(out)[0]; conc += mini_done(out)[1]
    if cases < 20:
        raise Problem("Miri got through only %d cases (%d processes did not end)" % (cases, late))
    return {"cases": cases, "concurrent_runs": conc, "processes_out_of_time": late}


def c20(prop, tier, seed):
    d = build()
    cov = mon_coverage(prop, monrun.mon_check(d, prop, seed, tier))
    tmp = monrun.scratch()
    try:
        c = os.path.join(tmp, "corpus")
        corpus(d, seed, 20000, c)
        # AddressSanitizer with leak checking: the same monitor, and the small cases
        a = build("asan")
        opts = dict(env(), **monrun.ASAN)
        budget = 45 if tier == "quick" else 600
        for cmd in ([os.path.join(a, "mini"), c, "0", "1", "60", "1"], [os.path.join(a, "mon"), prop, "--seed", str(seed + 1000), "--tier", tier, "--mem-gb", "0", "--budget", str(budget), "--report", os.path.join(tmp, "r")]):
            rc, out, err, _ = run(cmd, budget + 300, e=opts)
            m = monrun.asan_report(err)
            if m:
                raise Violation(m[0], save_replay(prop, {"engine": "asan", "seed": seed, "message": m[0], "report": clip(m[1], 6000)}))
            if rc == 1 and os.path.exists(os.path.join(tmp, "r")):
                for v in json.load(open(os.path.join(tmp, "r")))["violations"]:
                    how, msg = monrun.one_case(os.path.join(a, "mon"), prop, seed + 1000, tier, v["stream"], v["idx"])
                    if how == "fails" and not monrun.is_harness(msg):
                        raise Violation(msg, save_replay(prop, {"engine": "mon", "seed": seed + 1000, "tier": tier, "stream": v["stream"], "idx": v["idx"], "message": msg}))
            if rc is None or rc != 0:
                raise Problem("under AddressSanitizer: %s\n%s" % (rc, tail(out + err)))
            m = mini_done(out)
            if m:
                cov["address_sanitizer_mini_cases"] = m[0]
        r = json.load(open(os.path.join(tmp, "r")))
        cov["address_sanitizer_evaluations"] = r["evaluations"]
        # valgrind: use of uninitialised memory
        step = 4 if tier == "quick" else 1
        rc, out, err, _ = run(["valgrind", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect", "-q", os.path.join(d, "mini"), c, "0", str(step), "90" if tier == "quick" else "600", "1"], 900)
        if rc == 99:
            raise Violation("valgrind: " + clip(err, 500), save_replay(prop, {"engine": "valgrind", "seed": seed, "report": clip(err, 6000)}))
        if rc != 0 or not mini_done(out):
            raise Problem("valgrind ends with %s\n%s" % (rc, tail(out + err)))
        cov["valgrind_cases"] = mini_done(out)[0]
        cov["miri"] = miri(seed, tier, c)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return cov


ENGINES = {p: plain for p in RULES}
ENGINES.update(C17=c17, C19=c19, C20=c20, C23=derive_run.run_check, C24=derive_run.run_check, C25=derive_run.c25, C26=derive_run.c26, C27=quote_run.c27, C28=parse_run.c28, C31=parse_run.c31, C32=parse_run.c32)


def replay(prop, path):
    r = json.load(open(path))
    if r.get("engine") == "mon":
        how, msg = monrun.one_case(os.path.join(build(), "mon"), prop, r["seed"], r["tier"], r["stream"], r["idx"])
        print(how, msg)
        return 0 if how == "ok" else 1
    if r.get("engine") == "probe":
        rc, out, err, _ = run([os.path.join(build(), "mon"), "probe", "--name", r["name"], "--n", str(r["n"])], 300)
        print(rc, out, err)
        return 0 if "PROBE-RETURNED true" in out else 1
    if r.get("engine", "").startswith("derive"):
        return derive_run.replay(prop, r)
    if r.get("engine") == "parse":
        return parse_run.replay(prop, r)
    if r.get("engine") == "quote":
        return quote_run.replay(prop, r)
    try:
        ENGINES[prop](prop, r.get("tier", "quick"), r.get("seed", 1))
    except Violation as v:
        print(v.msg)
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.property == "setup":
        build(); derive_run.kit(); parse_run.kit(); quote_run.kit(); return 0
    if a.replay:
        return replay(a.property, a.replay)
    t0 = time.time()
    try:
        cov = ENGINES[a.property](a.property, a.tier, a.seed)
    except Violation as v:
        print(v.msg)
        write_evidence(a.property, a.tier, a.seed, time.time() - t0, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run stopped at a violation", "samples": [clip(v.msg)]}, 1, TRUST)
        print("VIOLATION property=%s replay=%s" % (a.property, v.replay))
        return 1
    except Problem as p:
        print("NO VERDICT: %s" % p)
        return 2
    wall = time.time() - t0
    write_evidence(a.property, a.tier, a.seed, wall, cov, 0, TRUST)
    print("%s held on %d evaluations, %d distinct and non-trivial, %.0f s" % (a.property, cov["evaluations"], cov["distinct_nontrivial"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
