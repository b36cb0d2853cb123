"""Runs the in-process monitors (harness/src) of a property and turns what happens into a verdict."""
import json, os, struct, tempfile
from vlib import *

BUDGET = {"quick": 150, "thorough": 1500}
# the least a run has to have observed to count as one
FLOOR = {"quick": 1000, "thorough": 5000}


def scratch():
    return tempfile.mkdtemp(prefix="verif-")


def read_crumbs(path, names):
    try:
        b = open(path, "rb").read()
    except OSError:
        return []
    out = []
    for i in range(0, len(b) - 15, 16):
        s, idx = struct.unpack("<QQ", b[i:i + 16])
        if 0 < s <= len(names):
            out.append((names[s - 1], idx))
    return out


def one_case(mon, prop, seed, tier, stream, idx, timeout=120):
    """-> ("ok"|"fails"|"dies"|"hangs"|"?", message)"""
    rc, out, err, cpu = run([mon, prop, "--seed", str(seed), "--tier", tier, "--case", "%s:%d" % (stream, idx)], timeout, cpu=60)
    if rc == 0 and "CASE-OK" in out:
        return "ok", ""
    m = re.search(r"CASE-FAILS (.*)", out, re.S)
    if rc == 1 and m:
        return "fails", m.group(1).strip()
    if rc is None or rc in (-24, -9):
        return ("hangs", "does not return within %d s of processor time" % cpu) if cpu > 40 else ("?", "slow")
    if rc < 0:
        return "dies", "the process dies with %s: %s" % (signal_name(rc), clip(err.strip(), 300))
    return "?", clip(out + err, 300)


def is_harness(msg):
    """a fault of the monitor itself, not of the library"""
    if not msg.startswith("HARNESS"):
        return False
    m = re.search(r"\(([^()]*):\d+\)\s*$", msg)
    return not (msg.startswith("HARNESS-PANIC") and m and not m.group(1).startswith("src/"))


ASAN = dict(ASAN_OPTIONS="detect_leaks=1:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=16000")


def asan_report(err):
    """-> (message, report) of an error that AddressSanitizer or LeakSanitizer reports"""
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)", err)
    if not m:
        return None
    at = [l.strip() for l in err[m.start():].splitlines() if REPO + "/" in l][:4]
    return "%s: %s %s" % (m.group(1), m.group(2), " | ".join(at)), err[m.start():]


def damaged(prop, seed, tier):
    """does AddressSanitizer see the library damage memory in this monitor?"""
    mon = os.path.join(build("asan"), "mon")
    rc, out, err, _ = run([mon, prop, "--seed", str(seed), "--tier", tier, "--mem-gb", "0", "--budget", "100"], 400, e=dict(env(), **ASAN))
    r = asan_report(err)
    return r if r and r[0].startswith("AddressSanitizer") and (REPO + "/" in r[1] or "json::" in r[1]) else None


def mon_check(d, prop, seed, tier, extra=None, mem=16, name="monitor"):
    """-> report dict; raises Violation / Problem"""
    mon = os.path.join(d, "mon")
    tmp = scratch()
    try:
        rep, crumbs = os.path.join(tmp, "report"), os.path.join(tmp, "crumbs")
        base = [mon, prop, "--seed", str(seed), "--tier", tier, "--report", rep, "--crumbs", crumbs, "--mem-gb", str(mem), "--budget", str(BUDGET[tier])] + (extra or [])
        rc, out, err, cpu = run(base, BUDGET[tier] + 150)
        rpl = {"engine": "mon", "seed": seed, "tier": tier}
        if rc in (0, 1) and os.path.exists(rep):
            r = json.load(open(rep))
            r["engine"] = name
            if r["violations"]:
                confirmed = None
                for v in r["violations"]:
                    if is_harness(v["msg"]):
                        continue
                    how, msg = one_case(mon, prop, seed, tier, v["stream"], v["idx"])
                    if how in ("fails", "dies", "hangs") and not is_harness(msg):
                        confirmed = (v, msg, True)
                        break
                    if confirmed is None:
                        confirmed = (v, v["msg"], False)
                if confirmed is None:
                    raise Problem("the monitor failed: " + clip(r["violations"][0]["msg"]))
                v, msg, again = confirmed
                if not again and prop == "C18":
                    # cost is measured; only what is seen again in a quiet process counts
                    if extra and "--threads" in extra:
                        raise Problem("a cost was out of bounds once and not again: " + clip(msg))
                    return mon_check(d, prop, seed, tier, (extra or []) + ["--threads", "2"], mem, name)
                raise Violation(msg, save_replay(prop, dict(rpl, stream=v["stream"], idx=v["idx"], message=msg, reproduced_alone=again)))
            total = sum(s["of"] for s in r["streams"])
            done = sum(s["done"] for s in r["streams"])
            if r["evaluations"] < FLOOR[tier]:
                raise Problem("too little observed: %d evaluations" % r["evaluations"])
            if done * 20 < total:
                raise Problem("only %d of %d cases within the time limit" % (done, total))
            return r
        # the process died or hung: which case was it?
        rc2, lst, _, _ = run([mon, prop, "--seed", str(seed), "--tier", tier, "--list"], 120)
        names = [l[7:] for l in lst.splitlines() if l.startswith("STREAM ")]
        cands = []
        m = re.search(r"HANG stream=(\S+) idx=(\d+)", out)
        if m:
            cands.append((m.group(1), int(m.group(2))))
        cands += [c for c in read_crumbs(crumbs, names) if c not in cands]
        notes = []
        for s, i in cands:
            how, msg = one_case(mon, prop, seed, tier, s, i)
            notes.append("%s:%d %s" % (s, i, how))
            if how in ("dies", "hangs") or (how == "fails" and not is_harness(msg)):
                raise Violation("%s:%d %s" % (s, i, msg), save_replay(prop, dict(rpl, stream=s, idx=i, message=msg, reproduced_alone=True)))
        if rc is not None and rc < 0 and name == "monitor":
            # many cases together did it: memory that was damaged by one is found by another
            msg = damaged(prop, seed, tier)
            if msg:
                raise Violation("the process dies with %s; %s" % (signal_name(rc), msg[0]), save_replay(prop, {"engine": "asan", "seed": seed, "message": msg[0], "report": clip(msg[1], 6000)}))
        raise Problem("the monitors ended with %s and none of %s repeats it alone\n%s" % (rc if rc is None or rc >= 0 else signal_name(rc), notes, tail(out + err)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
