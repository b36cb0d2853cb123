"""C23-C26: the derives run inside the compiler on generated structs; what they produce is observed by running it."""
import collections, concurrent.futures as cf, json, os, re, shutil, subprocess, tempfile
from vlib import *
import derive_gen

DK = os.path.join(HARNESS, "dk")
SIZES = {"quick": (24, 45), "thorough": (240, 60)}   # batches, modules in each


def kit():
    """the checking crate, built with the derives of the working tree -> the arguments for rustc"""
    t = fresh(os.path.join(HARNESS, "target", "dk"))
    rc, out, err, _ = run(["cargo", "build", "--offline", "--message-format=json"], 900, cwd=DK, e=env(CARGO_TARGET_DIR=t, RUSTFLAGS="-W " + LINT))
    libs = {}
    for l in out.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        libs[m["target"]["name"]] = f
    if rc != 0 or not {"dk", "json"} <= set(libs):
        raise Problem("the checking crate of the derives does not build:\n" + tail(err))
    deps = os.path.dirname(libs["json"])
    deps = deps if os.path.basename(deps) == "deps" else os.path.join(deps, "deps")
    return ["-L", "dependency=" + deps, "--extern", "dk=" + libs["dk"], "--extern", "json=" + libs["json"]]


def rustc(args, timeout=400, cwd=None):
    return run(["rustc", "--edition", "2021", "-Awarnings", "-Cdebuginfo=0", "-Copt-level=0"] + args, timeout, cwd=cwd)


def errors(err):
    """the errors of a compilation: [(set of the modules in its spans, text)]"""
    out = []
    for l in err.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level") not in ("error", "error: internal compiler error") or not m.get("rendered"):
            continue
        mods = set()

        def spans(ss):
            for s in ss:
                k = re.match(r"(?:.*/)?m(\d+)\.rs$", s["file_name"])
                if k:
                    mods.add(int(k.group(1)))
                if s.get("expansion"):
                    spans([s["expansion"]["span"]])
        spans(m["spans"])
        for c in m.get("children", []):
            spans(c["spans"])
        if m["message"].startswith("aborting due to") or m["message"].startswith("could not compile"):
            continue
        out.append((mods, m["rendered"]))
    return out


MAIN = """%s
%s
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let mut c = ::dk::new(a[2].parse().unwrap(), a[3].parse().unwrap(), prop);
    let only: Option<u32> = a.get(4).map(|x| x.parse().unwrap());
    std::panic::set_hook(Box::new(|_| ()));
    let all: &[(u32, fn(&mut ::dk::Ck))] = &[%s];
    for (i, f) in all {
        if only.map_or(true, |o| o == *i) {
            let seed = c.r.0;
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c))).is_err() {
                c.fail(prop, "the derived code panics".to_string());
            }
            c.r.0 = seed.wrapping_add(0x1234_5678_9abc);
        }
    }
    c.done();
}
"""


def compile_batch(dirn, mods, kitargs, bare):
    """compiles the modules together, leaving out those that do not compile -> (those left, {index: message})"""
    bad, left = {}, list(mods)
    for m in mods:
        open(os.path.join(dirn, "m%d.rs" % m.index), "w").write(m.bare if bare else m.full)
    for _ in range(12):
        if not left:
            return left, bad
        if bare:
            src = derive_gen.PRELUDE + "".join("mod m%d;\n" % m.index for m in left)
            args = ["--crate-type", "lib", "--emit=metadata", "-o", os.path.join(dirn, "out.rmeta")]
        else:
            src = MAIN % (derive_gen.PRELUDE, "".join("mod m%d;\n" % m.index for m in left), ", ".join("(%d, m%d::run)" % (m.index, m.index) for m in left))
            args = ["-o", os.path.join(dirn, "out")]
        open(os.path.join(dirn, "main.rs"), "w").write(src)
        rc, out, err, _ = rustc(args + kitargs + ["--error-format=json", "main.rs"], 120, cwd=dirn)
        if rc == 0:
            return left, bad
        # a compiler that does not come to an end is looked for by halves
        es = errors(err) if rc is not None else []
        names = set().union(*[e[0] for e in es]) if es else set()
        lost = [e for e in es if not e[0]]
        if not names:
            if len(left) == 1:
                bad[left[0].index] = es[0][1] if es else tail(err) if rc is not None else "the compiler does not come to an end"
                return [], bad
            # an error without a place: find it by halves
            h = len(left) // 2
            l1, b1 = compile_batch(dirn, left[:h], kitargs, bare)
            l2, b2 = compile_batch(dirn, left[h:], kitargs, bare)
            bad.update(b1); bad.update(b2)
            left = l1 + l2
            if not bad:
                raise Problem("modules compile one by one but not together:\n" + tail(err))
            continue
        for e in es:
            for k in e[0]:
                bad.setdefault(k, e[1])
        left = [m for m in left if m.index not in bad]
    raise Problem("modules keep failing to compile")


def stands_alone(m, kitargs, what):
    """does this text of the module compile by itself? -> (bool, messages)"""
    d = tempfile.mkdtemp(prefix="verif-derive-")
    try:
        open(os.path.join(d, "m%d.rs" % m.index), "w").write(getattr(m, what))
        open(os.path.join(d, "main.rs"), "w").write(derive_gen.PRELUDE + "mod m%d;\n" % m.index)
        rc, out, err, _ = rustc(["--crate-type", "lib", "--emit=metadata", "-o", os.path.join(d, "out.rmeta")] + kitargs + ["main.rs"], 60, cwd=d)
        return rc == 0, err if rc is not None else "error: the compiler does not come to an end\n"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def summary(mods):
    used = collections.Counter(u for m in mods for u in m.used)
    return {"modules": len(mods), "structs": sum(m.structs for m in mods), "fields": sum(m.fields for m in mods), "features_seen": len(used), "features": dict(used.most_common(400))}


def run_check(prop, tier, seed):
    """C23, C24"""
    k = kit()
    nb, nm = SIZES[tier]
    per = 12 if tier == "quick" else 25
    tmp = tempfile.mkdtemp(prefix="verif-derive-")

    def batch(b):
        d = os.path.join(tmp, "b%d" % b)
        os.makedirs(d)
        mods = [derive_gen.module(seed * 1000 + b, i) for i in range(nm)]
        left, bad = compile_batch(d, mods, k, False)
        r = run([os.path.join(d, "out"), prop, str(seed + b), str(per)], 300) if left else (0, "DONE encoded=0 decoded=0 refused=0 round=0 distinct=0 fails=0 kinds=", "", 0)
        shutil.rmtree(d, ignore_errors=True)
        return b, mods, left, bad, r
    tot = collections.Counter()
    kinds, good, samples, notcomp = set(), [], [], 0
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for b, mods, left, bad, (rc, out, err, _) in ex.map(batch, range(nb)):
                fails = [l for l in out.splitlines() if l.startswith("FAIL ")]
                if fails:
                    msg = fails[0][5:]
                    idx = int(re.match(r"m(\d+)", msg).group(1))
                    raise Violation(clip(msg, 900), save_replay(prop, {"engine": "derive", "seed": seed * 1000 + b, "runseed": seed + b, "per": per, "module": idx, "message": msg, "source": next(m.full for m in mods if m.index == idx)}))
                m = re.search(r"DONE encoded=(\d+) decoded=(\d+) refused=(\d+) round=(\d+) distinct=(\d+) fails=0 kinds=(\S*)", out)
                if rc is not None and rc < 0 and not m:
                    raise Violation("a program with derived code dies with %s: %s" % (signal_name(rc), clip(err, 300)), save_replay(prop, {"engine": "derive", "seed": seed * 1000 + b, "runseed": seed + b, "per": per, "module": None, "message": err}))
                if rc != 0 or not m:
                    raise Problem("the generated program ends with %s\n%s" % (rc, tail(out + err)))
                for n, v in zip(("encoded", "decoded", "refused", "round_trips", "distinct"), m.groups()):
                    tot[n] += int(v)
                kinds |= set(m.group(6).split("+")) - {""}
                good += left
                notcomp += len(bad)
                if left and len(samples) < 3:
                    samples.append(clip(left[0].bare, 600))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if len(good) < nb * nm * 0.25:
        raise Problem("only %d of %d generated modules compile" % (len(good), nb * nm))
    ev = tot["encoded"] if prop == "C23" else tot["decoded"] + tot["refused"] + tot["round_trips"]
    if ev < 1000 or (prop == "C24" and min(tot["decoded"], tot["refused"], tot["round_trips"]) < 300):
        raise Problem("too little was observed: %s" % dict(tot))
    return dict(summary(good), evaluations=ev, distinct_nontrivial=tot["distinct"], rule=RULE[prop], samples=samples, observed=dict(tot), error_kinds=sorted(kinds), modules_that_do_not_compile=notcomp)


RULE = {
    "C23": "random braced structs (fields, keys, attributes, generics, nesting) compiled with the derives; to_json and encode of random values against an object built by hand. Distinct (struct, text) pairs are counted.",
    "C24": "the structs of C23; from_json of complete, incomplete, ill-typed, over-complete and duplicated objects and of other kinds, against a field-by-field reference reading; decode(encode(x)) in containers. Distinct (struct, object) pairs are counted.",
    "C25": "random braced structs; one that does not compile with the derives but does with implementations written by hand is a violation. Structs are counted.",
    "C26": "random declarations that have to be rejected, each with a control without the derives that has to compile (and, for a key that is not a string, the same struct with a string, which has to compile with the derives). Distinct rejected declarations are counted.",
}

def probe(name, src, k):
    d = tempfile.mkdtemp(prefix="verif-derive-")
    try:
        open(os.path.join(d, "main.rs"), "w").write(derive_gen.PRELUDE + src)
        rc, out, err, _ = rustc(["--crate-type", "lib", "--emit=metadata", "-o", os.path.join(d, "out.rmeta")] + k + ["main.rs"], cwd=d)
        if rc is None:
            raise Problem("the compiler does not come to an end")
        return rc == 0, err
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c25(prop, tier, seed):
    k = kit()
    nb, nm = SIZES[tier]
    nb, nm = nb, nm * 2
    tmp = tempfile.mkdtemp(prefix="verif-derive-")

    def batch(b):
        d = os.path.join(tmp, "b%d" % b)
        os.makedirs(d)
        mods = [derive_gen.module(seed * 1000 + 500000 + b, i) for i in range(nm)]
        left, bad = compile_batch(d, mods, k, True)
        shutil.rmtree(d, ignore_errors=True)
        return b, mods, left, bad
    good, dubious, samples = [], 0, []
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for b, mods, left, bad in ex.map(batch, range(nb)):
                for m in mods:
                    if m.index in bad:
                        ok, _ = stands_alone(m, k, "control")
                        if not ok:
                            dubious += 1
                            continue
                        ok, err = stands_alone(m, k, "bare")
                        if not ok:
                            msg = "a struct does not compile with the derives, but does with implementations written by hand: " + clip(first_error(err), 400)
                            raise Violation(msg, save_replay(prop, {"engine": "derive-compile", "seed": seed * 1000 + 500000 + b, "module": m.index, "message": msg, "source": m.bare, "errors": clip(err, 4000)}))
                good += left
                if left and len(samples) < 4:
                    samples.append(clip(left[0].bare, 600))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if dubious > nb * nm * 0.05:
        raise Problem("%d of %d generated modules do not compile even without the derives" % (dubious, nb * nm))
    cov = summary(good)
    return dict(cov, evaluations=cov["structs"], distinct_nontrivial=cov["structs"], rule=RULE[prop], samples=samples, controls_that_do_not_compile=dubious)


class Text:
    def __init__(self, index, text):
        self.index, self.bare = index, text


def rejected(dirn, mods, k):
    """compiles declarations that have to be rejected -> the indices of those the compiler says nothing about"""
    for m in mods:
        open(os.path.join(dirn, "m%d.rs" % m.index), "w").write(m.bad)
    open(os.path.join(dirn, "main.rs"), "w").write(derive_gen.PRELUDE + "".join("mod m%d;\n" % m.index for m in mods))
    rc, out, err, _ = rustc(["--crate-type", "lib", "--emit=metadata", "-o", os.path.join(dirn, "out.rmeta")] + k + ["--error-format=json", "main.rs"], cwd=dirn)
    if rc is None:
        raise Problem("the compiler does not come to an end")
    said = set().union(*[e[0] for e in errors(err)]) if rc else set()
    return [m for m in mods if m.index not in said]


def c26(prop, tier, seed):
    k = kit()
    nb, nm = (8, 120) if tier == "quick" else (64, 200)
    tmp = tempfile.mkdtemp(prefix="verif-derive-")

    def batch(b):
        d = os.path.join(tmp, "b%d" % b)
        mods = [derive_gen.negative(seed * 1000 + b, i) for i in range(nm)]
        os.makedirs(d)
        quiet = rejected(d, mods, k)
        fine = {}
        for what in ("control", "good"):
            ms = [Text(m.index, getattr(m, what)) for m in mods if getattr(m, what)]
            fine[what] = {m.index for m in compile_batch(d, ms, k, True)[0]} | {m.index for m in mods if not getattr(m, what)}
        shutil.rmtree(d, ignore_errors=True)
        return b, mods, quiet, fine
    cats, refused, dubious, samples, names = collections.Counter(), 0, 0, [], set()
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for b, mods, quiet, fine in ex.map(batch, range(nb)):
                for m in quiet:
                    # silent among others that fail: it may only fail at a later stage
                    ok, err = probe("", m.bad, k)
                    if ok:
                        msg = "a derive accepts %s:\n%s" % (m.what, clip(m.bad, 700))
                        raise Violation(msg, save_replay(prop, {"engine": "derive-reject", "seed": seed * 1000 + b, "module": m.index, "message": msg, "source": m.bad}))
                for m in mods:
                    if m.index in fine["control"] and m.index in fine["good"]:
                        refused += 1
                        cats[m.what] += 1
                        names.add(m.bad)
                    else:
                        dubious += 1
                if len(samples) < 4:
                    samples.append(clip(mods[0].bad, 400))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if dubious > nb * nm * 0.05:
        raise Problem("%d of %d controls do not compile" % (dubious, nb * nm))
    return {"evaluations": refused, "distinct_nontrivial": len(names), "rule": RULE[prop], "samples": samples, "kinds": dict(cats), "controls_that_do_not_compile": dubious}


def first_error(err):
    m = re.search(r"error[^\n]*\n(?:[^\n]*\n){0,8}", err)
    return m.group(0) if m else err[:500]


def replay(prop, r):
    k = kit()
    if r["engine"] == "derive-compile":
        m = derive_gen.module(r["seed"], r["module"])
        ok, err = stands_alone(m, k, "bare")
        print(err)
        return 0 if ok else 1
    if r["engine"] == "derive-reject":
        ok, err = probe("", r["source"], k)
        print("it compiles" if ok else err)
        return 1 if ok else 0
    if r["module"] is None:
        return 1 if r["message"] and not print(r["message"]) else 0
    d = tempfile.mkdtemp(prefix="verif-derive-")
    try:
        m = derive_gen.module(r["seed"], r["module"])
        left, bad = compile_batch(d, [m], k, False)
        rc, out, err, _ = run([os.path.join(d, "out"), prop, str(r["runseed"]), "400"], 300)
        print(out, err)
        return 1 if "FAIL " in out or rc != 0 else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
