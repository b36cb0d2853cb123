"""C28, C31, C32: json_parse runs inside the compiler on generated declarations; what it reports is compared with an independent reading."""
import collections, concurrent.futures as cf, json, os, re, shutil, tempfile
from vlib import *
import attr_gen, parse_gen
from parse_gen import Bad
from derive_run import rustc

PK = os.path.join(HARNESS, "pk")
N = {"quick": (60000, 12000, 24000, 60000), "thorough": (1500000, 240000, 600000, 1000000)}   # supported, odd, garbage, attributes
N32 = {"quick": (60000, 40000), "thorough": (1200000, 800000)}   # types, other parts

RULE = {
    "C28": "random struct, enum and fn declarations (attributes, visibilities, generics, where clauses, types of every form, groups without delimiters) read by json_parse inside the compiler; its parts, its text and the text of its text against an independent reading of the same tokens. Forms that are not promised have to be an error or be kept whole, and sequences of tokens that are no declaration may not make it panic or hang. Distinct declarations are counted.",
    "C31": "random attribute lists on structs, enums, fields, variants and functions; every query of Meta (get by position, name, group and nested, idents, literals, pairs, groups) against the list that was written. Distinct lists are counted.",
}

RULE["C32"] = "random types (every form of type, bound and argument) and parts of declarations (generics, where clauses, fields, variants, parameters, attributes, structs, enums, functions) parsed alone inside the compiler; how they are taken apart, their text, the parts of their text, and the equality of pairs of types, against an independent reading of the same tokens. Distinct texts are counted."


def kit():
    t = fresh(os.path.join(HARNESS, "target", "pk"))
    rc, out, err, _ = run(["cargo", "build", "--offline", "--message-format=json"], 900, cwd=PK, e=env(CARGO_TARGET_DIR=t, RUSTFLAGS="-W " + LINT))
    lib = None
    for l in out.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "pk":
                lib = [f for f in m["filenames"] if f.endswith(".so")][0]
    if rc != 0 or not lib:
        raise Problem("the harness of json_parse does not build:\n" + tail(err))
    return lib


def once(lib, cases, timeout):
    """cases: [(kind, text)] -> ("ok", [results]) | ("dies"|"hangs", message)"""
    d = tempfile.mkdtemp(prefix="verif-parse-")
    try:
        with open(os.path.join(d, "cases"), "wb") as f:
            for k, t in cases:
                b = t.encode()
                f.write(b"%s %d\n" % (k.encode(), len(b)) + b)
        open(os.path.join(d, "x.rs"), "w").write("pk::run!{}\nfn main() {}\n")
        e = env(PK_CASES=os.path.join(d, "cases"), PK_OUT=os.path.join(d, "out"))
        rc, out, err, cpu = run(["rustc", "--edition", "2021", "-Awarnings", "--emit=metadata", "--crate-type", "bin", "-o", os.path.join(d, "x"), "--extern", "pk=" + lib, "x.rs"], timeout, cwd=d, e=e)
        o = os.path.join(d, "out")
        if rc == 0 and os.path.exists(o):
            r = [json.loads(l) for l in open(o, encoding="utf-8")]
            if len(r) != len(cases):
                raise Problem("%d results for %d cases" % (len(r), len(cases)))
            return "ok", r
        if rc is None:
            return "hangs", "the compiler does not come to an end"
        return "dies", clip(err, 400) or "ends with %s" % rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_cases(lib, cases, timeout=200):
    """all results; a case with which the compiler dies or hangs gives {"panic": ..}"""
    how, r = once(lib, cases, timeout)
    if how == "ok":
        return r
    if len(cases) == 1:
        return [{"lexes": True, "src": [], "panic": "the compiler %s: %s" % (how, r)}]
    h = len(cases) // 2
    t = max(20, timeout // 2)
    return run_cases(lib, cases[:h], t) + run_cases(lib, cases[h:], t)


def judge(kind, text, r):
    """-> message or None; r: what json_parse said"""
    if not r["lexes"]:
        return None
    if "panic" in r:
        return "json_parse panics (%s)" % r["panic"]
    if kind == "garbage":
        return None
    if "error" in r:
        if kind == "item":
            return "is not read: %s" % clip(r["error"], 300)
        return None
    try:
        want = parse_gen.item(r["src"])
    except Bad as b:
        # not a declaration as far as this reader goes: only its text can be judged
        if kind == "item":
            raise Problem("the reader of the check does not understand %r: %s" % (text, b))
        return None if r["out"] == r["src"] else "is read as something else: %s" % clip(r["text"], 400)
    try:
        got = parse_gen.item(r["out"])
    except Bad as b:
        return "is written as %s, which is no such declaration (%s)" % (clip(r["text"], 400), b)
    d = parse_gen.same(want, got)
    if d:
        return "is written as %s (%s)" % (clip(r["text"], 400), clip(d, 200))
    if more_sized(r):
        return "is written as %s, with a bound that is not there" % clip(r["text"], 400)
    if r["again"] != r["out"]:
        return "is written as %s, and that is read as something else: %s" % (clip(r["text"], 300), clip(parse_gen.show(r["again"]) if isinstance(r["again"], list) else str(r["again"]), 300))
    if kind != "item":
        return None
    d = parts(want, r["parts"])
    return d and "is reported with other parts: " + clip(d, 300)


def more_sized(r):
    """a `Sized` that is the default already may be left out, but none may be added"""
    n = lambda t: json.dumps(t).count('"i:Sized"')
    return n(r["out"]) > n(r["src"])


def metas(x):
    """the attributes in a report, with the delimiters of their groups made alike"""
    if isinstance(x, dict):
        return {k: (parse_gen.R(parse_gen.tree(v)).meta() if k == "meta" and v is not None else metas(v)) for k, v in x.items()}
    return [metas(y) for y in x] if isinstance(x, list) else x


def parts(want, p):
    p = metas(p)
    w = parse_gen.parts_of(want)
    if p["generics"] is not None and not p["generics"]["items"]:
        p["generics"] = None
    if p["where"] is not None and not p["where"]:
        p["where"] = None
    if p["generics"] is not None:
        bare = p["generics"].pop("bare")
        g = [dict(x, default=None) for x in w["generics"]["items"]]
        try:
            b = parse_gen.R(parse_gen.tree(bare)).generics()
        except Bad:
            return "no_defaults gives " + parse_gen.show(bare)
        d = parse_gen.same(g, b, "no_defaults")
        if d:
            return d
    p["which"] = [x == "true" if isinstance(x, str) else x for x in p["which"]]
    for v in w.get("values", []):
        # -1 comes as a number
        if v["disc"] is not None:
            v["disc"] = int("".join(t[2:] for t in v["disc"]))
    if w.get("abi"):
        w["abi"] = w["abi"][2:]
    return parse_gen.same(norm(w), norm(p))


def norm(x):
    """types as token lists, a comma before '>' left out"""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list) and x and isinstance(x[0], str) and x[0][:2] in ("p:", "i:", "l:", "(", "[", "{"):
        return parse_gen.ty(parse_gen.tree(x))
    return [norm(y) for y in x] if isinstance(x, list) else x


def judge32(kind, text, r):
    """-> message or None"""
    if not r["lexes"]:
        return None
    if "panic" in r:
        return "json_parse panics (%s)" % r["panic"]
    if "error" in r:
        return "is not read: %s" % clip(r["error"], 300)
    shown = clip(r["text"], 300)
    if kind == "type":
        try:
            t = parse_gen.tree(r["src"])
        except Bad as b:
            raise Problem("the reader of the check does not understand %r: %s" % (text, b))
        want = parse_gen.type_(t)
        if parse_gen.ty(parse_gen.tree(r["out"])) != want["text"]:
            return "is written as " + shown
        d = parse_gen.apart(want, r["parts"])
        if d:
            return "is taken apart wrongly: " + clip(d, 300)
        if isinstance(r["again"], str):
            return "is written as %s, which is not read again: %s" % (shown, clip(r["again"], 200))
        d = parse_gen.apart(want, r["again"])
        if d:
            return "is written as %s, which is taken apart differently: %s" % (shown, clip(d, 200))
        if "equal" in r:
            b = text.split("\x01")[1]
            same = b == text.split("\x01")[0]
            other = parse_gen.ty(parse_gen.tree(r["other"]["text"]))
            e = [x == "true" if isinstance(x, str) else x for x in r["equal"]]
            if not e[3] or e[0] != e[1] or e[0] == e[2]:
                return "and %s: == gives %s in one order, %s in the other; != gives %s; a type is equal to itself: %s" % (b, e[0], e[1], e[2], e[3])
            if same and not e[0] or e[0] and other != want["text"]:
                return "and %s are %s" % (b, "equal" if e[0] else "not equal")
        return None
    if kind in ("struct", "enum", "fn"):
        try:
            want = parse_gen.item(r["src"])
        except Bad as b:
            raise Problem("the reader of the check does not understand %r: %s" % (text, b))
        try:
            got = parse_gen.item(r["out"])
        except Bad as b:
            return "is written as %s, which is no such declaration (%s)" % (shown, b)
        d = parse_gen.same(want, got)
        if d:
            return "is written as %s (%s)" % (shown, clip(d, 200))
        if r["again"] != r["out"]:
            return "is written as %s, and that is read as something else" % shown
        return None
    try:
        want = parse_gen.alone(kind, r["src"])
    except Bad as b:
        raise Problem("the reader of the check does not understand %r: %s" % (text, b))
    empty = kind in ("generics", "where") and not want or want == "none"
    if not empty:
        try:
            got = parse_gen.alone(kind, r["out"])
        except Bad as b:
            return "is written as %s, which is no such part (%s)" % (shown, b)
        d = parse_gen.same({kind: want}, {kind: got})
        if d:
            return "is written as %s (%s)" % (shown, clip(d, 200))
        if more_sized(r):
            return "is written as %s, with a bound that is not there" % shown
        if r["again"] != r["parts"] and kind != "where":
            return "is written as %s, and that is read as something else" % shown
    p = r["parts"]
    if kind == "meta":
        p = parse_gen.R(parse_gen.tree(p)).meta()
    elif kind == "generics":
        only = []
        for g in want:
            only += (["p:,"] if only else []) + g["ident"]
        if p["only"] != (["p:<"] + only + ["p:>"] if want else []):
            return "only_idents gives " + parse_gen.show(p["only"])
        bare = parse_gen.alone(kind, p["bare"]) if want else []
        d = parse_gen.same({kind: [dict(x, default=None) for x in want]}, {kind: bare})
        if d:
            return "no_defaults gives %s (%s)" % (parse_gen.show(p["bare"]), clip(d, 200))
        p = p["items"]
    elif kind == "fields":
        n = [len(want) if isinstance(want, list) and r["src"][0] == o else None for o in "({"]
        if [p["tuple"], p["named"]] != n:
            return "index_fields and name_fields have %s fields, not %s" % ([p["tuple"], p["named"]], n)
        p = p["fields"]
    elif kind == "values":
        for v in want:
            if v["disc"] is not None:
                v["disc"] = int("".join(t[2:] for t in v["disc"]))
    p = metas(p)
    d = parse_gen.same(norm({kind: want}), norm({kind: p}))
    return d and "is reported with other parts: " + clip(d, 300)


def shards(items, n):
    k = (len(items) + n - 1) // n or 1
    return [items[i:i + k] for i in range(0, len(items), k)]


def confirmed(lib, kind, text, judge_):
    r = run_cases(lib, [(kind, text)], 60)[0]
    return judge_(r)


def c28(prop, tier, seed):
    lib = kit()
    ns, no, ng, _ = N[tier]
    per = 3000
    jobs = [("item", b) for b in range(ns // per)] + [("odd", b) for b in range(no // per)] + [("garbage", b) for b in range(ng // per)]
    used, seen = collections.Counter(), set()
    tot, samples = collections.Counter(), []

    with cf.ProcessPoolExecutor(8) as ex:
        for kind, bad, stat, u, hs, one in ex.map(_go28, [(lib, seed, per, j) for j in jobs]):
            if bad:
                k, t, m = bad
                m2 = confirmed(lib, k, t, lambda r: judge(k, t, r))
                if m2:
                    msg = "%s  %s" % (t, m2)
                    raise Violation(clip(msg, 1200), save_replay(prop, {"engine": "parse", "kind": k, "text": t, "message": m2}))
                raise Problem("seen once and not again: %s %s" % (t, m))
            tot.update(stat); used.update(u); seen.update(hs)
            if len(samples) < 6 and kind == "item":
                samples.append(clip(one, 300))
    read = tot["item read"]
    if read < ns * 0.9:
        raise Problem("only %d of %d declarations are token sequences: %s" % (read, ns, dict(tot)))
    return {"evaluations": sum(tot.values()), "distinct_nontrivial": len(seen), "rule": RULE[prop], "samples": samples, "observed": dict(tot), "features": dict(used)}


def _go28(a):
    lib, seed, per, (kind, b) = a
    out = []
    for i in range(per):
        g = parse_gen.G(seed * 100000 + b, {"item": 0, "odd": 10 ** 6, "garbage": 2 * 10 ** 6}[kind] + i)
        out.append((kind, {"item": g.supported, "odd": g.odd, "garbage": g.garbage}[kind](), g.used))
    res = run_cases(lib, [(k, t) for k, t, _ in out])
    bad, stat, u = None, collections.Counter(), collections.Counter()
    for (k, t, us), r in zip(out, res):
        m = judge(k, t, r)
        stat[k + (" not tokens" if not r["lexes"] else " refused" if "error" in r else " read")] += 1
        if r["lexes"]:
            u.update(us)
        if m and not bad:
            bad = (k, t, m)
    return kind, bad, stat, u, [hash(t) for _, t, _ in out], out[0][1]


def c31(prop, tier, seed):
    lib = kit()
    n, per = N[tier][3], 2500
    stat, used, seen, samples = collections.Counter(), collections.Counter(), set(), []
    with cf.ProcessPoolExecutor(8) as ex:
        for bad, st, u, hs, one in ex.map(_go31, [(lib, seed, per, b) for b in range(n // per)]):
            if bad:
                t, names, its, m = bad
                m = confirmed(lib, "attrs", t, lambda r: attr_gen.judge(names, its, r)) or m
                msg = "%s  %s" % (t.split("\x01")[0], m)
                raise Violation(clip(msg, 1200), save_replay(prop, {"engine": "parse", "kind": "attrs", "text": t, "names": names, "items": its, "message": m}))
            stat.update(st); used.update(u); seen.update(hs)
            if len(samples) < 6:
                samples.append(clip(one.split("\x01")[0], 300))
    if stat["asked"] < n * 0.95:
        raise Problem("only %d of %d lists are token sequences" % (stat["asked"], n))
    return {"evaluations": stat["answers"], "distinct_nontrivial": len(seen), "rule": RULE[prop], "samples": samples, "observed": dict(stat), "features": dict(used)}


def c32(prop, tier, seed):
    lib = kit()
    nt, np_ = N32[tier]
    per = 2500
    jobs = [("type", b) for b in range(nt // per)] + [("part", b) for b in range(np_ // per)]
    stat, used, seen, samples = collections.Counter(), collections.Counter(), set(), []
    with cf.ProcessPoolExecutor(8) as ex:
        for bad, st, u, hs, one in ex.map(_go32, [(lib, seed, per, j) for j in jobs]):
            if bad:
                k, t, m = bad
                m2 = confirmed(lib, "alone:" + k, t, lambda r: judge32(k, t, r))
                if m2:
                    raise Violation(clip("%s  %s" % (t.split("\x01")[0], m2), 1200), save_replay(prop, {"engine": "parse", "kind": "alone:" + k, "text": t, "message": m2}))
                raise Problem("seen once and not again: %s %s" % (t, m))
            stat.update(st); used.update(u); seen.update(hs)
            if len(samples) < 8 and hs:
                samples.append(clip(one.split("\x01")[0], 300))
    if stat["read"] < (nt + np_) * 0.9:
        raise Problem("only %d of %d texts are token sequences" % (stat["read"], nt + np_))
    return {"evaluations": stat["read"] + stat["pairs"], "distinct_nontrivial": len(seen), "rule": RULE[prop], "samples": samples, "observed": dict(stat), "features": dict(used)}


def _go32(a):
    lib, seed, per, (which, b) = a
    out = []
    for i in range(per):
        g = parse_gen.G(seed * 100000 + b, (3 if which == "type" else 4) * 10 ** 6 + i)
        if which == "type":
            x, y = g.type_alone()
            out.append(("type", x + "\x01" + (x if y is None else y), g.used))
        else:
            out.append(g.part() + (g.used,))
    res = run_cases(lib, [("alone:" + k, t) for k, t, _ in out])
    bad, stat, u = None, collections.Counter(), collections.Counter()
    for (k, t, us), r in zip(out, res):
        stat["read" if r["lexes"] else "not tokens"] += 1
        if r["lexes"]:
            stat["kind " + k] += 1
            u.update(us)
            if "equal" in r:
                stat["pairs"] += 1
                stat["pairs equal"] += r["equal"][0] in (True, "true")
        m = judge32(k, t, r)
        if m and not bad:
            bad = (k, t, m)
    return bad, stat, u, [hash(t) for _, t, _ in out], out[-1][1]


def count(x):
    return sum(map(count, x.values() if isinstance(x, dict) else x)) if isinstance(x, (dict, list)) else 1


def _go31(a):
    lib, seed, per, b = a
    cs = []
    for i in range(per):
        g = attr_gen.A(seed * 100000 + b, i)
        cs.append(g.case() + (g.used,))
    res = run_cases(lib, [("attrs", c[0]) for c in cs])
    bad, stat, u = None, collections.Counter(), collections.Counter()
    for (t, names, its, us), r in zip(cs, res):
        if not r["lexes"]:
            stat["not tokens"] += 1
            continue
        stat["asked"] += 1
        stat["answers"] += count(r.get("queries"))
        u.update(us)
        m = attr_gen.judge(names, its, r)
        if m and not bad:
            bad = (t, names, its, m)
    return bad, stat, u, [hash(t) for t, _, _, _ in cs], cs[0][0]


def replay(prop, r):
    lib = kit()
    if r["kind"].startswith("alone:"):
        m = confirmed(lib, r["kind"], r["text"], lambda x: judge32(r["kind"][6:], r["text"], x))
    elif r["kind"] == "attrs":
        m = confirmed(lib, "attrs", r["text"], lambda x: attr_gen.judge(r["names"], r["items"], x))
    else:
        m = confirmed(lib, r["kind"], r["text"], lambda x: judge(r["kind"], r["text"], x))
    print(m or "ok")
    return 1 if m else 0
