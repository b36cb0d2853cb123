"""C27: generated templates are compiled into a proc macro and run in the compiler; the tokens are compared with those the templates describe."""
import collections, concurrent.futures as cf, json, os, shutil, tempfile
from vlib import *
import quote_gen

N = {"quick": (64, 48), "thorough": (1600, 48)}     # programs, templates in each

RULE = {"C27": "random templates of all documented forms, nested, each run with five sets of values inside the compiler; the tokens against those the template describes. Distinct (template, values) pairs are counted."}

HEAD = """#![allow(warnings)]
#![recursion_limit = "8192"]
extern crate proc_macro;
use proc_macro::{Delimiter, Ident, Spacing, Span, TokenStream, TokenTree};
mod t {
// quote! is all that a user has to import
use json_quote::quote;
use proc_macro::{Span, TokenStream as Toks};
#[derive(Clone, Copy)]
struct Row { name: &'static str, ty: &'static str, on: bool, opt: Option<&'static str>, list: &'static [&'static str], n: usize }
fn add(a: usize, b: usize) -> usize { a + b }
fn ts(s: &str) -> Toks { s.parse().unwrap() }
fn none(t: Toks) -> Toks { proc_macro::TokenTree::from(proc_macro::Group::new(proc_macro::Delimiter::None, t)).into() }
TEMPLATES
}
fn js(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => *o += "\\\\\\"",
            '\\\\' => *o += "\\\\\\\\",
            c if (c as u32) < 32 => *o += &format!("\\\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    *o += "\\",";
}
fn flat(t: TokenStream, o: &mut String) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(x) => js(&format!("i:{}", x), o),
            TokenTree::Literal(x) => js(&format!("l:{}", x), o),
            TokenTree::Punct(p) => js(&format!("p:{}{}", p.as_char(), if p.spacing() == Spacing::Joint { "+" } else { "" }), o),
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if a != "" { js(a, o); }
                flat(g.stream(), o);
                if b != "" { js(b, o); }
            }
        }
    }
}
#[proc_macro]
pub fn run(_: TokenStream) -> TokenStream {
    let mut o = String::new();
    std::panic::set_hook(Box::new(|_| ()));
    for f in t::T {
        for k in 0..KSETS {
            match std::panic::catch_unwind(|| f(k)) {
                Ok((t, mixed)) => {
                    let span = format!("{:?}", if mixed { Span::mixed_site() } else { Span::call_site() });
                    let other = t.clone().into_iter().filter(|x| format!("{:?}", x.span()) != span).count();
                    o += "["; flat(t, &mut o); o += &format!("{}]\\n", other);
                }
                Err(e) => { o += "\\"panic: "; let m = e.downcast_ref::<String>().map(|x| x.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"); o += &m.replace('\\\\', "/").replace('"', "'").replace('\\n', " "); o += "\\"\\n"; }
            }
        }
    }
    let _ = std::panic::take_hook();
    std::fs::write(std::env::var("QK_OUT").unwrap(), o).unwrap();
    TokenStream::new()
}
"""


def kit():
    """json_quote as a library: -> path of the rlib"""
    t = fresh(os.path.join(HARNESS, "target", "qk"))
    d = os.path.join(HARNESS, "qk")
    rc, out, err, _ = run(["cargo", "build", "--offline", "--message-format=json"], 600, cwd=d, e=env(CARGO_TARGET_DIR=t, RUSTFLAGS="-W " + LINT))
    lib = None
    for l in out.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "json_quote":
                lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    if rc != 0 or not lib:
        raise Problem("json_quote does not build:\n" + tail(err))
    return lib


def program(bodies):
    s = []
    for i, b in enumerate(bodies):
        s.append("fn t%d(k: usize) -> (Toks, bool) { %s }" % (i, b))
    s.append("pub static T: &[fn(usize) -> (Toks, bool)] = &[%s];" % ", ".join("t%d" % i for i in range(len(bodies))))
    return HEAD.replace("KSETS", str(quote_gen.Gen.K)).replace("TEMPLATES", "\n".join(s))


def once(lib, bodies, timeout):
    """-> ("ok", [[tokens]]) or (what happened, text)"""
    d = tempfile.mkdtemp(prefix="verif-quote-")
    try:
        open(os.path.join(d, "m.rs"), "w", encoding="utf-8").write(program(bodies))
        open(os.path.join(d, "x.rs"), "w").write("m::run!{}\nfn main() {}\n")
        base = ["rustc", "--edition", "2021", "-Awarnings", "-Cdebuginfo=0", "-Copt-level=0"]
        rc, out, err, _ = run(base + ["--crate-type", "proc-macro", "--crate-name", "m", "--extern", "json_quote=" + lib, "-L", "dependency=" + os.path.join(os.path.dirname(lib), "deps"), "m.rs"], timeout, cwd=d, e=env(RUST_MIN_STACK="268435456"))
        if rc != 0:
            return "does not compile", clip(err, 600) if rc is not None else "the compiler does not come to an end"
        so = [f for f in os.listdir(d) if f.endswith(".so")][0]
        rc, out, err, _ = run(base + ["--emit=metadata", "--crate-type", "bin", "--extern", "m=" + os.path.join(d, so), "x.rs"], timeout, cwd=d, e=env(QK_OUT=os.path.join(d, "out")))
        o = os.path.join(d, "out")
        if rc != 0 or not os.path.exists(o):
            return "ends the compiler", clip(err, 600) if rc is not None else "it does not come to an end"
        r = [json.loads(l) for l in open(o, encoding="utf-8")]
        k = quote_gen.Gen.K
        if len(r) != k * len(bodies):
            raise Problem("%d results for %d templates" % (len(r), len(bodies)))
        return "ok", [r[i * k:i * k + k] for i in range(len(bodies))]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def results(lib, bodies, timeout=300):
    how, r = once(lib, bodies, timeout)
    if how == "ok":
        return r
    if len(bodies) == 1:
        return ["%s: %s" % (how, r)]
    h = len(bodies) // 2
    return results(lib, bodies[:h], timeout) + results(lib, bodies[h:], timeout)


# the operators of several characters: a token that is joined to the next one is read as one of them
JOINED = set("-> => <= >= != && || == += -= *= /= %= ^= &= |= >> << .. :: ..= ... <<= >>=".split())


def fused(want, i):
    """an operator that a join behind want[i] makes of tokens that were apart"""
    if i + 1 >= len(want) or not want[i + 1].startswith("p:"):
        return False
    b = i
    while b and want[b - 1].startswith("p:") and want[b - 1].endswith("+"):
        b -= 1
    e = i + 1
    while want[e].endswith("+") and e + 1 < len(want) and want[e + 1].startswith("p:"):
        e += 1
    c = [x[2] for x in want[b:e + 1]]
    i -= b
    return any("".join(c[s:t]) in JOINED for s in range(i + 1) for t in range(i + 2, len(c) + 1))


def same(want, got):
    if len(want) != len(got):
        return False
    for i, (w, g) in enumerate(zip(want, got)):
        if w != g and not (g == w + "+" and w.startswith("p:") and not fused(want, i)):
            return False
    return True


def show(t):
    return " ".join(x[2:].rstrip("+") if x[:2] == "p:" else x[2:] if x[:2] in ("i:", "l:") else x for x in t)


def judge(want, got):
    if isinstance(got, str):
        return got
    for k, (w, g) in enumerate(zip(want, got)):
        if w == "panic":
            if not isinstance(g, str):
                return "values %d are accepted and give  %s" % (k, clip(show(g[:-1]), 300))
            continue
        if isinstance(g, str):
            return "values %d: %s" % (k, g)
        g, other = g[:-1], g[-1]
        if not same(w, g):
            return "values %d give  %s  and not  %s" % (k, clip(show(g), 300), clip(show(w), 300))
        if other:
            return "values %d: %d of the tokens  %s  do not have the span asked for" % (k, other, clip(show(g), 300))
    return None


def _go(a):
    lib, seed, b, n = a
    ts = [quote_gen.template(seed * 100000 + b, i) for i in range(n)]
    rs = results(lib, [t[0] for t in ts])
    bad, used = None, collections.Counter()
    for (body, want, us, src), got in zip(ts, rs):
        used.update(us)
        m = judge(want, got)
        if m and not bad:
            bad = (body, want, src, m)
    toks = sum(len(w) for t in ts for w in t[1])
    return bad, used, toks, len({hash(t[0]) for t in ts}), ts[0][3]


def c27(prop, tier, seed):
    lib = kit()
    progs, n = N[tier]
    used, toks, distinct, samples = collections.Counter(), 0, 0, []
    with cf.ProcessPoolExecutor(8) as ex:
        for bad, us, tk, dn, one in ex.map(_go, [(lib, seed, b, n) for b in range(progs)]):
            if bad:
                body, want, src, m = bad
                m2 = judge(want, results(lib, [body])[0])
                msg = "quote!{ %s }  with  %s  %s" % (clip(src, 600), clip(body.split(" let out:")[0], 500), m2 or m)
                raise Violation(clip(msg, 1800), save_replay(prop, {"engine": "quote", "body": body, "want": want, "message": m2 or m}))
            used.update(us); toks += tk; distinct += dn
            if len(samples) < 6:
                samples.append(clip(one, 300))
    return {"evaluations": progs * n * quote_gen.Gen.K, "distinct_nontrivial": distinct * quote_gen.Gen.K, "rule": RULE[prop], "samples": samples, "observed": {"templates": progs * n, "tokens compared": toks}, "features": dict(used)}


def replay(prop, r):
    m = judge(r["want"], results(kit(), [r["body"]])[0])
    print(m or "ok")
    return 1 if m else 0
