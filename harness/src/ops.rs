//! Monitors of lookup, editing, paths, text-level functions, mutable access and failures:
//! C08, C09, C10, C11, C12, C13, C15, C16, C29.
use crate::fw::*;
use crate::gen::G;
use crate::model::*;
use crate::reader::read;
use crate::rng::hash_str;
use crate::text::{self, seq, seq_count};
use json::{Finder, Json, Path, ToJson};

pub const HUGE: &[usize] = &[usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 60, 1 << 59];

pub fn typed(p: &[Step]) -> Path {
    let mut path = match &p[0] { Step::K(k) => Path::new(k.as_str()), Step::I(i) => Path::new(*i) };
    for s in &p[1..] { match s { Step::K(k) => { path.append(k.as_str()); } Step::I(i) => { path.append(*i); } } }
    path
}
/// the same path through another of the accepted argument types
fn typed_variant(p: &[Step], how: usize) -> Path {
    let f = |s: &Step| -> Finder { match (s, how % 4) {
        (Step::K(k), 0) => Finder::from(k.clone()),
        (Step::K(k), 1) => Finder::from(k),
        (Step::K(k), 2) => Finder::Key(k.clone()),
        (Step::K(k), _) => Finder::from(k.as_str()),
        (Step::I(i), 0) => Finder::from(*i),
        (Step::I(i), 1) => Finder::from(i),
        (Step::I(i), _) => Finder::Index(*i),
    } };
    let mut path: Path = if how % 2 == 0 { f(&p[0]).into() } else { Path::new(f(&p[0])) };
    for s in &p[1..] { path.append(f(s)); }
    path
}
fn pshow(p: &[Step]) -> String { clip(&format!("{:?}", p), 300) }
fn fpv(v: &V, p: &[Step]) -> u64 { hash_str(&format!("{:?}{:?}", v, p)) }
fn vshow(v: &V) -> String { let mut s = String::new(); plain(v, &mut s); clip(&s, 300) }
/// the monitor's own rendering, for messages and fingerprints
fn plain(v: &V, out: &mut String) {
    match v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::Num(f) => out.push_str(&format!("{:?}", f)),
        V::Str(s) => out.push_str(&format!("{:?}", s)),
        V::Arr(a) => { out.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { out.push(',') } plain(x, out) } out.push(']') }
        V::Obj(m) => { out.push('{'); for (i, (k, x)) in m.iter().enumerate() { if i > 0 { out.push(',') } out.push_str(&format!("{:?}:", k)); plain(x, out) } out.push('}') }
    }
}

/// a document and a path that mostly hits, biased towards documents with several levels
fn doc_path(g: &mut G) -> (V, Vec<Step>) {
    let v = g.doc();
    let p = g.path(&v);
    (v, p)
}

fn all_paths(v: &V, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>, cap: usize) {
    if out.len() >= cap { return }
    if !at.is_empty() { out.push(at.clone()) }
    match v {
        V::Arr(a) => for (i, x) in a.iter().enumerate() { at.push(Step::I(i)); all_paths(x, at, out, cap); at.pop(); },
        V::Obj(m) => for (i, (k, x)) in m.iter().enumerate() {
            if m[i + 1..].iter().any(|y| &y.0 == k) { continue }
            at.push(Step::K(k.clone())); all_paths(x, at, out, cap); at.pop();
        },
        _ => (),
    }
}

/// documents in which one container has n entries, and a place in it; also deep chains
fn sized_doc(f: u64, n: usize, deep: usize, g: &mut G) -> (V, Vec<Step>) {
    let i = match g.r.below(4) { 0 => 0, 1 => n.saturating_sub(1), 2 => n, _ => g.r.below(n + 1) };
    match f {
        0 => (V::Arr((0..n).map(|i| V::Num(i as f64)).collect()), vec![Step::I(i)]),
        1 => (V::Obj((0..n).map(|i| (format!("k{}", i), V::Num(i as f64))).collect()), vec![Step::K(format!("k{}", i))]),
        2 => (V::Obj((0..n).map(|i| ("k".to_string(), V::Arr(vec![V::Num(i as f64)]))).chain(Some(("z".to_string(), V::Null))).collect()), vec![Step::K("k".into()), Step::I(0)]),
        3 => { // a chain of n steps
            let n = text::levels(n, deep).min(deep);
            let mut v = V::Str("end".into());
            let mut p = Vec::new();
            for d in 0..n.max(1) {
                if g.r.chance(1, 2) { v = V::Arr(vec![V::Num(d as f64), v, V::Null]); p.push(Step::I(1)) }
                else { let k = g.key(); let k = if k.ends_with('\\') || k.is_empty() { "q".to_string() } else { k }; v = V::Obj(vec![(k.clone(), V::Num(0.5)), ("o".to_string() + &k, V::Null), (k.clone(), v)]); p.push(Step::K(k)) }
            }
            p.reverse();
            (v, p)
        }
        4 => { let c = g.ch(); let k: String = std::iter::repeat(c).take(n.max(1)).collect(); let k2 = format!("{}x", k); let k = if k.ends_with('\\') { k + "e" } else { k }; (V::Obj(vec![(k.clone(), V::Arr(vec![V::Bool(true)])), (k2, V::Null)]), vec![Step::K(k), Step::I(0)]) }
        _ => (V::Arr(vec![V::Obj(vec![]), V::Arr((0..n).map(|i| V::Obj(vec![("v".into(), V::Num(i as f64))])).collect())]), vec![Step::I(1), Step::I(i), Step::K("v".into())]),
    }
}
fn size_stream(ctx: &Ctx, cap: usize, deep: usize, f: impl Fn(&mut Wk, V, Vec<Step>) -> Result<(), String> + Send + Sync + 'static) -> Stream {
    let sz = text::sizes_far(ctx, if ctx.tier == Tier::Mini { 4 } else { 130 }, if ctx.tier == Tier::Mini { 8 } else { cap });
    let m = sz.len() as u64;
    let mut s = exhaustive("sizes", m * 6 * 3, move |w, i| {
        let n = sz[(i / 18) as usize];
        let (v, p) = w.g(|g, _| sized_doc((i / 3) % 6, n, deep, g));
        f(w, v, p)
    });
    s.chunk = 18;
    s
}

// ---- C08 ----

fn lookup(w: &mut Wk, v: &V, j: &Json, p: &[Step]) -> Result<(), String> {
    let want = v.find(p);
    let target = walk(j, p);
    if want.is_ok() != target.is_some() { return Err(format!("HARNESS model and walk disagree on {} in {}", pshow(p), vshow(v))); }
    w.saw(fpv(v, p));
    w.count(if want.is_ok() { "lookups_hit" } else { "lookups_miss" });
    w.max("max_steps", p.len() as u64);
    w.sample(|| format!("{} in {}", pshow(p), vshow(v)));
    let how = w.rng.below(8);
    let spell = if G::spellable(p) { Some(G::spell(p)) } else { None };
    let mut got: Vec<(String, Result<Result<&Json, json::Error>, String>)> = vec![("find".into(), call(|| j.find(typed_variant(p, how))))];
    if let Some(s) = &spell { got.push((format!("get({})", json_str(&clip(s, 200))), call(|| j.get(s)))) }
    if p.len() == 1 {
        got.push(("find(single)".into(), match &p[0] { Step::K(k) => if how % 2 == 0 { call(|| j.find(k.as_str())) } else { call(|| j.find(k)) }, Step::I(i) => if how % 2 == 0 { call(|| j.find(*i)) } else { call(|| j.find(i)) } }));
    }
    match p {
        [Step::K(a), Step::I(b)] => got.push(("find!".into(), call(|| json::find!(j, a, b)))),
        [Step::I(a), Step::K(b)] => got.push(("find!".into(), call(|| json::find!(j, *a, b.as_str())))),
        [Step::K(a), Step::K(b), Step::K(c)] => got.push(("find!".into(), call(|| json::find!(j, a, b.clone(), c.as_str(),)))),
        [Step::K(a)] => got.push(("find!".into(), call(|| json::find!(j, a)))),
        _ => (),
    }
    // indexing, step by step
    let ix = call(|| { let mut x = j; for s in p { x = match s { Step::K(k) => if how % 2 == 0 { &x[k.as_str()] } else { &x[k] }, Step::I(i) => if how % 2 == 0 { &x[*i] } else { &x[i] } } } x });
    match (ix, target) {
        (Ok(x), Some(t)) => if !std::ptr::eq(x, t) { return Err(format!("indexing by {} in {} gives {} instead of the addressed {}", pshow(p), vshow(v), show_json(x), show_json(t))) },
        (Ok(x), None) => return Err(format!("indexing by {} in {} gives {} although the path does not exist", pshow(p), vshow(v), show_json(x))),
        (Err(e), Some(_)) => return Err(format!("indexing by {} in {} {}", pshow(p), vshow(v), e)),
        (Err(_), None) => (),
    }
    for (name, r) in got {
        let r = r.map_err(|e| format!("{} of {} in {} {}", name, pshow(p), vshow(v), e))?;
        match (r, target) {
            (Ok(x), Some(t)) => if !std::ptr::eq(x, t) { return Err(format!("{} of {} in {} gives {} instead of the addressed {}", name, pshow(p), vshow(v), show_json(x), show_json(t))) },
            (Ok(x), None) => return Err(format!("{} of {} in {} gives {} although the path does not exist", name, pshow(p), vshow(v), show_json(x))),
            (Err(e), Some(_)) => return Err(format!("{} of {} in {} fails although it exists: {}", name, pshow(p), vshow(v), e)),
            (Err(_), None) => (),
        }
    }
    Ok(())
}

pub fn c08(ctx: &Ctx) -> Vec<Stream> {
    vec![
        stream("documents-and-paths", ctx.n(40, 150_000, 4_000_000), |w, _| {
            let (v, ps) = w.g(|g, _| { let v = g.doc(); let ps: Vec<_> = (0..6).map(|_| g.path(&v)).collect(); (v, ps) });
            let j = v.to_json();
            for p in &ps { lookup(w, &v, &j, p)?; }
            v.same(&j).map_err(|e| format!("lookups changed the document, {}: {}", e, vshow(&v)))
        }),
        stream("every-address", ctx.n(10, 6_000, 200_000), |w, _| {
            let v = w.g(|g, _| g.doc_sized(120));
            let j = v.to_json();
            let mut ps = Vec::new();
            all_paths(&v, &mut Vec::new(), &mut ps, 150);
            w.count("documents_fully_addressed");
            for p in &ps {
                lookup(w, &v, &j, p)?;
                let mut q = p.clone();
                q.push(w.g(|g, _| g.stray_step()));
                lookup(w, &v, &j, &q)?;
            }
            v.same(&j).map_err(|e| format!("lookups changed the document, {}: {}", e, vshow(&v)))
        }),
        // documents as the parser makes them
        stream("parsed-documents", ctx.n(10, 30_000, 1_000_000), |w, _| {
            let (t, ps) = w.g(|g, _| { let v = g.doc(); let t = g.render(&v); let ps: Vec<_> = (0..5).map(|_| g.path(&v)).collect(); (t, ps) });
            let j = match call(|| Json::parse(&t)) { Ok(Ok(j)) => j, _ => { w.trivial(); return Ok(()) } };
            let v = V::of(&j);
            for p in &ps { lookup(w, &v, &j, p)?; }
            Ok(())
        }),
        size_stream(ctx, 70_000, 1100, |w, v, p| {
            let j = v.to_json();
            lookup(w, &v, &j, &p)?;
            for cut in [1, p.len() / 2] { if cut > 0 && cut < p.len() { lookup(w, &v, &j, &p[..cut])?; } }
            for i in [0, p.len() - 1, p.len() / 2] { // one step wrong
                let mut q = p.clone();
                q[i] = match &q[i] { Step::I(_) => Step::I(HUGE[i % HUGE.len()]), Step::K(k) => Step::K(k.clone() + "?") };
                lookup(w, &v, &j, &q)?;
                q[i] = match &p[i] { Step::I(n) => Step::K(n.to_string()), Step::K(_) => Step::I(0) };
                lookup(w, &v, &j, &q)?;
            }
            v.same(&j).map_err(|e| format!("lookups changed the document, {}: {}", e, vshow(&v)))
        }),
    ]
}

// ---- C09 ----

#[derive(Clone, Copy, PartialEq)]
enum Form { Set, Update, Single, Macro }

fn form(w: &mut Wk, p: &[Step]) -> Form {
    let f = *w.rng.pick(&[Form::Set, Form::Set, Form::Update, Form::Single, Form::Macro]);
    match f {
        Form::Set if !G::spellable(p) => Form::Update,
        Form::Single if p.len() != 1 => Form::Update,
        Form::Macro if p.len() != 2 => Form::Update,
        f => f,
    }
}
fn do_update<'a, X: ToJson>(j: &'a mut Json, p: &[Step], x: X, f: Form, how: usize) -> Result<&'a mut Json, json::Error> {
    match f {
        Form::Set => j.set(&G::spell(p), x),
        Form::Single => match &p[0] { Step::K(k) => if how % 2 == 0 { j.update(k.as_str(), x) } else { j.update(k.clone(), x) }, Step::I(i) => if how % 2 == 0 { j.update(*i, x) } else { j.update(i, x) } },
        Form::Macro => match p {
            [Step::K(a), Step::K(b)] => json::update!(x => j, a, b.as_str()),
            [Step::K(a), Step::I(b)] => json::update!(x => j, a.clone(), *b,),
            [Step::I(a), Step::K(b)] => json::update!(x => j, a, b),
            [Step::I(a), Step::I(b)] => json::update!(x => j, *a, *b),
            _ => unreachable!(),
        },
        Form::Update => j.update(typed_variant(p, how), x),
    }
}

fn store(w: &mut Wk, v: &mut V, j: &mut Json, p: &[Step], x: &V, ctxs: &str) -> Result<(), String> {
    let f = form(w, p);
    let how = w.rng.below(8);
    let before = vshow(v);
    w.saw(fpv(v, p));
    match v.find(p) { Ok(_) => w.count("stores_over_existing"), Err(_) => w.count("stores_creating") }
    if p.len() > 1 && v.find(&p[..p.len() - 1]).is_err() { w.count("stores_making_intermediates") }
    w.sample(|| format!("{} := {} in {}", pshow(p), show(x), before));
    v.update(p, x.clone());
    let where_ = || format!("{}storing {} at {} ({}) in {}", ctxs, show(x), pshow(p), match f { Form::Set => "set", Form::Update => "update", Form::Single => "update with one step", Form::Macro => "update!" }, before);
    let xj = x.to_json();
    let r = call(|| match x {
        V::Num(n) if how % 2 == 0 => do_update(j, p, *n, f, how).map(|r| r as *const Json),
        V::Str(s) if how % 2 == 0 => do_update(j, p, s.as_str(), f, how).map(|r| r as *const Json),
        V::Bool(b) if how % 2 == 0 => do_update(j, p, *b, f, how).map(|r| r as *const Json),
        V::Null if how % 2 == 0 => do_update(j, p, Option::<u8>::None, f, how).map(|r| r as *const Json),
        _ => do_update(j, p, xj.clone(), f, how).map(|r| r as *const Json),
    });
    let ptr = r.map_err(|e| format!("{} {}", where_(), e))?.map_err(|e| format!("{} fails: {}", where_(), e))?;
    v.same(j).map_err(|e| format!("{} leaves a wrong document, {}", where_(), e))?;
    let t = walk(j, p).ok_or_else(|| format!("{}: nothing is there afterwards", where_()))?;
    if !std::ptr::eq(t, ptr) { return Err(format!("{}: the reference returned is not to the stored value", where_())); }
    let l = call(|| j.find(typed(p)))?.map_err(|e| format!("{}: looking it up fails: {}", where_(), e))?;
    x.same(l).map_err(|e| format!("{}: looking it up gives another value, {}", where_(), e))?;
    if G::spellable(p) {
        let s = G::spell(p);
        let l = call(|| j.get(&s))?.map_err(|e| format!("{}: get fails: {}", where_(), e))?;
        x.same(l).map_err(|e| format!("{}: get gives another value, {}", where_(), e))?;
    }
    Ok(())
}

pub fn c09(ctx: &Ctx) -> Vec<Stream> {
    vec![
        stream("histories", ctx.n(20, 90_000, 3_000_000), |w, _| {
            let mut v = w.g(|g, _| g.doc());
            let mut j = v.to_json();
            let n = w.g(|g, _| g.r.range(1, 6));
            for _ in 0..n {
                let (p, x) = w.g(|g, _| { let p = g.path(&v); let mut b = g.r.range(1, 6); let x = g.value(2, &mut b); (p, x) });
                if p.iter().any(|s| matches!(s, Step::I(i) if *i > 5000)) { continue }
                store(w, &mut v, &mut j, &p, &x, "")?;
            }
            Ok(())
        }),
        stream("from-nothing", ctx.n(20, 40_000, 1_000_000), |w, _| {
            // every kind of root, paths that lead off
            let (mut v, p, x) = w.g(|g, _| {
                let v = match g.r.below(7) { 0 => V::Null, 1 => V::Bool(true), 2 => V::Num(1.0), 3 => V::Str("s".into()), 4 => V::Arr(vec![]), 5 => V::Obj(vec![]), _ => { let mut b = 6; g.value(2, &mut b) } };
                let n = g.r.range(1, 7);
                let p: Vec<Step> = (0..n).map(|_| match g.stray_step() { Step::I(i) => Step::I(i.min(300)), s => s }).collect();
                let mut b = 4;
                let x = g.value(2, &mut b);
                (v, p, x)
            });
            let mut j = v.to_json();
            store(w, &mut v, &mut j, &p, &x, "")?;
            // and once more next to it
            let (q, x) = w.g(|g, _| { let q = g.path(&v); let mut b = 3; (q, g.value(1, &mut b)) });
            if q.iter().any(|s| matches!(s, Step::I(i) if *i > 5000)) { return Ok(()) }
            store(w, &mut v, &mut j, &q, &x, "second store: ")
        }),
        stream("too-large", ctx.n(10, 4_000, 60_000), |w, _| {
            let (v, p) = w.g(|g, _| {
                let inner = g.doc_sized(30);
                let v = V::Obj(vec![("p".into(), inner.clone()), ("q".into(), g.doc_sized(30))]);
                let mut p = vec![Step::K("p".into())];
                if g.r.chance(1, 2) { p.extend(g.path(&inner).into_iter().take(2)) }
                p.push(Step::I(*g.r.pick(HUGE)));
                if g.r.chance(1, 3) { p.push(g.stray_step()) }
                (v, p)
            });
            if p.iter().any(|s| matches!(s, Step::I(i) if *i > 5000 && *i < 1 << 59)) { return Ok(()) }
            let mut j = v.to_json();
            let r = call(|| if w.rng.chance(1, 2) && G::spellable(&p) { j.set(&G::spell(&p), 1).is_ok() } else { j.update(typed(&p), 1).is_ok() }).map_err(|e| format!("storing at {} {}", pshow(&p), e))?;
            w.saw(fpv(&v, &p));
            w.count("too_large_indices");
            if r { return Err(format!("storing at {} succeeded", pshow(&p))); }
            let q = walk(&j, &[Step::K("q".into())]).ok_or("a failed store removed another member")?;
            v.find(&[Step::K("q".into())]).unwrap().same(q).map_err(|e| format!("a failed store at {} changed another member, {}", pshow(&p), e))
        }),
        size_stream(ctx, 20_000, 1100, |w, v, p| {
            let mut v = v;
            let mut j = v.to_json();
            let x = w.g(|g, _| { let mut b = 3; g.value(1, &mut b) });
            store(w, &mut v, &mut j, &p, &x, "")?;
            if p.len() > 1 { let k = w.rng.range(1, p.len() - 1); store(w, &mut v, &mut j, &p[..k].to_vec(), &x, "second store: ")?; store(w, &mut v, &mut j, &p, &V::Bool(false), "third store: ")?; }
            Ok(())
        }),
        // arrays extended from a to b elements
        {
            let n = ctx.n(4, 40, 120);
            let mut s = exhaustive("array-extension", n * n, move |w, i| {
                let (a, b) = ((i / n) as usize, (i % n) as usize);
                for (mut v, p) in [(V::Arr((0..a).map(|i| V::Num(i as f64)).collect()), vec![Step::I(b)]),
                                   (V::Obj(vec![("a".into(), V::Arr((0..a).map(|i| V::Str(i.to_string())).collect())), ("b".into(), V::Null)]), vec![Step::K("a".into()), Step::I(b), Step::I(a)])] {
                    let mut j = v.to_json();
                    store(w, &mut v, &mut j, &p, &V::Str("new".into()), "")?;
                }
                Ok(())
            });
            s.chunk = 64;
            s
        },
        {
            let big: Vec<usize> = [1000usize, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 65535, 65536, 65537, 100_000].iter().cloned().filter(|n| ctx.tier != Tier::Mini || *n < 2000).collect();
            let mut s = exhaustive("far-indices", big.len() as u64 * 3, move |w, i| {
                let n = big[(i / 3) as usize];
                let mut v = match i % 3 { 0 => V::Null, 1 => V::Arr(vec![V::Bool(true)]), _ => V::Obj(vec![("a".into(), V::Num(1.0))]) };
                let mut j = v.to_json();
                store(w, &mut v, &mut j, &[Step::I(n)], &V::Num(2.0), "")
            });
            s.chunk = 1;
            s
        },
    ]
}

// ---- C10 ----

fn erase(w: &mut Wk, v: &mut V, j: &mut Json, p: &[Step]) -> Result<(), String> {
    let how = w.rng.below(8);
    let before = vshow(v);
    w.saw(fpv(v, p));
    w.sample(|| format!("{} from {}", pshow(p), before));
    let want = v.discard(p);
    w.count(if want.is_ok() { "deleted" } else { "delete_refused" });
    let spelled = G::spellable(p) && how < 5;
    let where_ = || format!("deleting {} ({}) from {}", pshow(p), if spelled { "del" } else { "discard" }, before);
    let r = call(|| {
        if spelled { return j.del(&G::spell(p)) }
        match p {
            [Step::K(a)] if how == 5 => j.discard(a.as_str()),
            [Step::I(a)] if how == 5 => j.discard(*a),
            [Step::K(a), Step::I(b)] if how == 6 => json::discard!(j, a, b),
            [Step::I(a), Step::K(b)] if how == 6 => json::discard!(j, *a, b.clone(),),
            [Step::K(a), Step::K(b)] if how == 6 => json::discard!(j, a.as_str(), b),
            _ => j.discard(typed_variant(p, how)),
        }
    }).map_err(|e| format!("{} {}", where_(), e))?;
    match (&want, &r) {
        (Ok(x), Ok(y)) => x.same(y).map_err(|e| format!("{} returns another value, {}", where_(), e))?,
        (Err(_), Err(_)) => (),
        (Ok(_), Err(e)) => return Err(format!("{} fails: {}", where_(), e)),
        (Err(_), Ok(y)) => return Err(format!("{} returns {} although the path does not exist", where_(), show_json(y))),
    }
    v.same(j).map_err(|e| format!("{} leaves a wrong document, {}", where_(), e))
}

pub fn c10(ctx: &Ctx) -> Vec<Stream> {
    vec![
        stream("histories", ctx.n(20, 120_000, 4_000_000), |w, _| {
            let mut v = w.g(|g, _| g.doc());
            let mut j = v.to_json();
            let n = w.g(|g, _| g.r.range(1, 7));
            for _ in 0..n {
                let p = w.g(|g, _| g.path(&v));
                erase(w, &mut v, &mut j, &p)?;
            }
            Ok(())
        }),
        stream("to-nothing", ctx.n(5, 5_000, 150_000), |w, _| {
            let mut v = w.g(|g, _| { let n = g.r.range(5, 60); g.doc_sized(n) });
            let mut j = v.to_json();
            for _ in 0..70 {
                let mut ps = Vec::new();
                all_paths(&v, &mut Vec::new(), &mut ps, 70);
                if ps.is_empty() { w.count("emptied"); break }
                let p = w.rng.pick(&ps).clone();
                erase(w, &mut v, &mut j, &p)?;
            }
            Ok(())
        }),
        stream("every-address", ctx.n(5, 1_500, 40_000), |w, _| {
            let v = w.g(|g, _| { let n = g.r.range(5, 40); g.doc_sized(n) });
            let mut ps = Vec::new();
            all_paths(&v, &mut Vec::new(), &mut ps, 60);
            for p in &ps {
                let (mut v2, mut j) = (v.clone(), v.to_json());
                erase(w, &mut v2, &mut j, p)?;
                erase(w, &mut v2, &mut j, p)?;
            }
            Ok(())
        }),
        size_stream(ctx, 20_000, 1100, |w, v, p| {
            let (mut v, mut j) = (v.clone(), v.to_json());
            erase(w, &mut v, &mut j, &p)?;
            erase(w, &mut v, &mut j, &p)?;
            if p.len() > 1 { erase(w, &mut v, &mut j, &p[..p.len() - 1])?; erase(w, &mut v, &mut j, &p)?; erase(w, &mut v, &mut j, &p[..1])?; }
            Ok(())
        }),
        {
            let n = ctx.n(4, 60, 300);
            let mut s = exhaustive("array-elements", n * (n + 1) / 2, move |w, i| {
                // all (length, index) with index <= length
                let (mut len, mut k) = (0u64, i);
                while k > len { k -= len + 1; len += 1 }
                let mut v = V::Arr((0..len).map(|i| V::Num(i as f64)).collect());
                let mut j = v.to_json();
                erase(w, &mut v, &mut j, &[Step::I(k as usize)])
            });
            s.chunk = 64;
            s
        },
    ]
}

// ---- C11 ----

/// reference reading of a path string; None: excluded from the specification ('#+1')
pub fn read_path(s: &str) -> Option<Result<Vec<Step>, EK>> {
    if s.is_empty() { return Some(Err(EK::Path)) }
    let c: Vec<char> = s.chars().collect();
    let mut segs = vec![String::new()];
    let mut i = 0;
    while i < c.len() {
        if c[i] == '.' && i > 0 && c[i - 1] == '\\' { let l = segs.last_mut().unwrap(); l.pop(); l.push('.') }
        else if c[i] == '.' { segs.push(String::new()) }
        else { segs.last_mut().unwrap().push(c[i]) }
        i += 1;
    }
    let mut out = Vec::new();
    for g in segs {
        if let Some(d) = g.strip_prefix('#') {
            if d.starts_with('+') { return None }
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return Some(Err(EK::Path)) }
            let mut n: u128 = 0;
            for b in d.bytes() { n = (n * 10 + (b - b'0') as u128).min(1 << 100) }
            if n > usize::MAX as u128 { return Some(Err(EK::Path)) }
            out.push(Step::I(n as usize));
        } else if let Some(k) = g.strip_prefix('\\') { out.push(Step::K(k.into())) }
        else { out.push(Step::K(g)) }
    }
    Some(Ok(out))
}

/// documents in which this path and its misreadings lead to different values
fn decoys(s: &str, p: &[Step]) -> Vec<V> {
    let mut v = V::Null;
    let small = p.iter().all(|x| !matches!(x, Step::I(i) if *i > 2000));
    if small { v.update(p, V::Str("right".into())); }
    let mut out = vec![];
    if let V::Obj(m) = &mut v {
        // other keys at the root that a wrong reading would find
        let first = s.split('.').next().unwrap_or("").to_string();
        for (n, k) in [s.to_string(), first, s.replace("\\.", "."), s.replace('\\', ""), s.trim_start_matches('\\').to_string(), format!("\\{}", s), s.trim_start_matches('#').to_string(), String::new(), s.split('.').last().unwrap_or("").into(), s.trim().to_string(), s.to_lowercase()].into_iter().enumerate() {
            if !m.iter().any(|x| x.0 == k) { m.push((k, V::Num(n as f64))) }
        }
    }
    out.push(v);
    if small && p.len() > 1 {
        // the path exists except for its last step
        let mut v = V::Null;
        v.update(&p[..p.len() - 1], V::Arr(vec![V::Obj(vec![("x".into(), V::Null)])]));
        out.push(v);
    }
    out
}

fn path_string(w: &mut Wk, s: &str, docs: &[V]) -> Result<(), String> {
    let r = match read_path(s) { Some(r) => r, None => { w.trivial(); return Ok(()) } };
    w.saw_str(s);
    w.sample(|| format!("{:?} = {:?}", s, r));
    let name = json_str(&clip(s, 200));
    match r {
        Err(_) => {
            w.count("paths_malformed");
            for v in docs.iter().chain([V::Obj(vec![(s.to_string(), V::Num(1.0)), ("".into(), V::Arr(vec![V::Null]))]), V::Arr(vec![V::Num(1.0)]), V::Null].iter()) {
                let mut j = v.to_json();
                let e = |op: &str, r: Result<Result<(), json::Error>, String>| match r {
                    Ok(Err(e)) if err_kind(&e) == EK::Path => Ok(()),
                    Ok(Err(e)) => Err(format!("{}({}) is {} instead of PathSyntaxError", op, name, e)),
                    Ok(Ok(())) => Err(format!("{}({}) succeeds instead of PathSyntaxError", op, name)),
                    Err(e) => Err(format!("{}({}) {}", op, name, e)),
                };
                e("get", call(|| j.get(s).map(|_| ())))?;
                e("del", call(|| j.del(s).map(|_| ())))?;
                e("set", call(|| j.set(s, 1).map(|_| ())))?;
            }
        }
        Ok(p) => {
            w.count("paths_wellformed");
            w.max("max_steps", p.len() as u64);
            for v in docs.iter().chain(&decoys(s, &p)) {
                let j = v.to_json();
                // get and find
                let a = call(|| j.get(s)).map_err(|e| format!("get({}) {}", name, e))?;
                let b = call(|| j.find(typed(&p))).map_err(|e| format!("find({}) {}", pshow(&p), e))?;
                match (&a, &b) {
                    (Ok(x), Ok(y)) => { w.count("gets_hit"); if !std::ptr::eq(*x, *y) { return Err(format!("get({}) and find({}) give different values in {}", name, pshow(&p), vshow(v))) } }
                    (Err(x), Err(y)) => if err_kind(x) != err_kind(y) { return Err(format!("get({}) is {}, find({}) is {}", name, x, pshow(&p), y)) },
                    _ => return Err(format!("get({}) {} but find({}) {} in {}", name, if a.is_ok() { "succeeds" } else { "fails" }, pshow(&p), if b.is_ok() { "succeeds" } else { "fails" }, vshow(v))),
                }
                if a.is_ok() != v.find(&p).is_ok() { return Err(format!("get({}) {} in {} although the path means {}", name, if a.is_ok() { "succeeds" } else { "fails" }, vshow(v), pshow(&p))); }
                if let (Ok(x), Ok(y)) = (&a, v.find(&p)) { y.same(x).map_err(|e| format!("get({}) is not the value of {}: {}", name, pshow(&p), e))?; }
                // del and discard
                let (mut j1, mut j2) = (v.to_json(), v.to_json());
                let a = call(|| j1.del(s)).map_err(|e| format!("del({}) {}", name, e))?;
                let b = call(|| j2.discard(typed(&p))).map_err(|e| format!("discard({}) {}", pshow(&p), e))?;
                match (&a, &b) {
                    (Ok(x), Ok(y)) => V::of(y).same(x).map_err(|e| format!("del({}) and discard({}) return different values: {}", name, pshow(&p), e))?,
                    (Err(x), Err(y)) => if err_kind(x) != err_kind(y) { return Err(format!("del({}) is {}, discard({}) is {}", name, x, pshow(&p), y)) },
                    _ => return Err(format!("del({}) {} but discard({}) {} in {}", name, if a.is_ok() { "succeeds" } else { "fails" }, pshow(&p), if b.is_ok() { "succeeds" } else { "fails" }, vshow(v))),
                }
                V::of(&j2).same(&j1).map_err(|e| format!("del({}) and discard({}) leave different documents: {}", name, pshow(&p), e))?;
                // set and update
                if p.iter().any(|x| matches!(x, Step::I(i) if *i > 2000 && *i < 1 << 59)) { continue }
                let (mut j1, mut j2) = (v.to_json(), v.to_json());
                let a = call(|| j1.set(s, "stored").map(|_| ())).map_err(|e| format!("set({}) {}", name, e))?;
                let b = call(|| j2.update(typed(&p), "stored").map(|_| ())).map_err(|e| format!("update({}) {}", pshow(&p), e))?;
                if a.is_ok() != b.is_ok() { return Err(format!("set({}) {} but update({}) {} in {}", name, if a.is_ok() { "succeeds" } else { "fails" }, pshow(&p), if b.is_ok() { "succeeds" } else { "fails" }, vshow(v))); }
                V::of(&j2).same(&j1).map_err(|e| format!("set({}) and update({}) leave different documents: {}", name, pshow(&p), e))?;
                if a.is_ok() {
                    let mut m = v.clone();
                    m.update(&p, V::Str("stored".into()));
                    m.same(&j1).map_err(|e| format!("set({}) does not store at {}: {}", name, pshow(&p), e))?;
                }
            }
        }
    }
    Ok(())
}

const PATHCH: &[&str] = &["a", ".", "\\", "#", "0", "1", "b", "é"];

pub fn c11(ctx: &Ctx) -> Vec<Stream> {
    let max = match ctx.tier { Tier::Mini => 2, Tier::Quick => 5, Tier::Thorough => 6 };
    vec![
        exhaustive("path-strings", seq_count(8, max), move |w, i| {
            let s: String = seq(i, 8, max).into_iter().map(|x| PATHCH[x]).collect();
            path_string(w, &s, &[])
        }),
        exhaustive("backslashes-and-dots", seq_count(4, max + 2), move |w, i| {
            let s: String = seq(i, 4, max + 2).into_iter().map(|x| ["\\", ".", "#", "k"][x]).collect();
            path_string(w, &s, &[])
        }),
        exhaustive("every-character", ctx.n(0x100, 0x110000, 0x110000), |w, i| {
            let c = match char::from_u32(i as u32) { Some(c) => c, None => return Ok(()) };
            let every = i < 0x3000;
            for s in [format!("{}", c), format!("a.{}b", c), format!("\\{}", c), format!("#{}", c), format!("#1{}", c), format!("a{}.#0", c)].iter().take(if every { 6 } else { 2 }) { path_string(w, s, &[])?; }
            Ok(())
        }),
        exhaustive("indices", ctx.n(30, 2_200, 2_200), |w, i| {
            for s in [format!("#{}", i), format!("#00{}", i), format!("a.#{}", i), format!("#{}.k", i), format!("#-{}", i), format!("# {}", i), format!("#{} ", i), format!("#0x{}", i), format!("#{}.0", i), format!("#{}e0", i), format!("#{}_0", i), format!("\\#{}", i), format!("{}", i)] { path_string(w, &s, &[])?; }
            Ok(())
        }),
        exhaustive("limits", 40, |w, i| {
            let n: u128 = [0u128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9007199254740993, 9223372036854775807, 9223372036854775808, 18446744073709551615, 18446744073709551616, 18446744073709551617, 99999999999999999999, 1 << 80, 340282366920938463463374607431768211455][(i / 2) as usize];
            let v = V::Arr(vec![V::Num(0.0), V::Num(1.0)]);
            let s = if i % 2 == 0 { format!("#{}", n) } else { format!("#0{}", n) };
            path_string(w, &s, &[v])
        }),
        stream("random", ctx.n(20, 60_000, 2_000_000), |w, _| {
            let (s, docs) = w.g(|g, _| {
                let mut s = String::new();
                let n = g.size(40).max(1);
                for i in 0..n {
                    if i > 0 { s.push('.') }
                    match g.r.below(6) {
                        0 => s.push_str(&format!("#{}", g.size(300))),
                        1 => s.push_str(&g.string(30)),
                        2 => { s.push('\\'); s.push_str(&g.key()) }
                        3 => { let k = g.r.below(6); for _ in 0..k { s.push_str(*g.r.pick(&["\\", ".", "#", "\\.", "a", "0", "é"])) } }
                        4 => s.push_str(&g.key().replace('.', "\\.")),
                        _ => s.push_str(&g.key()),
                    }
                }
                let v = g.doc_sized(40);
                (s, vec![v])
            });
            path_string(w, &s, &docs)
        }),
        stream("paths-of-documents", ctx.n(20, 60_000, 2_000_000), |w, _| {
            let (v, s) = w.g(|g, _| { let (v, p) = doc_path(g); let s = G::spell(&p); let s = if g.r.chance(1, 4) { g.mutate(&s) } else { s }; (v, s) });
            path_string(w, &s, &[v])
        }),
        {
            let sz = text::sizes_far(ctx, if ctx.tier == Tier::Mini { 4 } else { 100 }, if ctx.tier == Tier::Mini { 8 } else { 3000 });
            let m = sz.len() as u64;
            let mut s = exhaustive("sizes", m * 8, move |w, i| {
                let n = sz[(i / 8) as usize];
                let c = w.g(|g, _| g.ch());
                let s = match i % 8 {
                    0 => "a".repeat(n),
                    1 => "\\.".repeat(n),
                    2 => "\\".repeat(n),
                    3 => format!("{}{}", "\\".repeat(n), "."),
                    4 => vec!["k"; text::levels(n, text::DEEP)].join("."),
                    5 => format!("#{}1", "0".repeat(n)),
                    // every dot is one more level
                    6 if c != '.' => std::iter::repeat(c).take(n).collect(),
                    _ => ".".repeat(text::levels(n, text::DEEP)),
                };
                path_string(w, &s, &[])
            });
            s.chunk = 8;
            s
        },
    ]
}

// ---- C12, C13 ----

#[derive(Clone, Debug)]
enum Op { Insert(String, V), Append(String, V), AddOption(String, V, bool), Delete(String), Merge(String), Push(V), Replace(usize, V), Remove(usize) }

fn apply_model(v: &mut V, op: &Op) -> Result<(), EK> {
    match (op, v) {
        (Op::Insert(k, x), V::Obj(m)) | (Op::AddOption(k, x, false), V::Obj(m)) => { m.retain(|e| &e.0 != k); m.push((k.clone(), x.clone())); Ok(()) }
        (Op::Append(k, x), V::Obj(m)) | (Op::AddOption(k, x, true), V::Obj(m)) => { m.push((k.clone(), x.clone())); Ok(()) }
        (Op::Delete(k), V::Obj(m)) => { m.retain(|e| &e.0 != k); Ok(()) }
        (Op::Merge(k), V::Obj(m)) => if m.iter().any(|e| &e.0 == k) { Ok(()) } else { Err(EK::Missing) },
        (Op::Push(x), V::Arr(a)) => { a.push(x.clone()); Ok(()) }
        (Op::Replace(i, x), V::Arr(a)) => if *i < a.len() { a[*i] = x.clone(); Ok(()) } else { Err(EK::Range) },
        (Op::Remove(i), V::Arr(a)) => if *i < a.len() { a.remove(*i); Ok(()) } else { Err(EK::Range) },
        _ => Err(EK::Kind),
    }
}

fn apply(j: &mut Json, op: &Op, how: usize) -> Result<Option<Vec<V>>, json::Error> {
    // arguments of several types
    macro_rules! with { ($x:expr, $b:ident => $e:expr) => { match $x {
        V::Str(s) if how % 3 == 0 => { let $b = s.as_str(); $e }
        V::Num(f) if how % 3 == 0 => { let $b = *f; $e }
        V::Bool(f) if how % 3 == 0 => { let $b = *f; $e }
        V::Null if how % 3 == 0 => { let $b: Option<i32> = None; $e }
        x => { let $b = x.to_json(); $e }
    } } }
    match op {
        Op::Insert(k, x) => with!(x, b => if how % 2 == 0 { j.insert(k, b) } else { j.insert(k.clone(), b) }).map(|_| None),
        Op::Append(k, x) => with!(x, b => if how % 2 == 0 { j.append(k.as_str(), b) } else { j.append(k, b) }).map(|_| None),
        Op::AddOption(k, x, a) => j.add_option(k.clone(), x.to_json(), *a).map(|_| None),
        Op::Delete(k) => j.delete(k).map(|_| None),
        Op::Merge(k) => j.index_and_merge(k).map(|v| Some(v.into_iter().map(V::of).collect())),
        Op::Push(x) => with!(x, b => j.push(b)).map(|_| None),
        Op::Replace(i, x) => with!(x, b => j.replace(*i, b)).map(|_| None),
        Op::Remove(i) => j.remove(*i).map(|_| None),
    }
}

fn one_op(w: &mut Wk, v: &mut V, j: &mut Json, op: &Op) -> Result<(), String> {
    let how = w.rng.below(6);
    let before = vshow(v);
    let merged: Option<Vec<V>> = match op { Op::Merge(k) => { let a = v.all(k); if a.is_empty() { None } else { Some(a.into_iter().cloned().collect()) } } _ => None };
    let want = apply_model(v, op);
    w.saw(hash_str(&format!("{}{:?}", before, op)));
    w.sample(|| format!("{:?} on {}", op, before));
    w.count(match &want { Ok(()) => "ops_done", Err(EK::Kind) => "ops_on_other_kinds", Err(EK::Missing) => "ops_missing_key", Err(_) => "ops_out_of_range" });
    let where_ = || format!("{} on {}", clip(&format!("{:?}", op), 200), before);
    let r = call(|| apply(j, op, how)).map_err(|e| format!("{} {}", where_(), e))?;
    match (&want, r) {
        (Ok(()), Ok(None)) => (),
        (Ok(()), Ok(Some(got))) => {
            let m = merged.unwrap();
            if m.len() != got.len() || !m.iter().zip(&got).all(|(a, b)| a.eq(b)) { return Err(format!("{} gives {} instead of {}", where_(), clip(&format!("{:?}", got), 200), clip(&format!("{:?}", m), 200))); }
            w.max("max_duplicates", m.len() as u64);
        }
        (Ok(()), Err(e)) => return Err(format!("{} fails: {}", where_(), e)),
        (Err(k), Err(e)) => if err_kind(&e) != *k { return Err(format!("{} is {} instead of {:?}", where_(), e, k)) },
        (Err(k), Ok(_)) => return Err(format!("{} succeeds instead of {:?}", where_(), k)),
    }
    v.same(j).map_err(|e| format!("{} leaves a wrong value, {}", where_(), e))
}

fn obj_op(g: &mut G, keys: &[String]) -> Op {
    let k = if g.r.chance(5, 6) { g.r.pick(keys).clone() } else { g.key() };
    let mut b = g.r.range(1, 4);
    let x = g.value(2, &mut b);
    match g.r.below(10) { 0..=1 => Op::Insert(k, x), 2..=4 => Op::Append(k, x), 5 => Op::AddOption(k, x, true), 6 => Op::AddOption(k, x, false), 7 => Op::Delete(k), _ => Op::Merge(k) }
}
fn arr_op(g: &mut G, len: usize) -> Op {
    let i = match g.r.below(8) { 0 => 0, 1 => len, 2 => len.saturating_sub(1), 3 => len + g.size(1000), 4 => *g.r.pick(HUGE), _ => g.r.below(len.max(1)) };
    let mut b = g.r.range(1, 4);
    let x = g.value(2, &mut b);
    match g.r.below(8) { 0..=3 => Op::Push(x), 4..=5 => Op::Replace(i, x), _ => Op::Remove(i) }
}
fn other_kind(g: &mut G, arr: bool) -> V {
    match g.r.below(6) {
        0 => V::Null, 1 => V::Bool(g.r.chance(1, 2)), 2 => V::Num(g.num()), 3 => V::Str(g.string(20)),
        _ => if arr { let n = g.size(5); V::Obj((0..n).map(|_| (g.key(), V::Null)).collect()) } else { let n = g.size(5); V::Arr((0..n).map(|i| V::Num(i as f64)).collect()) },
    }
}

pub fn c12(ctx: &Ctx) -> Vec<Stream> {
    let max = match ctx.tier { Tier::Mini => 2, Tier::Quick => 5, Tier::Thorough => 6 };
    vec![
        stream("histories", ctx.n(20, 60_000, 2_000_000), |w, _| {
            let (mut v, keys, n) = w.g(|g, _| {
                let keys: Vec<String> = (0..g.r.range(1, 5)).map(|_| g.key()).collect();
                let m = g.size(30);
                let v = if g.r.chance(5, 6) { V::Obj((0..m).map(|i| (g.r.pick(&keys).clone(), V::Num(i as f64))).collect()) } else { other_kind(g, false) };
                (v, keys, g.r.range(1, 24))
            });
            let mut j = v.to_json();
            for _ in 0..n { let op = w.g(|g, _| obj_op(g, &keys)); one_op(w, &mut v, &mut j, &op)?; }
            for k in keys { one_op(w, &mut v, &mut j, &Op::Merge(k))?; }
            Ok(())
        }),
        // all sequences of operations on two keys
        exhaustive("all-short-histories", seq_count(8, max), move |w, i| {
            let ops = seq(i, 8, max);
            let mut v = V::Obj(vec![]);
            let mut j = v.to_json();
            for (n, o) in ops.into_iter().enumerate() {
                let k = if o < 4 { "a" } else { "b" }.to_string();
                let x = V::Num(n as f64);
                let op = match o % 4 { 0 => Op::Insert(k, x), 1 => Op::Append(k, x), 2 => Op::Delete(k), _ => Op::Merge(k) };
                one_op(w, &mut v, &mut j, &op)?;
            }
            for k in ["a", "b", "c"] { one_op(w, &mut v, &mut j, &Op::Merge(k.into()))?; }
            Ok(())
        }),
        stream("nested", ctx.n(10, 20_000, 600_000), |w, _| {
            // operations on an object inside a document leave the rest alone
            let v0 = w.g(|g, _| g.doc());
            let mut ps = Vec::new();
            all_paths(&v0, &mut Vec::new(), &mut ps, 100);
            ps.retain(|p| matches!(v0.find(p), Ok(V::Obj(_))));
            if ps.is_empty() { return Ok(()) }
            let p = w.rng.pick(&ps).clone();
            let mut v = v0.clone();
            let mut j = v.to_json();
            let keys = w.g(|g, _| match v.find(&p) { Ok(V::Obj(m)) if !m.is_empty() => vec![m[0].0.clone(), g.key()], _ => vec![g.key()] });
            for _ in 0..4 {
                let op = w.g(|g, _| obj_op(g, &keys));
                let before = vshow(&v);
                let want = apply_model(v.find_mut(&p).unwrap(), &op);
                let r = call(|| apply(j.find_mut(typed(&p)).map_err(|e| e)?, &op, 0)).map_err(|e| format!("{:?} {}", op, e))?;
                w.saw(fpv(&v, &p));
                if want.is_ok() != r.is_ok() { return Err(format!("{:?} at {} in {} gives {:?}", op, pshow(&p), before, r.map(|_| ()))); }
                v.same(&j).map_err(|e| format!("{:?} at {} in {} leaves a wrong document, {}", op, pshow(&p), before, e))?;
            }
            Ok(())
        }),
        stream("other-kinds", ctx.n(20, 20_000, 300_000), |w, _| {
            let (mut v, op) = w.g(|g, _| { let v = other_kind(g, false); let k = g.key(); (v, obj_op(g, &[k])) });
            let mut j = v.to_json();
            one_op(w, &mut v, &mut j, &op)
        }),
        {
            let sz = text::sizes_far(ctx, if ctx.tier == Tier::Mini { 4 } else { 130 }, if ctx.tier == Tier::Mini { 8 } else { 20_000 });
            let m = sz.len() as u64;
            let mut s = exhaustive("sizes", m * 4, move |w, i| {
                let n = sz[(i / 4) as usize];
                let mut v = match i % 2 { 0 => V::Obj((0..n).map(|i| ("k".into(), V::Num(i as f64))).collect()), _ => V::Obj((0..n).map(|i| (format!("k{}", i), V::Num(i as f64))).collect()) };
                let mut j = v.to_json();
                let k = if i % 2 == 0 { "k".to_string() } else { format!("k{}", w.rng.below(n.max(1))) };
                one_op(w, &mut v, &mut j, &Op::Merge(k.clone()))?;
                let op = match i % 4 { 0 | 1 => Op::Append(k.clone(), V::Bool(true)), 2 => Op::Insert(k.clone(), V::Bool(false)), _ => Op::Delete(k.clone()) };
                one_op(w, &mut v, &mut j, &op)?;
                one_op(w, &mut v, &mut j, &Op::Merge(k))
            });
            s.chunk = 4;
            s
        },
        exhaustive("key-characters", ctx.n(0x100, 0x110000, 0x110000), |w, i| {
            let c = match char::from_u32(i as u32) { Some(c) => c, None => return Ok(()) };
            if i > 0x3000 && i % 7 > 0 && w.ctx.tier == Tier::Quick { return Ok(()) }
            let mut v = V::Obj(vec![("a".into(), V::Null)]);
            let mut j = v.to_json();
            for op in [Op::Append(c.to_string(), V::Num(1.0)), Op::Append(c.to_string(), V::Num(2.0)), Op::Merge(c.to_string()), Op::Delete(c.to_string())] { one_op(w, &mut v, &mut j, &op)?; }
            Ok(())
        }),
        stream("key-types", ctx.n(10, 20_000, 200_000), |w, _| {
            // keys of any ToString type
            let n = w.rng.next() as i64 >> w.rng.below(60);
            let f = w.g(|g, _| g.num());
            let c = w.g(|g, _| g.ch());
            let mut j = json::object! {};
            let r = call(|| { let _ = j.append(n, 1); let _ = j.append(f, 2); let _ = j.append(c, 3); let _ = j.insert(true, 4); let _ = j.append(n.to_string(), 5); let _ = j.insert(&c, 6); }) ;
            r.map_err(|e| format!("append with keys {} {} {:?} {}", n, f, c, e))?;
            w.saw(n as u64);
            let mut v = V::Obj(vec![]);
            for op in [Op::Append(n.to_string(), V::Num(1.0)), Op::Append(f.to_string(), V::Num(2.0)), Op::Append(c.to_string(), V::Num(3.0)), Op::Insert("true".into(), V::Num(4.0)), Op::Append(n.to_string(), V::Num(5.0)), Op::Insert(c.to_string(), V::Num(6.0))] { apply_model(&mut v, &op).unwrap(); }
            v.same(&j).map_err(|e| format!("keys {} {} {:?}: {}", n, f, c, e))
        }),
    ]
}

pub fn c13(ctx: &Ctx) -> Vec<Stream> {
    vec![
        stream("histories", ctx.n(20, 60_000, 2_000_000), |w, _| {
            let (mut v, n) = w.g(|g, _| { let m = g.size(60); (V::Arr((0..m).map(|i| V::Num(i as f64)).collect()), g.r.range(1, 30)) });
            let mut j = v.to_json();
            for _ in 0..n {
                let len = match &v { V::Arr(a) => a.len(), _ => 0 };
                let op = w.g(|g, _| arr_op(g, len));
                one_op(w, &mut v, &mut j, &op)?;
            }
            Ok(())
        }),
        {
            let n = ctx.n(4, 48, 200);
            exhaustive("all-lengths-and-indices", n * (n + 3), move |w, i| {
                let (len, k) = ((i / (n + 3)) as usize, (i % (n + 3)) as usize);
                for op in [Op::Replace(k, V::Str("x".into())), Op::Remove(k), Op::Push(V::Num(k as f64))] {
                    let mut v = V::Arr((0..len).map(|i| V::Num(i as f64)).collect());
                    let mut j = v.to_json();
                    one_op(w, &mut v, &mut j, &op)?;
                    one_op(w, &mut v, &mut j, &Op::Remove(k))?;
                }
                Ok(())
            })
        },
        stream("nested", ctx.n(10, 20_000, 600_000), |w, _| {
            let v0 = w.g(|g, _| g.doc());
            let mut ps = Vec::new();
            all_paths(&v0, &mut Vec::new(), &mut ps, 100);
            ps.retain(|p| matches!(v0.find(p), Ok(V::Arr(_))));
            if ps.is_empty() { return Ok(()) }
            let p = w.rng.pick(&ps).clone();
            let mut v = v0.clone();
            let mut j = v.to_json();
            for _ in 0..4 {
                let len = match v.find(&p) { Ok(V::Arr(a)) => a.len(), _ => 0 };
                let op = w.g(|g, _| arr_op(g, len));
                let before = vshow(&v);
                let want = apply_model(v.find_mut(&p).unwrap(), &op);
                let r = call(|| apply(j.find_mut(typed(&p)).map_err(|e| e)?, &op, 0)).map_err(|e| format!("{:?} {}", op, e))?;
                w.saw(fpv(&v, &p));
                if want.is_ok() != r.is_ok() { return Err(format!("{:?} at {} in {} gives {:?}", op, pshow(&p), before, r.map(|_| ()))); }
                v.same(&j).map_err(|e| format!("{:?} at {} in {} leaves a wrong document, {}", op, pshow(&p), before, e))?;
            }
            Ok(())
        }),
        stream("other-kinds", ctx.n(20, 20_000, 300_000), |w, _| {
            let (mut v, op) = w.g(|g, _| { let v = other_kind(g, true); (v, arr_op(g, 3)) });
            let mut j = v.to_json();
            one_op(w, &mut v, &mut j, &op)
        }),
        {
            let sz = text::sizes_far(ctx, if ctx.tier == Tier::Mini { 4 } else { 300 }, if ctx.tier == Tier::Mini { 8 } else { 70_000 });
            let m = sz.len() as u64;
            let mut s = exhaustive("sizes", m * 6, move |w, i| {
                let n = sz[(i / 6) as usize];
                let mut v = V::Arr((0..n).map(|i| V::Num(i as f64)).collect());
                let mut j = v.to_json();
                let op = match i % 6 { 0 => Op::Push(V::Null), 1 => Op::Remove(n), 2 => Op::Remove(n.saturating_sub(1)), 3 => Op::Remove(w.rng.below(n.max(1))), 4 => Op::Replace(n, V::Null), _ => Op::Replace(w.rng.below(n.max(1)), V::Arr(vec![])) };
                one_op(w, &mut v, &mut j, &op)
            });
            s.chunk = 6;
            s
        },
        exhaustive("huge-indices", 10 * HUGE.len() as u64, |w, i| {
            let h = HUGE[(i / 10) as usize];
            for d in [0usize, 1, 2] { for op in [Op::Remove(h.wrapping_sub(d)), Op::Replace(h.wrapping_sub(d), V::Null)] {
                let mut v = V::Arr((0..(i % 10) as usize).map(|i| V::Num(i as f64)).collect());
                let mut j = v.to_json();
                one_op(w, &mut v, &mut j, &op)?;
            } }
            Ok(())
        }),
    ]
}

// ---- C15 ----

type R<T> = Result<T, json::Error>;
fn res<T: std::fmt::Debug>(r: &R<T>) -> Result<String, EK> { match r { Ok(x) => Ok(format!("{:?}", x)), Err(e) => Err(err_kind(e)) } }
fn agree<T: std::fmt::Debug>(w: &mut Wk, what: &str, a: Result<R<T>, String>, b: Result<R<T>, String>) -> Result<(), String> {
    let (a, b) = (a.map_err(|e| format!("{} {}", what, e))?, b.map_err(|e| format!("{}, step by step, {}", what, e))?);
    w.count(if a.is_ok() { "calls_ok" } else { "calls_err" });
    let (a, b) = (res(&a), res(&b));
    if a != b { return Err(format!("{} is {} but step by step it is {}", what, clip(&format!("{:?}", a), 200), clip(&format!("{:?}", b), 200))); }
    Ok(())
}
fn canon(j: Json) -> String { format!("{:?}", { let mut s = String::new(); fn go(v: &V, s: &mut String) { match v { V::Obj(m) => { s.push('{'); for (k, x) in m { s.push_str(&format!("{:?}:", k)); go(x, s); s.push(',') } s.push('}') } V::Arr(a) => { s.push('['); for x in a { go(x, s); s.push(',') } s.push(']') } v => s.push_str(&format!("{:?}", v)) } } go(&V::of(&j), &mut s); s }) }

fn text_level(w: &mut Wk, t: &str, p: &str, x: &V) -> Result<(), String> {
    w.saw(hash_str(t) ^ hash_str(p).rotate_left(7));
    w.sample(|| format!("{:?} in {:?}", p, t));
    let what = |f: &str| format!("{}({}, {})", f, json_str(&clip(t, 300)), json_str(&clip(p, 100)));
    let xj = x.to_json();
    agree(w, &what("get"), call(|| json::get::<Json>(t, p).map(canon)), call(|| { let j = Json::parse(t)?; let g = j.get(p)?; g.convert::<Json>().map(canon) }))?;
    agree(w, &what("set"), call(|| json::set(t, p, xj.clone())), call(|| { let mut j = Json::parse(t)?; j.set(p, xj.clone())?; Ok(j.to_string()) }))?;
    agree(w, &what("del"), call(|| json::del(t, p)), call(|| { let mut j = Json::parse(t)?; j.del(p)?; Ok(j.to_string()) }))?;
    macro_rules! ty { ($t:ty) => {{
        agree(w, &format!("{} as {}", what("get"), stringify!($t)), call(|| json::get::<$t>(t, p).map(|x| format!("{:?}", x))), call(|| { let j = Json::parse(t)?; let g = j.get(p)?; g.convert::<$t>().map(|x| format!("{:?}", x)) }))?;
        agree(w, &format!("decode({}) as {}", json_str(&clip(t, 300)), stringify!($t)), call(|| json::decode::<$t>(t).map(|x| format!("{:?}", x))), call(|| { let j = Json::parse(t)?; j.convert::<$t>().map(|x| format!("{:?}", x)) }))?;
    }} }
    match w.rng.below(10) {
        0 => ty!(f64), 1 => ty!(u8), 2 => ty!(String), 3 => ty!(bool), 4 => ty!(Vec<f64>), 5 => ty!(Option<String>), 6 => ty!(Vec<Vec<i32>>), 7 => ty!(Option<Vec<Option<i64>>>),
        8 => { let c = |m: std::collections::HashMap<String, f32>| { let mut v: Vec<_> = m.into_iter().map(|x| format!("{:?}", x)).collect(); v.sort(); v };
               agree(w, &what("get as HashMap"), call(|| json::get(t, p).map(c)), call(|| { let j = Json::parse(t)?; let g = j.get(p)?; g.convert().map(c) }))? }
        _ => { let c = |m: Vec<(String, f64)>| { let mut v: Vec<_> = m.into_iter().map(|x| format!("{:?}", x)).collect(); v.sort(); v };
               agree(w, &what("get as Vec of pairs"), call(|| json::get(t, p).map(c)), call(|| { let j = Json::parse(t)?; let g = j.get(p)?; g.convert().map(c) }))? }
    }
    agree(w, &what("decode"), call(|| json::decode::<Json>(t).map(canon)), call(|| Json::parse(t).map(canon)))?;
    // set with values of other types
    match w.rng.below(4) {
        0 => agree(w, &what("set"), call(|| json::set(t, p, vec![1u8, 2])), call(|| { let mut j = Json::parse(t)?; j.set(p, vec![1u8, 2])?; Ok(j.to_string()) })),
        1 => agree(w, &what("set"), call(|| json::set(t, p, "tüxt\"")), call(|| { let mut j = Json::parse(t)?; j.set(p, "tüxt\"")?; Ok(j.to_string()) })),
        2 => agree(w, &what("set"), call(|| json::set(t, p, f64::NAN)), call(|| { let mut j = Json::parse(t)?; j.set(p, f64::NAN)?; Ok(j.to_string()) })),
        _ => agree(w, &what("set"), call(|| json::set(t, p, Option::<u8>::None)), call(|| { let mut j = Json::parse(t)?; j.set(p, Option::<u8>::None)?; Ok(j.to_string()) })),
    }
}
fn small_path(p: &str) -> bool { match read_path(p) { Some(Ok(s)) => s.iter().all(|x| !matches!(x, Step::I(i) if *i > 5000 && *i < 1 << 59)), Some(Err(_)) => true, None => false } }

pub fn c15(ctx: &Ctx) -> Vec<Stream> {
    vec![
        stream("documents-and-paths", ctx.n(20, 60_000, 2_000_000), |w, _| {
            let (t, p, x) = w.g(|g, _| {
                let (v, p) = doc_path(g);
                let t = g.render(&v);
                let t = if g.r.chance(1, 8) { g.mutate(&t) } else { t };
                let mut p = G::spell(&p);
                if g.r.chance(1, 10) { p = g.mutate(&p) }
                if g.r.chance(1, 30) { p.clear() }
                let mut b = 4;
                (t, p, g.value(2, &mut b))
            });
            if !small_path(&p) { return Ok(()) }
            text_level(w, &t, &p, &x)
        }),
        stream("odd-texts", ctx.n(20, 20_000, 500_000), |w, _| {
            let (t, p) = w.g(|g, _| {
                let n = g.size(12);
                let t: String = match g.r.below(4) { 0 => text::sized(g.r.below(text::FAMILIES), n), 1 => (0..n).map(|_| *g.r.pick(text::TOKENS)).collect(), 2 => String::new(), _ => g.string(12) };
                let p = (*g.r.pick(&["", "a", "b", "k", "#0", "#1", "#x", "a.a", "a.#0", "k0", "#", ".", "\\#0", "k\\.1", "#18446744073709551615", "#99999999999999999999"])).to_string();
                (t, p)
            });
            text_level(w, &t, &p, &V::Num(1.0))
        }),
        {
            let sz = text::sizes_far(ctx, if ctx.tier == Tier::Mini { 3 } else { 100 }, if ctx.tier == Tier::Mini { 6 } else { 9000 });
            let m = sz.len() as u64;
            let mut s = exhaustive("sizes", m * 6, move |w, i| {
                let n = sz[(i / 6) as usize];
                let (v, p) = w.g(|g, _| sized_doc(i % 6, n, 260, g));
                let t = w.g(|g, _| g.render(&v));
                let p = G::spell(&p);
                text_level(w, &t, &p, &V::Str("x".into()))
            });
            s.chunk = 6;
            s
        },
        // and against the model, so that the whole chain is seen to do what it says
        stream("against-the-model", ctx.n(20, 40_000, 1_000_000), |w, _| {
            let (v, t, p, x) = w.g(|g, _| { let (v, p) = doc_path(g); let t = g.render(&v); let mut b = 4; let x = g.value(2, &mut b); (v, t, p, x) });
            if !G::spellable(&p) || p.iter().any(|x| matches!(x, Step::I(i) if *i > 5000)) { return Ok(()) }
            let s = G::spell(&p);
            w.saw(fpv(&v, &p));
            let what = |f: &str| format!("{}({}, {})", f, json_str(&clip(&t, 300)), json_str(&clip(&s, 100)));
            let g = call(|| json::get::<Json>(&t, &s)).map_err(|e| format!("{} {}", what("get"), e))?;
            match (v.find(&p), g) { (Ok(a), Ok(b)) => a.same(&b).map_err(|e| format!("{} is another value, {}", what("get"), e))?, (Err(_), Err(_)) => (), (a, b) => return Err(format!("{} is {:?}, the model says {:?}", what("get"), b.is_ok(), a.is_ok())) }
            let r = call(|| json::set(&t, &s, x.to_json())).map_err(|e| format!("{} {}", what("set"), e))?.map_err(|e| format!("{} fails: {}", what("set"), e))?;
            let mut v2 = v.clone();
            v2.update(&p, x.clone());
            let got = read(&r).map_err(|_| format!("{} is not valid JSON: {}", what("set"), clip(&r, 200)))?;
            if !got.eq(&v2) { return Err(format!("{} is {}", what("set"), clip(&r, 300))); }
            let r = call(|| json::del(&t, &s)).map_err(|e| format!("{} {}", what("del"), e))?;
            let mut v3 = v.clone();
            match (v3.discard(&p), r) {
                (Ok(_), Ok(r)) => { w.count("deleted"); if !read(&r).map_err(|_| format!("{} is not valid JSON: {}", what("del"), clip(&r, 200)))?.eq(&v3) { return Err(format!("{} is {}", what("del"), clip(&r, 300))) } }
                (Err(_), Err(_)) => (),
                (a, b) => return Err(format!("{} is {:?}, the model says {:?}", what("del"), b.is_ok(), a.is_ok())),
            }
            Ok(())
        }),
    ]
}

// ---- C16 ----

fn write_through(w: &mut Wk, v: &mut V, j: &mut Json, p: &[Step], x: &V) -> Result<(), String> {
    let how = w.rng.below(5);
    let before = vshow(v);
    w.saw(fpv(v, p) ^ how as u64);
    w.sample(|| format!("{} in {}", pshow(p), before));
    let exists = v.find(p).is_ok();
    let name = ["find_mut", "index_mut", "index_mut by reference", "set/update reference", "find_mut, one step"][how];
    let where_ = || format!("writing {} through {} at {} in {}", show(x), name, pshow(p), before);
    let xj = x.to_json();
    match how {
        0 | 4 => {
            let target = walk(j, p).map(|t| t as *const Json);
            let r = call(|| match p { [Step::K(k)] if how == 4 => j.find_mut(k.as_str()), [Step::I(i)] if how == 4 => j.find_mut(*i), _ => j.find_mut(typed(p)) }.map(|r| { let q = r as *const Json; *r = xj.clone(); q })).map_err(|e| format!("{} {}", where_(), e))?;
            match (r, target) {
                (Ok(q), Some(t)) => { if q != t { return Err(format!("{}: not the addressed location", where_())) } *v.find_mut(p).unwrap() = x.clone(); w.count("written") }
                (Err(_), None) => w.count("refused"),
                (Ok(_), None) => return Err(format!("{} succeeds although the path does not exist", where_())),
                (Err(e), Some(_)) => return Err(format!("{} fails: {}", where_(), e)),
            }
            // and find agrees
            if call(|| j.find(typed(p)).is_ok())? != v.find(p).is_ok() { return Err(format!("{}: find disagrees", where_())); }
        }
        1 | 2 => {
            let r = call(|| {
                let mut t: &mut Json = j;
                for s in p { t = match s { Step::K(k) => if how == 1 { &mut t[k.as_str()] } else { &mut t[k] }, Step::I(i) => if how == 1 { &mut t[*i] } else { &mut t[i] } } }
                *t = xj.clone();
            });
            match (r, exists) {
                (Ok(()), true) => { *v.find_mut(p).unwrap() = x.clone(); w.count("written") }
                (Err(_), false) => w.count("index_panicked"),
                (Ok(()), false) => return Err(format!("{} does not panic although the path does not exist", where_())),
                (Err(e), true) => return Err(format!("{} {}", where_(), e)),
            }
        }
        _ => {
            if p.iter().any(|x| matches!(x, Step::I(i) if *i > 3000)) { return Ok(()) }
            let spelled = G::spellable(p) && w.rng.chance(1, 2);
            let r = call(|| {
                let t = if spelled { j.set(&G::spell(p), "placeholder") } else { j.update(typed(p), "placeholder") };
                t.map(|t| { let ok = matches!(t, Json::String(s) if s == "placeholder"); *t = xj.clone(); ok })
            }).map_err(|e| format!("{} {}", where_(), e))?.map_err(|e| format!("{} fails: {}", where_(), e))?;
            if !r { return Err(format!("{}: the reference is not to the value stored", where_())); }
            v.update(p, x.clone());
            w.count("written");
        }
    }
    v.same(j).map_err(|e| format!("{} leaves a wrong document, {}", where_(), e))
}

pub fn c16(ctx: &Ctx) -> Vec<Stream> {
    vec![
        stream("histories", ctx.n(20, 100_000, 3_000_000), |w, _| {
            let mut v = w.g(|g, _| g.doc());
            let mut j = v.to_json();
            let n = w.g(|g, _| g.r.range(1, 6));
            for _ in 0..n {
                let (p, x) = w.g(|g, _| { let p = g.path(&v); let mut b = 4; (p, g.value(2, &mut b)) });
                write_through(w, &mut v, &mut j, &p, &x)?;
            }
            Ok(())
        }),
        stream("every-address", ctx.n(5, 2_000, 60_000), |w, _| {
            let mut v = w.g(|g, _| { let n = g.r.range(5, 60); g.doc_sized(n) });
            let mut j = v.to_json();
            let mut ps = Vec::new();
            all_paths(&v, &mut Vec::new(), &mut ps, 60);
            ps.reverse();
            for (i, p) in ps.iter().enumerate() { write_through(w, &mut v, &mut j, p, &V::Num(i as f64))?; }
            Ok(())
        }),
        size_stream(ctx, 20_000, 1100, |w, v, p| {
            let mut v = v;
            let mut j = v.to_json();
            write_through(w, &mut v, &mut j, &p, &V::Str("w".into()))?;
            let k = w.rng.below(p.len());
            write_through(w, &mut v, &mut j, &p[..=k].to_vec(), &V::Obj(vec![]))
        }),
        stream("duplicates", ctx.n(10, 20_000, 600_000), |w, _| {
            let (mut v, ps) = w.g(|g, _| {
                let k = g.key();
                let n = g.size(40).max(2);
                let mut m: Vec<(String, V)> = (0..n).map(|i| (k.clone(), V::Obj(vec![("x".into(), V::Num(i as f64)), ("x".into(), V::Arr(vec![V::Num(i as f64)]))]))).collect();
                m.push(("other".into(), V::Null));
                (V::Obj(m), vec![vec![Step::K(k.clone()), Step::K("x".into()), Step::I(0)], vec![Step::K(k.clone()), Step::K("x".into())], vec![Step::K(k)]])
            });
            let mut j = v.to_json();
            for p in ps { write_through(w, &mut v, &mut j, &p, &V::Bool(true))?; }
            Ok(())
        }),
    ]
}

// ---- C29 ----

fn name_first(what: &str, e: &json::Error) -> Result<(), String> {
    let (k, s) = (format!("{:?}", e.kind), e.to_string());
    if !s.starts_with(&k) { return Err(format!("{}: the text of the error, {}, does not start with {}", what, json_str(&clip(&s, 100)), k)); }
    if e.kind.to_string() != k { return Err(format!("{}: the kind {} is shown as {}", what, k, e.kind)); }
    Ok(())
}

fn expect<T>(w: &mut Wk, what: &str, r: Result<R<T>, String>, want: Option<EK>) -> Result<(), String> {
    match (r.map_err(|e| format!("{} {}", what, e))?, want) {
        (Err(e), Some(k)) => {
            w.count(match k { EK::Missing => "missing_key", EK::Range => "index_out_of_range", EK::Kind => "wrong_kind", EK::Path => "path_syntax", EK::Conv => "conversion", EK::Parse => "parse" });
            if err_kind(&e) != k { return Err(format!("{} is {} although the cause is {:?}", what, e, k)); }
            name_first(what, &e)
        }
        // whether it succeeds is for the other properties to say
        _ => Ok(()),
    }
}

fn failing(w: &mut Wk, v: &V, p: &[Step]) -> Result<(), String> {
    let mut j = v.to_json();
    let want = v.find(p).err();
    w.saw(fpv(v, p));
    w.sample(|| format!("{:?} at {} in {}", want, pshow(p), vshow(v)));
    let at = format!("at {} in {}", pshow(p), vshow(v));
    let s = if G::spellable(p) { Some(G::spell(p)) } else { None };
    expect(w, &format!("find {}", at), call(|| j.find(typed(p)).map(|_| ())), want)?;
    expect(w, &format!("find_mut {}", at), call(|| j.find_mut(typed(p)).map(|_| ())), want)?;
    if let Some(s) = &s { expect(w, &format!("get {}", at), call(|| j.get(s).map(|_| ())), want)?; }
    v.same(&j).map_err(|e| format!("lookup {} changed the value, {}", at, e))?;
    if want.is_some() {
        expect(w, &format!("discard {}", at), call(|| j.discard(typed(p))), want)?;
        v.same(&j).map_err(|e| format!("failed discard {} changed the value, {}", at, e))?;
        if let Some(s) = &s {
            expect(w, &format!("del {}", at), call(|| j.del(s)), want)?;
            v.same(&j).map_err(|e| format!("failed del {} changed the value, {}", at, e))?;
            let t = j.to_string();
            expect(w, &format!("text-level get {}", at), call(|| json::get::<Json>(&t, s)), want)?;
            expect(w, &format!("text-level del {}", at), call(|| json::del(&t, s)), want)?;
        }
    }
    Ok(())
}

pub fn c29(ctx: &Ctx) -> Vec<Stream> {
    let mut l = text::load(ctx);
    if ctx.tier == Tier::Quick { l.tokens = 4; l.numbers = 4; l.strings = 4; l.mutants = 60_000; l.docs = 2_000; l.prefixes = 500; l.chars = 0x3000; l.small = 60; l.sized_cap = 5000 }
    let mut s = text::text_streams(ctx, l, |w, t| {
        if let Ok(Err(e)) = call(|| Json::parse(t)) {
            w.saw_str(t);
            w.count("parse");
            let what = format!("parse of {}", json_str(&clip(t, 200)));
            if err_kind(&e) != EK::Parse { return Err(format!("{} is {}", what, e)); }
            name_first(&what, &e)?;
        }
        Ok(())
    });
    s.push(stream("lookups", ctx.n(40, 80_000, 3_000_000), |w, _| {
        let (v, ps) = w.g(|g, _| { let v = g.doc(); let ps: Vec<_> = (0..5).map(|_| { let mut p = g.path(&v); if g.r.chance(1, 2) { p.push(g.stray_step()) } p }).collect(); (v, ps) });
        for p in ps { failing(w, &v, &p)?; }
        Ok(())
    }));
    s.push(size_stream(ctx, 5000, 260, |w, v, p| {
        failing(w, &v, &p)?;
        for i in 0..p.len().min(4) {
            let mut q = p.clone();
            q[i] = match &q[i] { Step::I(_) => Step::I(HUGE[i % HUGE.len()]), Step::K(k) => Step::K(k.clone() + "?") };
            failing(w, &v, &q)?;
            q[i] = match &p[i] { Step::I(n) => Step::K(n.to_string()), Step::K(_) => Step::I(0) };
            failing(w, &v, &q)?;
        }
        Ok(())
    }));
    s.push(stream("operations", ctx.n(40, 100_000, 3_000_000), |w, _| {
        let (v, op) = w.g(|g, _| {
            let arr = g.r.chance(1, 2);
            let v = if g.r.chance(1, 2) { other_kind(g, arr) } else { g.doc_sized(40) };
            let op = if arr { let len = match &v { V::Arr(a) => a.len(), _ => 2 }; arr_op(g, len) } else { let k = vec![g.key()]; obj_op(g, &k) };
            (v, op)
        });
        let mut j = v.to_json();
        let want = apply_model(&mut v.clone(), &op).err();
        if want.is_none() { return Ok(()) }
        let what = format!("{} on {}", clip(&format!("{:?}", op), 200), vshow(&v));
        w.saw_str(&what);
        expect(w, &what, call(|| apply(&mut j, &op, 1)), want)?;
        v.same(&j).map_err(|e| format!("failed {} changed the value, {}", what, e))
    }));
    s.push(stream("malformed-paths", ctx.n(40, 60_000, 1_000_000), |w, _| {
        let (v, s) = w.g(|g, _| {
            let (v, mut p) = doc_path(g);
            p.truncate(3);
            let mut s = G::spell(&p);
            match g.r.below(4) { 0 => s = String::new(), 1 => s.push_str(&format!(".#{}", g.string(8))), 2 => s = format!("#{}.{}", g.string(4), s), _ => s.push_str(*g.r.pick(&[".#", ".#-1", ".#1x", ".# 1", ".#99999999999999999999", ".#0x1", ".#1e1", ".##1", ".#１"])) }
            (v, s)
        });
        if !matches!(read_path(&s), Some(Err(_))) { return Ok(()) }
        let mut j = v.to_json();
        let what = |f: &str| format!("{}({}) on {}", f, json_str(&clip(&s, 100)), vshow(&v));
        w.saw_str(&s);
        expect(w, &what("get"), call(|| j.get(&s).map(|_| ())), Some(EK::Path))?;
        expect(w, &what("del"), call(|| j.del(&s)), Some(EK::Path))?;
        v.same(&j).map_err(|e| format!("{} changed the value, {}", what("del"), e))?;
        expect(w, &what("set"), call(|| j.set(&s, 1).map(|_| ())), Some(EK::Path))?;
        v.same(&j).map_err(|e| format!("{} changed the value, {}", what("set"), e))
    }));
    s.push(stream("too-large", ctx.n(10, 6_000, 100_000), |w, _| {
        // on an existing array, or in place of another value: no container has to be made on the way
        let (v, p) = w.g(|g, _| { let v = g.doc_sized(40); let p = g.path(&v); (v, p) });
        let mut p = p;
        while !p.is_empty() && v.find(&p).is_err() { p.pop(); }
        let h = *w.rng.pick(HUGE);
        p.push(Step::I(h));
        let mut j = v.to_json();
        let what = format!("storing at {} in {}", pshow(&p), vshow(&v));
        w.saw(fpv(&v, &p));
        w.count("index_too_large");
        expect(w, &what, call(|| j.update(typed(&p), 1).map(|_| ())), Some(EK::Range))?;
        v.same(&j).map_err(|e| format!("failed {} changed the value, {}", what, e))
    }));
    s.push(stream("conversions", ctx.n(40, 60_000, 1_500_000), |w, _| {
        let v = w.g(|g, _| { let mut b = 8; g.value(2, &mut b) });
        let j = v.to_json();
        let what = vshow(&v);
        w.saw_str(&what);
        macro_rules! ty { ($($t:ty),*) => { $( if let Err(e) = call(|| j.convert::<$t>().map(|_| ()))? {
            w.count("conversion");
            let x = format!("{} as {}", what, stringify!($t));
            if err_kind(&e) != EK::Conv { return Err(format!("{} is {}", x, e)); }
            name_first(&x, &e)?;
        } )* } }
        ty!(f64, u8, i128, f32, String, bool, Vec<f64>, Option<bool>, Vec<String>, Option<Vec<Option<u8>>>, std::collections::HashMap<String, f64>, std::collections::HashMap<i32, Vec<bool>>, Vec<(String, String)>, Vec<(u8, f64)>);
        v.same(&j).map_err(|e| format!("a conversion changed the value, {}", e))
    }));
    s
}
