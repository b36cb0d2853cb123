//! Monitors of totality, cost, independence and memory: C17, C18, C19, C20.
use crate::alloc;
use crate::fw::*;
use crate::gen::G;
use crate::model::*;
use crate::ops::{read_path, typed, HUGE};
use crate::rng::{hash_str, Rng};
use crate::text;
use json::{Json, Path, ToJson};
use std::collections::HashMap;

// ---- one call of the library, described by data ----

#[derive(Clone, Debug)]
pub enum Edit { Set(String, V), Update(Vec<Step>, V), Del(String), Discard(Vec<Step>), Insert(String, V), Append(String, V), Delete(String), Push(V), Replace(usize, V), Remove(usize), Write(Vec<Step>, V), Get(String), Find(Vec<Step>), Merge(String) }

#[derive(Clone, Debug)]
pub enum Act {
    Parse(String),
    Decode(usize, String),
    Get(String, String),
    Set(String, String, V),
    Del(String, String),
    Encode(V),
    Convert(usize, V),
    Edits(V, Vec<Edit>),
    Eq(V, V),
    Typed(u64),
    IndexPanic(V, Vec<Step>),
}

fn canon(v: &V, out: &mut String) {
    match v {
        V::Obj(m) => { out.push('{'); for (k, x) in m { out.push_str(&format!("{:?}:", k)); canon(x, out); out.push(',') } out.push('}') }
        V::Arr(a) => { out.push('['); for x in a { canon(x, out); out.push(',') } out.push(']') }
        V::Num(f) => out.push_str(&format!("{:x}", if f.is_nan() { 1 } else { f.to_bits() })),
        v => out.push_str(&format!("{:?}", v)),
    }
}
fn show_canon(j: &Json) -> String { let mut s = String::new(); canon(&V::of(j), &mut s); s }

pub const TYPES: usize = 14;
macro_rules! each_type { ($n:expr, $m:ident) => { match $n {
    0 => $m!(f64), 1 => $m!(u8), 2 => $m!(i128), 3 => $m!(f32), 4 => $m!(String), 5 => $m!(bool), 6 => $m!(Vec<f64>), 7 => $m!(Option<String>), 8 => $m!(Vec<Vec<Option<i32>>>),
    9 => $m!(HashMap<String, f64>), 10 => $m!(Vec<(String, Vec<u8>)>), 11 => $m!(HashMap<i64, String>), 12 => $m!(Vec<(f64, Option<bool>)>), _ => $m!(Vec<String>),
} } }
/// text of a result: all of it, only a map has no order of its own
trait Shown { fn shown(&self) -> String; }
macro_rules! shown { ($($t:ty),*) => { $(impl Shown for $t { fn shown(&self) -> String { format!("{:?}", self) } })* } }
shown!(f64, u8, i128, f32, String, bool, Vec<f64>, Option<String>, Vec<Vec<Option<i32>>>, Vec<(String, Vec<u8>)>, Vec<(f64, Option<bool>)>, Vec<String>);
impl<K: Ord + std::fmt::Debug, T: std::fmt::Debug> Shown for HashMap<K, T> {
    fn shown(&self) -> String { format!("{:?}", self.iter().collect::<std::collections::BTreeMap<_, _>>()) }
}
fn show_typed<T: Shown>(r: Result<T, json::Error>) -> String {
    match r { Ok(x) => x.shown(), Err(e) => show_err(&e) }
}
fn show_err(e: &json::Error) -> String { format!("Err {:?} {:?}", err_kind(e), clip(&e.to_string(), 200)) }

/// performs the call and tells everything that came out of it
pub fn perform(a: &Act) -> String {
    match a {
        Act::Parse(t) => match Json::parse(t) { Ok(j) => show_canon(&j), Err(e) => show_err(&e) },
        Act::Decode(n, t) => { macro_rules! go { ($t:ty) => { show_typed(json::decode::<$t>(t)) } } each_type!(*n, go) }
        Act::Get(t, p) => match json::get::<Json>(t, p) { Ok(j) => show_canon(&j), Err(e) => show_err(&e) },
        Act::Set(t, p, x) => match json::set(t, p, x.to_json()) { Ok(s) => s, Err(e) => show_err(&e) },
        Act::Del(t, p) => match json::del(t, p) { Ok(s) => s, Err(e) => show_err(&e) },
        Act::Encode(v) => { let j = v.to_json(); let s = j.to_string(); if json::encode(&j) != s { return "encode and to_string differ".into() } s }
        Act::Convert(n, v) => { let j = v.to_json(); macro_rules! go { ($t:ty) => { show_typed(j.convert::<$t>()) } } each_type!(*n, go) }
        Act::Edits(v, es) => {
            let mut j = v.to_json();
            let mut out = String::new();
            let mut keep = Vec::new();
            for e in es {
                if keep.len() < 3 { keep.push(j.clone()) }
                match e {
                    Edit::Set(p, x) => match j.set(p, x.to_json()) { Ok(r) => out.push_str(&show_canon(r)), Err(e) => out.push_str(&show_err(&e)) },
                    Edit::Update(p, x) => match j.update(typed(p), x.to_json()) { Ok(r) => out.push_str(&show_canon(r)), Err(e) => out.push_str(&show_err(&e)) },
                    Edit::Del(p) => match j.del(p) { Ok(r) => out.push_str(&show_canon(&r)), Err(e) => out.push_str(&show_err(&e)) },
                    Edit::Discard(p) => match j.discard(typed(p)) { Ok(r) => out.push_str(&show_canon(&r)), Err(e) => out.push_str(&show_err(&e)) },
                    Edit::Insert(k, x) => if let Err(e) = j.insert(k, x.to_json()) { out.push_str(&show_err(&e)) },
                    Edit::Append(k, x) => if let Err(e) = j.append(k, x.to_json()) { out.push_str(&show_err(&e)) },
                    Edit::Delete(k) => if let Err(e) = j.delete(k) { out.push_str(&show_err(&e)) },
                    Edit::Push(x) => if let Err(e) = j.push(x.to_json()) { out.push_str(&show_err(&e)) },
                    Edit::Replace(i, x) => if let Err(e) = j.replace(*i, x.to_json()) { out.push_str(&show_err(&e)) },
                    Edit::Remove(i) => if let Err(e) = j.remove(*i) { out.push_str(&show_err(&e)) },
                    Edit::Write(p, x) => match j.find_mut(typed(p)) { Ok(r) => *r = x.to_json(), Err(e) => out.push_str(&show_err(&e)) },
                    Edit::Get(p) => match j.get(p) { Ok(r) => out.push_str(&show_canon(r)), Err(e) => out.push_str(&show_err(&e)) },
                    Edit::Find(p) => match j.find(typed(p)) { Ok(r) => out.push_str(&show_canon(r)), Err(e) => out.push_str(&show_err(&e)) },
                    Edit::Merge(k) => match j.index_and_merge(k) { Ok(r) => for x in r { out.push_str(&show_canon(x)) }, Err(e) => out.push_str(&show_err(&e)) },
                }
                out.push(';');
            }
            out.push_str(&show_canon(&j));
            for k in keep { out.push_str(&show_canon(&k)) }
            out
        }
        Act::Eq(a, b) => { let (x, y) = (a.to_json(), b.to_json()); let c = x.clone(); format!("{} {} {} {}", x == y, y == x, x == c, show_canon(&c)) }
        Act::Typed(seed) => {
            let mut r = Rng::new(*seed);
            let n = r.below(20);
            let m: HashMap<String, Vec<f64>> = (0..n).map(|i| (format!("k{}", i), vec![r.below(1000) as f64 / 8.0; r.below(5)])).collect();
            let s = json::encode(&m);
            let back: Result<HashMap<String, Vec<f64>>, _> = json::decode(&s);
            format!("{} {}", s, back.map(|b| b == m).unwrap_or(false))
        }
        Act::IndexPanic(v, p) => {
            let j = v.to_json();
            match call(|| { let mut x = &j; for s in p { x = match s { Step::K(k) => &x[k.as_str()], Step::I(i) => &x[*i] } } show_canon(x) }) { Ok(s) => s, Err(_) => format!("panic {}", show_canon(&j)) }
        }
    }
}

pub fn any_path_string(g: &mut G, v: &V) -> String {
    match g.r.below(8) {
        0..=3 => { let p = g.path(v); G::spell(&p) }
        4 => { let p = g.path(v); let s = G::spell(&p); g.mutate(&s) }
        5 => g.string(40),
        6 => { let n = g.size(20); (0..n).map(|_| *g.r.pick(&["a", ".", "\\", "#", "0", "1", "#0", "\\.", "é", "-", "k"])).collect() }
        _ => (*g.r.pick(&["", "#", "#0", ".", "..", "\\", "\\.", "#18446744073709551615", "#18446744073709551616", "a.#9223372036854775808", "#-1", "a.", ".a", "#00000", "\\#", "a\\"])).to_string(),
    }
}
fn any_text(g: &mut G) -> String {
    match g.r.below(10) {
        0..=3 => { let v = g.doc(); g.render(&v) }
        4..=5 => { let v = g.doc_sized(60); let t = g.render(&v); g.mutate(&t) }
        6 => { let n = g.size(60); text::sized(g.r.below(text::FAMILIES), n) }
        7 => { let n = g.size(30); (0..n).map(|_| *g.r.pick(text::TOKENS)).collect() }
        8 => g.string(100),
        _ => { let v = g.doc_sized(60); let t = g.render(&v); let i: Vec<usize> = t.char_indices().map(|x| x.0).collect(); if i.is_empty() { t } else { let k = *g.r.pick(&i); t[..k].to_string() } }
    }
}
/// an index that is either small or too large for any memory
fn any_index(g: &mut G) -> usize { if g.r.chance(1, 6) { HUGE[g.r.below(HUGE.len())].wrapping_sub(g.r.below(3)) } else { g.size(3000) } }
fn tame(p: &str) -> bool { match read_path(p) { Some(Ok(s)) => s.iter().all(|x| !matches!(x, Step::I(i) if *i > 5000 && *i < (1 << 59) - 3)), Some(Err(_)) => true, None => false } }

/// an object for typed decoding: keys that convert to the same number, duplicates, several members that do not fit
fn members(g: &mut G) -> V {
    let n = g.r.range(1, 12);
    let kind = g.r.below(5);
    let numeric = g.r.chance(3, 4);
    let faults = g.r.below(4);
    V::Obj((0..n).map(|i| {
        let k = if numeric { let d = g.r.below(4); let sign = *g.r.pick(&["", "+", "-", "+0", "-0", "0", "00", "-00"]); format!("{}{}", sign, d) } else { g.key() };
        let x = match if g.r.below(8) < faults { g.r.below(5) } else { kind } {
            0 => V::Num(i as f64), 1 => V::Str(format!("v{}", i)), 2 => V::Bool(i % 2 == 0), 3 => V::Arr(vec![V::Num(i as f64); i % 3]), _ => V::Null,
        };
        (k, x)
    }).collect())
}

pub fn any_act(g: &mut G) -> Act {
    let small = |g: &mut G| { let mut b = 5; g.value(2, &mut b) };
    match g.r.below(20) {
        0..=3 => Act::Parse(any_text(g)),
        4 => if g.r.chance(1, 2) { Act::Decode(g.r.below(TYPES), any_text(g)) } else { let v = members(g); let t = g.render(&v); Act::Decode(9 + g.r.below(4), t) },
        5..=6 => { let v = g.doc(); let t = g.render(&v); let t = if g.r.chance(1, 6) { g.mutate(&t) } else { t }; Act::Get(t, any_path_string(g, &v)) }
        7 => { let v = g.doc(); let t = g.render(&v); let p = any_path_string(g, &v); if tame(&p) { Act::Set(t, p, small(g)) } else { Act::Del(t, p) } }
        8 => { let v = g.doc(); let t = g.render(&v); Act::Del(t, any_path_string(g, &v)) }
        9..=10 => { let mut v = g.doc(); if g.r.chance(1, 4) { v = V::Arr(vec![v, V::Num(g.any_num())]) } Act::Encode(v) }
        11 => { let n = g.r.below(TYPES); if g.r.chance(1, 3) { Act::Convert(9 + n % 4, members(g)) } else { Act::Convert(n, if g.r.chance(1, 2) { small(g) } else { g.doc() }) } }
        12..=16 => {
            let v = g.doc();
            let n = g.r.range(1, 8);
            let es = (0..n).map(|_| match g.r.below(16) {
                0..=1 => { let p = any_path_string(g, &v); if tame(&p) { Edit::Set(p, small(g)) } else { Edit::Get(p) } }
                2..=3 => { let mut p = g.path(&v); if g.r.chance(1, 5) { p.push(Step::I(any_index(g))) } for s in p.iter_mut() { if let Step::I(i) = s { if *i > 5000 && *i < (1 << 59) - 3 { *i = 4 } } } Edit::Update(p, small(g)) }
                4 => Edit::Del(any_path_string(g, &v)),
                5 => Edit::Discard(g.path(&v)),
                6 => Edit::Insert(g.key(), small(g)),
                7..=8 => Edit::Append(g.key(), small(g)),
                9 => Edit::Delete(g.key()),
                10 => Edit::Push(small(g)),
                11 => Edit::Replace(any_index(g), small(g)),
                12 => Edit::Remove(any_index(g)),
                13 => Edit::Write(g.path(&v), small(g)),
                14 => if g.r.chance(1, 2) { Edit::Get(any_path_string(g, &v)) } else { Edit::Find({ let mut p = g.path(&v); p.push(Step::I(any_index(g))); p }) },
                _ => Edit::Merge(g.key()),
            }).collect();
            Act::Edits(v, es)
        }
        17 => { let v = g.doc(); let u = if g.r.chance(1, 2) { v.clone() } else { g.doc() }; Act::Eq(v, u) }
        18 => Act::Typed(g.r.next()),
        _ => { let v = g.doc(); let p = g.path(&v); Act::IndexPanic(v, p) }
    }
}

fn brief(a: &Act) -> String { clip(&format!("{:?}", a), 400) }

// ---- C17 ----

fn total(w: &mut Wk, a: &Act) -> Result<(), String> {
    let r = call(|| perform(a)).map_err(|e| format!("{}: {}", brief(a), e))?;
    w.saw_str(&r);
    w.count("calls_returned");
    if r.contains("Err ") { w.count("calls_with_errors") }
    w.sample(|| brief(a));
    Ok(())
}

/// everything there is to do with a text
fn exercise(w: &mut Wk, t: &str) -> Result<(), String> {
    w.saw_str(t);
    let r = call(|| {
        let r = Json::parse(t);
        let s = match &r { Ok(j) => { let s = j.to_string(); let c = j.clone(); assert!(c == *j || s.len() > 1 << 20, "MONITOR"); drop(c); s } Err(e) => e.to_string() };
        (r.is_ok(), s.len())
    }).map_err(|e| format!("{}: {}", json_str(&clip(t, 400)), e));
    match r {
        Ok((true, _)) => w.count("texts_accepted"),
        Ok((false, _)) => w.count("texts_rejected"),
        // equality of a clone is another property
        Err(e) if e.contains("MONITOR") => (),
        Err(e) => return Err(e),
    }
    if t.len() % 16 == 0 {
        call(|| { let _ = json::get::<Json>(t, "a"); let _ = json::get::<Vec<String>>(t, "#0"); let _ = json::set(t, "a.#0", 1); let _ = json::del(t, "k"); let _ = json::get::<f64>(t, t); let _ = json::del(t, t); let _ = json::decode::<Vec<(String, f64)>>(t); })
            .map_err(|e| format!("text-level calls on {}: {}", json_str(&clip(t, 400)), e))?;
    }
    Ok(())
}

/// nested up to 256 levels, on a thread with the ordinary 2 MB stack
fn nested(w: &mut Wk, i: u64) -> Result<(), String> {
    let d = (i / 8) as usize + 1;
    let shape = i % 8;
    let h = d / 2;
    let t = match shape {
        0 => format!("{}1{}", "[".repeat(d), "]".repeat(d)),
        1 => format!("{}{}", "[".repeat(d), "]".repeat(d)),
        2 => format!("{}null{}", "{\"a\":".repeat(d), "}".repeat(d)),
        3 => format!("{}1{}{}", "[{\"a\":".repeat(h), "}]".repeat(h), ""),
        4 => format!("{}1{}", "[[],{\"k\":\"v\"},".repeat(d), ",2]".repeat(d)),
        5 => format!("{}1{}", "{\"a\":0,\"a\":".repeat(d), ",\"z\":[{}]}".repeat(d)),
        6 => "[".repeat(d),
        _ => format!("{}x{}", "{\"a\":".repeat(d), "}".repeat(d)),
    };
    let pathstr: String = match shape { 0 | 1 => vec!["#0"; d].join("."), 2 | 5 => vec!["a"; d].join("."), 3 => vec!["#0.a"; h].join("."), _ => vec!["#2"; d].join(".") };
    let run = move || -> Result<u64, String> {
        call(|| {
            let mut n = 0;
            if let Ok(mut j) = Json::parse(&t) {
                n += 1;
                let s = j.to_string();
                let c = j.clone();
                let e = c == j;
                let dbg = format!("{:?}", j).len();
                let s2 = json::decode::<Json>(&s).map(|x| x.to_string().len()).unwrap_or(0);
                let g = j.get(&pathstr).is_ok();
                let p: Vec<Step> = pathstr.split('.').map(|x| match x.strip_prefix('#') { Some(i) => Step::I(i.parse().unwrap()), None => Step::K(x.into()) }).collect();
                if !p.is_empty() && !pathstr.is_empty() { let f = j.find(typed(&p)).is_ok(); let m = j.find_mut(typed(&p)).is_ok(); let _ = (f, m); let _ = format!("{:?}", typed(&p)); let _ = j.set(&pathstr, 5); let _ = j.set(&(pathstr.clone() + ".new.#1.deeper"), "x"); let _ = j.to_string(); let _ = j.del(&pathstr); }
                let _ = json::get::<Json>(&s, &pathstr); let _ = json::set(&s, &pathstr, 1); let _ = json::del(&s, &pathstr);
                n += (e as u64) + (g as u64) + (dbg > 0) as u64 + (s2 > 0) as u64;
            }
            // made by set from nothing
            let mut z = Json::Null;
            if !pathstr.is_empty() { let _ = z.set(&pathstr, 1); let _ = z.to_string(); }
            n
        })
    };
    let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, run).unwrap().join()).map_err(|_| format!("HARNESS thread of depth {}", d))?;
    r.map_err(|e| format!("nesting {} of shape {}: {}", d, shape, e))?;
    w.saw(i);
    w.max("max_nesting", d as u64);
    Ok(())
}

pub fn c17(ctx: &Ctx) -> Vec<Stream> {
    let mut l = text::load(ctx);
    if ctx.tier == Tier::Quick { l.tokens = 4; l.numbers = 5; l.strings = 4; l.docs = 20_000; l.mutants = 250_000; l.prefixes = 3_000; l.chars = 0x110000; l.sized_cap = 70_000 }
    // an ordinary stack
    l.deep = text::SHALLOW;
    let mut s = text::text_streams(ctx, l, exercise);
    let mut n = exhaustive("nesting-256", if ctx.tier == Tier::Mini { 24 } else { 256 * 8 }, nested);
    n.chunk = 8;
    s.push(n);
    s.push(stream("any-call", ctx.n(60, 150_000, 5_000_000), |w, _| { let a = w.g(|g, _| any_act(g)); total(w, &a) }));
    s.push(stream("any-path", ctx.n(80_000, 150_000, 4_000_000), |w, _| {
        let (v, p, x) = w.g(|g, _| { let v = g.doc_sized(40); let p = any_path_string(g, &v); let mut b = 3; (v, p, g.value(1, &mut b)) });
        let es = if tame(&p) { vec![Edit::Get(p.clone()), Edit::Set(p.clone(), x), Edit::Get(p.clone()), Edit::Del(p.clone()), Edit::Del(p)] } else { vec![Edit::Get(p.clone()), Edit::Del(p)] };
        total(w, &Act::Edits(v, es))
    }));
    s.push(stream("any-operation", ctx.n(80_000, 150_000, 4_000_000), |w, _| {
        // every operation on every kind of value, with any index
        let (v, es) = w.g(|g, _| {
            let v = match g.r.below(8) { 0 => V::Null, 1 => V::Bool(false), 2 => V::Num(g.any_num()), 3 => V::Str(g.string(20)), 4 => { let n = g.size(40); V::Arr((0..n).map(|i| V::Num(i as f64)).collect()) } 5 => { let n = g.size(40); V::Obj((0..n).map(|i| (g.key(), V::Num(i as f64))).collect()) } _ => g.doc_sized(40) };
            let i = any_index(g);
            let k = g.key();
            let x = V::Num(1.0);
            let st = if i > 5000 && i < (1 << 59) - 3 { 7 } else { i };
            (v, vec![Edit::Remove(i), Edit::Replace(i, x.clone()), Edit::Push(x.clone()), Edit::Remove(any_index(g)), Edit::Append(k.clone(), x.clone()), Edit::Insert(k.clone(), x.clone()), Edit::Merge(k.clone()), Edit::Delete(k.clone()), Edit::Find(vec![Step::I(i)]), Edit::Find(vec![Step::K(k.clone())]), Edit::Write(vec![Step::I(i)], x.clone()), Edit::Discard(vec![Step::I(i)]), Edit::Discard(vec![Step::K(k)]), Edit::Update(vec![Step::I(st)], x)])
        });
        total(w, &Act::Edits(v, es))
    }));
    // paths of many steps, in both forms, longer than any document is deep
    let sz: Vec<usize> = text::sizes(ctx, 300, if ctx.tier == Tier::Mini { 20 } else { 4000 });
    let m = sz.len() as u64;
    let mut lp = exhaustive("long-paths", m * 6, move |w, i| {
        let n = sz[(i / 6) as usize].max(1);
        let (v, p): (V, Vec<Step>) = match i % 6 {
            0 => (V::Null, vec![Step::K("a".into()); n]),
            1 => (V::Arr(vec![V::Arr(vec![])]), vec![Step::I(0); n]),
            2 => (V::Obj(vec![("a".into(), V::Arr(vec![V::Null]))]), (0..n).map(|i| if i % 2 == 0 { Step::K("a".into()) } else { Step::I(0) }).collect()),
            k => {
                // the document goes as deep as the path, up to 250 levels
                let d = n.min(250);
                let mut v = V::Num(1.0);
                for i in (0..d).rev() { v = if (i + k as usize) % 2 == 0 { V::Arr(vec![v]) } else { V::Obj(vec![("k".into(), v)]) } }
                (v, (0..n).map(|i| if (i + k as usize) % 2 == 0 { Step::I(0) } else { Step::K("k".into()) }).collect())
            }
        };
        w.max("max_path_steps", n as u64);
        w.count("long_paths");
        let s = G::spell(&p);
        let mut es = vec![Edit::Find(p.clone()), Edit::Get(s.clone()), Edit::Write(p.clone(), V::Null)];
        if n <= 250 { es.push(Edit::Update(p.clone(), V::Num(2.0))); es.push(Edit::Set(s.clone(), V::Num(3.0))) }
        es.push(Edit::Del(s));
        es.push(Edit::Discard(p));
        total(w, &Act::Edits(v, es))
    });
    lp.chunk = 6;
    s.push(lp);
    s.push(stream("any-bytes", ctx.n(80_000, 150_000, 4_000_000), |w, _| {
        let n = w.g(|g, _| g.size(200));
        let b: Vec<u8> = (0..n).map(|_| match w.rng.below(3) { 0 => w.rng.below(256) as u8, 1 => *w.rng.pick(b"[]{},:\"\\ntfu0123456789.eE+- \t\n\rrals"), _ => *w.rng.pick(b"[]{},:\"\\ \"\"") }).collect();
        exercise(w, &String::from_utf8_lossy(&b))
    }));
    s.push(stream("long-numbers", ctx.n(10, 4_000, 100_000), |w, _| {
        let t = w.g(|g, _| {
            let a = g.size(3000); let b = g.size(3000); let c = g.size(400);
            let d = |n: usize, g: &mut G| -> String { (0..n).map(|_| (b'0' + g.r.below(10) as u8) as char).collect() };
            format!("{}{}{}{}{}{}", if g.r.chance(1, 2) { "-" } else { "" }, if g.r.chance(1, 4) { "0".into() } else { format!("7{}", d(a, g)) }, if g.r.chance(1, 2) { format!(".{}", d(b, g)) } else { String::new() }, *g.r.pick(&["", "e", "E", "e+", "e-"]), d(c, g), *g.r.pick(&["", "", "", ".", "x", "e"]))
        });
        exercise(w, &t)
    }));
    s
}

/// the recorded findings: how deep a text may be nested, how long a path may be, on the main thread's 8 MB stack
pub fn probe(name: &str, n: usize) {
    let out = std::thread::Builder::new().stack_size(8 << 20).spawn({
        let name = name.to_string();
        move || match name.as_str() {
            "deep-array" => Json::parse(&format!("{}{}", "[".repeat(n), "]".repeat(n))).is_ok(),
            "deep-object" => Json::parse(&format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n))).is_ok(),
            "long-path" => { let mut j = Json::Null; let r = j.get(&"a.".repeat(n)).is_ok(); let _ = j.set("a", 1); r }
            _ => { let mut p = Path::new("a"); for _ in 0..n.min(3000) { p.append("a"); } true }
        }
    }).unwrap().join();
    println!("PROBE-RETURNED {:?}", out.is_ok());
}

// ---- C18 ----

extern "C" { fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32; }
fn cpu() -> f64 { let mut t = [0i64; 2]; unsafe { clock_gettime(3, &mut t); } t[0] as f64 + t[1] as f64 * 1e-9 }

pub const FLAT: usize = 34;
/// flat texts of about n bytes
fn flat(f: usize, n: usize) -> String {
    let rep = |s: &str| s.repeat(n / s.len() + 1);
    let list = |item: &dyn Fn(usize) -> String| { let mut s = String::with_capacity(n + 64); let mut i = 0; while s.len() < n { if i > 0 { s.push(',') } s.push_str(&item(i)); i += 1; } s };
    match f {
        0 => format!("[{}]", list(&|_| "1".into())),
        1 => format!("[{}]", list(&|i| i.to_string())),
        2 => format!("[{}]", list(&|_| "\"abcdefgh\"".into())),
        3 => format!("{{{}}}", list(&|i| format!("\"k{}\":{}", i, i))),
        4 => format!("{{{}}}", list(&|i| format!("\"k\":{}", i))),
        5 => format!("\"{}\"", rep("a")),
        6 => format!("\"{}\"", rep("\\n")),
        7 => format!("\"{}\"", rep("\\u00e9")),
        8 => format!("\"{}\"", rep("\\ud83d\\ude00")),
        9 => format!("\"{}\"", rep("é")),
        10 => format!("\"{}\"", rep("𝄞")),
        11 => format!("{}1", rep(" ")),
        12 => format!("1{}", rep("\n")),
        13 => format!("[{}1]", rep("\t")),
        14 => format!("{{\"a\"{}:1}}", rep(" ")),
        15 => rep("7")[..n.min(400_000)].to_string() + "e-400000",
        16 => format!("0.{}", rep("3")),
        17 => format!("[{}]", list(&|_| "[]".into())),
        18 => format!("[{}]", list(&|_| "{}".into())),
        19 => format!("[{}]", list(&|i| format!("{{\"a\":{},\"b\":\"x\"}}", i))),
        20 => format!("[{}]", list(&|_| "null".into())),
        21 => format!("[\"{}\"]", rep("[{,:]}")),
        22 => format!("{{\"{}\":1}}", rep("k")),
        23 => format!("{{\"a\":\"{}\"}}", rep("\\\"")),
        24 => format!("[{}", list(&|_| "1".into())),
        25 => format!("\"{}", rep("x")),
        26 => format!("{{{}", list(&|i| format!("\"k{}\":{}", i, i))),
        27 => format!("{{{}}}", list(&|i| format!("\"a{}\":[{}],\"d\":null", i % 50, i))),
        28 => format!("[{}]", list(&|i| format!("\"\\u{:04x}é\"", 32 + i % 5000))),
        29 => format!("[ {} ]", list(&|i| format!("  {}\n ", i))),
        30 => format!("[{}]", list(&|i| format!("{}.5e{}", i, i % 30))),
        31 => format!("{{{}}}", list(&|i| format!("\"{}\":[]", "x".repeat(i % 40)))),
        32 => format!("[1,{}]", rep(" ")),
        _ => format!("[{}]", list(&|i| format!("[[{}],{{\"a\":[{}]}}]", i, i))),
    }
}

struct Cost { name: &'static str, total: u64, peak: i64, live: i64, calls: u64, time: f64 }
fn costs(t: &str, reps: usize) -> Vec<Cost> {
    let mut out: Vec<Cost> = Vec::new();
    let mut add = |name: &'static str, u: alloc::Usage, time: f64| match out.iter_mut().find(|c| c.name == name) { Some(c) => c.time = c.time.min(time), None => out.push(Cost { name, total: u.total, peak: u.peak, live: u.live, calls: u.calls, time }) };
    for _ in 0..reps {
        let t0 = cpu();
        let (j, u) = alloc::measure(|| Json::parse(t));
        add("parse", u, cpu() - t0);
        if let Ok(mut j) = j {
            let t0 = cpu();
            let (s, u) = alloc::measure(|| j.to_string());
            add("to_string", u, cpu() - t0);
            drop(s);
            let t0 = cpu();
            let (c, u) = alloc::measure(|| j.clone());
            add("clone", u, cpu() - t0);
            let t0 = cpu();
            let (_, u) = alloc::measure(|| c == j);
            add("equality", u, cpu() - t0);
            let t0 = cpu();
            drop(c);
            let u = alloc::Usage { live: 0, peak: 0, total: 0, calls: 0 };
            add("drop", u, cpu() - t0);
            let t0 = cpu();
            let (r, u) = alloc::measure(|| json::decode::<Json>(t).is_ok());
            add("decode", u, cpu() - t0);
            let _ = r;
            if let Json::Object(_) = &j {
                let t0 = cpu();
                let (_, u) = alloc::measure(|| { for i in 0..200 { let _ = j.append("new", i); } });
                add("200 x append", u, cpu() - t0);
            }
        }
    }
    out
}

fn scales(w: &mut Wk, f: usize, n: usize) -> Result<(), String> {
    let (t1, t8) = (flat(f, n), flat(f, n * 8));
    let ratio = t8.len() as f64 / t1.len() as f64;
    let (a, b) = (costs(&t1, 1), costs(&t8, 1));
    w.saw((f as u64) << 32 | n as u64);
    let head = clip(&t1, 40);
    for (x, y) in a.iter().zip(&b) {
        w.count("growth_ratios");
        let pairs = [("allocated bytes", x.total as f64, y.total as f64), ("peak memory", x.peak as f64, y.peak as f64), ("retained memory", x.live as f64, y.live as f64), ("allocations", x.calls as f64, y.calls as f64)];
        for (what, p, q) in pairs {
            // doubling of buffers may cost up to twice, small constants do not matter
            if q > 4096.0 * 8.0 && q > 2.6 * ratio * p.max(4096.0) && what != "allocations" || what == "allocations" && q > 2.6 * ratio * p.max(200.0) {
                return Err(format!("{} of {} bytes of {} needs {} {}, {} of {} bytes needs {}", x.name, t1.len(), head, p, what, x.name, t8.len(), q));
            }
        }
        if x.name == "parse" || x.name == "to_string" || x.name == "clone" {
            let n = t8.len() as f64;
            w.max("max_allocated_per_byte", (y.total as f64 / n) as u64);
            w.max("max_peak_per_byte", (y.peak as f64 / n) as u64);
            w.max("max_retained_per_byte", (y.live as f64 / n) as u64);
        }
    }
    // strings and whitespace: next to nothing but their characters is kept
    if [5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 21, 22, 23].contains(&f) {
        let live = b[0].live as f64;
        if live > 6.0 * t8.len() as f64 + 8192.0 { return Err(format!("the value of {} bytes of {} keeps {} bytes", t8.len(), head, live)); }
    }
    Ok(())
}

/// CPU time of 8 times as much, measured until it is convincing
fn time_scales(w: &mut Wk, f: usize, n: usize) -> Result<(), String> {
    let (t1, t8) = (flat(f, n), flat(f, n * 8));
    let mut worst = String::new();
    for round in 0..4 {
        let (a, b) = (costs(&t1, 5 + round * 4), costs(&t8, 2 + round * 2));
        worst.clear();
        w.count("time_measurements");
        for (x, y) in a.iter().zip(&b) {
            // 8 when linear, 64 when quadratic
            if y.time > 0.004 && y.time > 28.0 * x.time.max(0.00005) { worst = format!("{} of {} bytes of {} takes {:.6} s, of {} bytes {:.6} s", x.name, t1.len(), clip(&t1, 40), x.time, t8.len(), y.time); }
        }
        if worst.is_empty() { w.saw((f as u64) << 32 | n as u64 | 1 << 60); return Ok(()) }
    }
    Err(worst)
}

/// nested texts: the cost of depth
fn deep(f: u64, d: usize, pad: usize) -> String {
    let p = "x".repeat(pad);
    match f {
        0 => format!("{}1{}", "[".repeat(d), "]".repeat(d)),
        1 => format!("{}1{}", "{\"a\":".repeat(d), "}".repeat(d)),
        2 => format!("{}\"{}\"{}", "[".repeat(d), p, "]".repeat(d)),
        3 => format!("{}1{}", format!("[\"{}\",", p).repeat(d), "]".repeat(d)),
        4 => format!("{}1{}", format!("{{\"{}\":1,\"a\":", p).repeat(d), "}".repeat(d)),
        5 => format!("{}1{}", "[0,".repeat(d), ",2]".repeat(d)),
        _ => format!("{}1{}", "{\"a\":0,\"a\":".repeat(d), ",\"b\":1}".repeat(d)),
    }
}
fn depth_scales(w: &mut Wk, i: u64) -> Result<(), String> {
    let f = i % 7;
    let (d, pad) = [(8usize, 0usize), (16, 300), (32, 0), (64, 1000), (100, 10)][(i / 7) as usize % 5];
    let (t1, t2) = (deep(f, d, pad), deep(f, d * 2, pad));
    let ratio = (t2.len() * (2 * d + 1)) as f64 / (t1.len() * (d + 1)) as f64;
    w.saw(i | 1 << 61);
    w.max("max_depth", 2 * d as u64);
    let (a, b) = (costs(&t1, 1), costs(&t2, 1));
    for (x, y) in a.iter().zip(&b) {
        w.count("depth_ratios");
        for (what, p, q) in [("allocated bytes", x.total as f64, y.total as f64), ("peak memory", x.peak as f64, y.peak as f64), ("retained memory", x.live as f64, y.live as f64), ("allocations", x.calls as f64, y.calls as f64)] {
            if q > 2.6 * ratio * p.max(if what == "allocations" { 100.0 } else { 2048.0 }) { return Err(format!("{} of {} levels ({} bytes) needs {} {}, of {} levels ({} bytes) {}", x.name, d, t1.len(), p, what, 2 * d, t2.len(), q)); }
        }
    }
    for c in &b {
        let bound = 400.0 * t2.len() as f64 * (2 * d + 1) as f64 + 65536.0;
        if c.total as f64 > bound { return Err(format!("{} of {} bytes in {} levels allocates {} bytes", c.name, t2.len(), 2 * d, c.total)); }
    }
    Ok(())
}
fn depth_time(w: &mut Wk, i: u64) -> Result<(), String> {
    let f = i % 7;
    let (d, pad) = [(16usize, 20000usize), (30, 20000), (60, 4000)][(i / 7) as usize % 3];
    let (t1, t2) = (deep(f, d, pad), deep(f, d * 4, pad));
    let ratio = (t2.len() * (4 * d + 1)) as f64 / (t1.len() * (d + 1)) as f64;
    let mut worst = String::new();
    for round in 0..4 {
        let (a, b) = (costs(&t1, 5 + round * 4), costs(&t2, 2 + round * 2));
        worst.clear();
        w.count("time_measurements");
        for (x, y) in a.iter().zip(&b) { if y.time > 0.004 && y.time > 3.5 * ratio * x.time.max(0.00005) { worst = format!("{} of {} levels ({} bytes) takes {:.6} s, of {} levels ({} bytes) {:.6} s", x.name, d, t1.len(), x.time, 4 * d, t2.len(), y.time) } }
        if worst.is_empty() { w.saw(i | 1 << 62); return Ok(()) }
    }
    Err(worst)
}

/// looking up does not depend on the size of the document
fn lookup_cost(w: &mut Wk, i: u64) -> Result<(), String> {
    let (p, x) = w.g(|g, _| {
        let n = g.r.range(1, 6);
        let p: Vec<Step> = (0..n).map(|_| if g.r.chance(1, 2) { let k = g.key(); Step::K(if k.ends_with('\\') || k.is_empty() { "k".into() } else { k }) } else { Step::I(g.r.below(4)) }).collect();
        (p, V::Num(1.0))
    });
    let mut small = V::Null;
    small.update(&p, x);
    // the same path, with a lot beside it on every level
    let mut big = small.clone();
    let lots = [500usize, 5_000, 30_000][i as usize % 3] / p.len();
    for n in 0..=p.len() {
        let q = &p[..n];
        match big.find_mut(q).unwrap() {
            V::Obj(m) => { let own = m.clone(); m.clear(); for k in 0..lots { m.push((format!("filler {}", k), V::Str(format!("some text {}", k)))) } let dup = own[0].0.clone(); for k in 0..lots / 4 { m.push((dup.clone(), V::Num(k as f64))) } m.extend(own) }
            V::Arr(a) => for k in 0..lots { a.push(V::Str(format!("some text {}", k))) },
            v => *v = V::Arr((0..lots).map(|k| V::Obj(vec![("a".into(), V::Num(k as f64))])).collect()),
        }
    }
    let (mut js, mut jb) = (small.to_json(), big.to_json());
    w.saw(hash_str(&format!("{:?}", p)) ^ i);
    w.max("max_document_nodes", big.nodes() as u64);
    let s = G::spell(&p);
    let wrong = s.clone() + ".nothere";
    // one step: indexing gives no room for a copy
    macro_rules! same { ($name:expr, $j:ident => $e:expr) => { {
        let (a, ua) = alloc::measure(|| { let $j = &mut js; $e });
        let (b, ub) = alloc::measure(|| { let $j = &mut jb; $e });
        w.count("lookups_measured");
        w.max("max_lookup_bytes", ub.total);
        if ub.total > ua.total + 512 || ub.peak > ua.peak + 512 { return Err(format!("{} of {} allocates {} bytes in a small document and {} in one of {} nodes", $name, json_str(&clip(&s, 100)), ua.total, ub.total, big.nodes())); }
        let _ = (a, b);
        if ub.total > 200 * (s.len() as u64 + 12) + 4096 { return Err(format!("{} of {} allocates {} bytes", $name, json_str(&clip(&s, 100)), ub.total)); }
    } } }
    same!("get", j => j.get(&s).is_ok());
    same!("find", j => j.find(typed(&p)).is_ok());
    same!("find_mut", j => j.find_mut(typed(&p)).is_ok());
    same!("failing get", j => j.get(&wrong).is_err());
    same!("indexing", j => { let x: &Json = match &p[0] { Step::K(k) => &j[k.as_str()], Step::I(i) => &j[*i] }; x as *const Json as usize });
    // time: as many lookups in the big as in the small document
    if i % 8 == 0 {
        let mut worst = String::new();
        for _ in 0..4 {
            let t0 = cpu(); for _ in 0..300 { let _ = js.get(&s).is_ok(); } let a = cpu() - t0;
            let t0 = cpu(); for _ in 0..300 { let _ = jb.get(&s).is_ok(); } let b = cpu() - t0;
            w.count("lookup_times");
            if b > 40.0 * a.max(0.0002) { worst = format!("300 lookups of {} take {:.6} s in a small document and {:.6} s in one of {} nodes", json_str(&clip(&s, 100)), a, b, big.nodes()) } else { worst.clear(); break }
        }
        if !worst.is_empty() { return Err(worst) }
    }
    Ok(())
}

/// operations done n times, or on n things
type Step1 = Box<dyn Fn() -> usize>;
pub const WORK: usize = 25;
fn work(f: usize, n: usize) -> (&'static str, Step1) {
    let obj = move || { let mut j = Json::Object(Default::default()); for i in 0..n { let _ = j.append(i, i); } j };
    let arr = move || Json::Array((0..n).map(|i| Json::Number(i as f64)).collect());
    let dup = move || { let mut j = Json::Object(Default::default()); for i in 0..n { let _ = j.append("k", i); } j };
    match f {
        0 => ("pushing elements", Box::new(move || { let mut j = Json::Array(vec![]); for i in 0..n { let _ = j.push(i); } j._kind().len() })),
        1 => ("appending new keys", Box::new(move || obj()._kind().len())),
        2 => ("appending to one key", Box::new(move || dup()._kind().len())),
        3 => ("inserting new keys", Box::new(move || { let mut j = Json::Object(Default::default()); for i in 0..n { let _ = j.insert(i, "some text"); } j._kind().len() })),
        4 => ("setting one index after the other", Box::new(move || { let mut j = Json::Array(vec![]); for i in 0..n { let _ = j.set(&format!("#{}", i), true); } j._kind().len() })),
        5 => ("updating one key after the other", Box::new(move || { let mut j = Json::Null; for i in 0..n { let _ = j.update(&i.to_string(), i); } j._kind().len() })),
        6 => { let j = dup(); ("reading all values of a key", Box::new(move || j.index_and_merge("k").map_or(0, |v| v.len()))) }
        7 => { let j = arr(); ("replacing every element", Box::new(move || { let mut j = j.clone(); for i in 0..n { let _ = j.replace(i, "x"); } j._kind().len() })) }
        8 => { let p = vec!["a"; n / 4 + 1].join("."); ("a path of steps", Box::new(move || Json::Null.get(&p).is_err() as usize)) }
        9 => { let p = vec!["#1"; n / 4 + 1].join("."); ("a path of indices", Box::new(move || Json::Null.get(&p).is_err() as usize)) }
        10 => { let p = "k\\.".repeat(n); ("a path of one long key", Box::new(move || Json::Null.get(&p).is_err() as usize)) }
        11 => { let p = format!("#{}1", "0".repeat(n)); ("a path of one long index", Box::new(move || Json::Null.get(&p).is_err() as usize)) }
        12 => { let v: Vec<f64> = (0..n).map(|i| i as f64).collect(); ("encoding a vector", Box::new(move || json::encode(&v).len())) }
        13 => { let v: Vec<(String, u32)> = (0..n).map(|i| (i.to_string(), 1)).collect(); ("encoding pairs", Box::new(move || json::encode(&v).len())) }
        14 => { let v: Vec<(String, u32)> = (0..n).map(|_| ("k".to_string(), 1)).collect(); ("encoding pairs of one key", Box::new(move || json::encode(&v).len())) }
        15 => { let v: std::collections::HashMap<usize, Option<bool>> = (0..n).map(|i| (i, Some(true))).collect(); ("encoding a map", Box::new(move || json::encode(&v).len())) }
        16 => { let j = arr(); ("decoding a vector", Box::new(move || j.convert::<Vec<f64>>().map_or(0, |v| v.len()))) }
        17 => { let j = obj(); ("decoding pairs", Box::new(move || j.convert::<Vec<(String, u32)>>().map_or(0, |v| v.len()))) }
        18 => { let j = dup(); ("decoding pairs of one key", Box::new(move || j.convert::<Vec<(String, u32)>>().map_or(0, |v| v.len()))) }
        19 => { let j = obj(); ("decoding a map", Box::new(move || j.convert::<std::collections::HashMap<u64, f32>>().map_or(0, |v| v.len()))) }
        20 => { let j = obj(); ("deleting every key", Box::new(move || { let mut j = j.clone(); for i in 0..n { let _ = j.delete(&i.to_string()); } j._kind().len() })) }
        21 => { let j = arr(); ("removing the last element", Box::new(move || { let mut j = j.clone(); for i in 0..n { let _ = j.discard(n - 1 - i); } j._kind().len() })) }
        22 => { let t = arr().to_string(); ("changing a text", Box::new(move || json::set(&t, "#1", 7).map_or(0, |t| t.len()) + json::del(&t, "#1").map_or(0, |t| t.len()) + json::get::<f64>(&t, "#1").is_ok() as usize)) }
        23 => { let j = obj(); let k = "key".repeat(n); ("a failing lookup of a long key", Box::new(move || j.get(&k).is_err() as usize + j.index_and_merge(&k).is_err() as usize)) }
        _ => { let s: String = "aé\n".repeat(n); ("converting a string", Box::new(move || json::ToJson::to_json(&s).convert::<String>().map_or(0, |s| s.len()))) }
    }
}
fn work_scales(w: &mut Wk, f: usize, n: usize) -> Result<(), String> {
    let ((name, a), (_, b)) = (work(f, n), work(f, n * 8));
    // once before, for what is allocated only once
    a();
    let (_, x) = alloc::measure(|| a());
    let (_, y) = alloc::measure(|| b());
    w.saw((f as u64) << 32 | n as u64 | 1 << 59);
    w.count("operation_ratios");
    for (what, p, q, min) in [("allocated bytes", x.total as f64, y.total as f64, 4096.0), ("peak memory", x.peak as f64, y.peak as f64, 4096.0), ("allocations", x.calls as f64, y.calls as f64, 100.0)] {
        if q > 2.6 * 8.0 * p.max(min) { return Err(format!("{} {} times needs {} {}, {} times {}", name, n, p, what, n * 8, q)); }
    }
    if y.live > 0 { return Err(format!("{} {} times leaves {} bytes", name, n * 8, y.live)); }
    Ok(())
}
fn work_time(w: &mut Wk, f: usize, n: usize) -> Result<(), String> {
    let ((name, a), (_, b)) = (work(f, n), work(f, n * 8));
    let time = |f: &Step1, k: usize| (0..k).map(|_| { let t0 = cpu(); f(); cpu() - t0 }).fold(f64::MAX, f64::min);
    let mut worst = String::new();
    for round in 0..4 {
        let (x, y) = (time(&a, 5 + round * 4), time(&b, 2 + round * 2));
        w.count("time_measurements");
        if !(y > 0.004 && y > 28.0 * x.max(0.00005)) { w.saw((f as u64) << 32 | n as u64 | 1 << 58); return Ok(()) }
        worst = format!("{} {} times takes {:.6} s, {} times {:.6} s", name, n, x, n * 8, y);
    }
    Err(worst)
}

pub fn c18(ctx: &Ctx) -> Vec<Stream> {
    let one = |mut s: Stream| { s.chunk = 1; s };
    let sizes: &'static [usize] = match ctx.tier { Tier::Mini => &[200], Tier::Quick => &[1_000, 10_000, 60_000], Tier::Thorough => &[500, 1_000, 3_000, 10_000, 33_000, 100_000, 250_000] };
    let tsizes: &'static [usize] = match ctx.tier { Tier::Mini => &[], Tier::Quick => &[20_000], Tier::Thorough => &[10_000, 40_000, 150_000] };
    let osizes: &'static [usize] = match ctx.tier { Tier::Mini => &[20], Tier::Quick => &[60, 400, 3_000], Tier::Thorough => &[60, 200, 700, 2_500, 8_000, 20_000] };
    let otimes: &'static [usize] = match ctx.tier { Tier::Mini => &[], Tier::Quick => &[3_000], Tier::Thorough => &[2_000, 6_000, 20_000] };
    vec![
        one(exhaustive("flat-memory", (FLAT * sizes.len()) as u64, move |w, i| scales(w, i as usize % FLAT, sizes[i as usize / FLAT]))),
        one(exhaustive("flat-time", (FLAT * tsizes.len()) as u64, move |w, i| time_scales(w, i as usize % FLAT, tsizes[i as usize / FLAT]))),
        one(exhaustive("operations-memory", (WORK * osizes.len()) as u64, move |w, i| work_scales(w, i as usize % WORK, osizes[i as usize / WORK]))),
        one(exhaustive("operations-time", (WORK * otimes.len()) as u64, move |w, i| work_time(w, i as usize % WORK, otimes[i as usize / WORK]))),
        one(exhaustive("depth-memory", ctx.n(7, 35, 35), depth_scales)),
        one(exhaustive("depth-time", ctx.n(0, 21, 21), depth_time)),
        one(stream("lookup", ctx.n(2, 400, 8_000), lookup_cost)),
        stream("retained", ctx.n(10, 40_000, 1_000_000), |w, _| {
            // any document: what the value keeps is in proportion to the text
            let t = w.g(|g, _| { let v = g.doc(); g.render(&v) });
            let (r, u) = alloc::measure(|| Json::parse(&t));
            w.saw_str(&t);
            let d = match &r { Ok(j) => V::of(j).depth(), Err(_) => return Ok(()) };
            drop(r);
            if u.live as f64 > 300.0 * t.len() as f64 + 8192.0 { return Err(format!("the value of {} ({} bytes) keeps {} bytes", json_str(&clip(&t, 200)), t.len(), u.live)); }
            if u.total as f64 > 600.0 * (t.len() * (d + 1)) as f64 + 65536.0 { return Err(format!("parsing {} ({} bytes) allocates {} bytes", json_str(&clip(&t, 200)), t.len(), u.total)); }
            w.max("max_retained_per_byte_x10", (u.live * 10 / t.len().max(1) as i64) as u64);
            Ok(())
        }),
    ]
}

// ---- C19 ----

struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> { fn get(&self) -> &T { &self.0 } }

fn said(a: &Act) -> String { match call(|| perform(a)) { Ok(s) => s, Err(e) => e } }

fn history(w: &mut Wk, _: u64) -> Result<(), String> {
    let n = w.rng.range(2, 12);
    let acts: Vec<Act> = w.g(|g, _| {
        let mut v: Vec<Act> = (0..n).map(|_| any_act(g)).collect();
        // relatives: the same text again, a little different, cut off
        for i in 0..n / 2 { if let Act::Parse(t) = &v[i] { let t = t.clone(); let u = g.mutate(&t); v.push(Act::Parse(u)); v.push(Act::Decode(g.r.below(TYPES), t)) } }
        v
    });
    let first: Vec<String> = acts.iter().map(said).collect();
    let mut order: Vec<usize> = (0..acts.len()).collect();
    for round in 0..3 {
        w.rng.shuffle(&mut order);
        for (k, &i) in order.iter().enumerate() {
            if round > 0 && w.rng.chance(1, 4) { // failing and panicking calls in between
                let _ = call(|| { let _ = Json::parse("[1, {\"a\": \"unfinished"); let _ = json::get::<u8>("{\"a\": [tru", "a.#x"); let _ = Json::Null["x"].clone(); });
            }
            let again = said(&acts[i]);
            w.count("repeated_calls");
            if again != first[i] { return Err(format!("{} gives {} and later, as call {} of round {}, {}", brief(&acts[i]), clip(&first[i], 200), k, round, clip(&again, 200))); }
        }
    }
    for a in &acts { w.saw_str(&format!("{:?}", a)) }
    w.sample(|| brief(&acts[0]));
    Ok(())
}

/// the same calls on fresh threads, and many at once
fn threads(w: &mut Wk, _: u64) -> Result<(), String> {
    let n = w.rng.range(4, 40);
    let acts: Vec<Act> = w.g(|g, _| (0..n).map(|_| any_act(g)).collect());
    // what a new thread says, one call each time
    let first: Vec<String> = std::thread::scope(|sc| { acts.iter().map(|a| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || said(a)).unwrap().join().unwrap()).collect() });
    let seeds: Vec<u64> = (0..6).map(|_| w.rng.next()).collect();
    let bad = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().map(|s| { let (acts, first) = (&acts, &first); std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
            let mut r = Rng::new(*s);
            for _ in 0..acts.len() * 2 {
                let i = r.below(acts.len());
                let again = said(&acts[i]);
                if again != first[i] { return Some(format!("{} gives {} alone and {} among other threads", brief(&acts[i]), clip(&first[i], 200), clip(&again, 200))) }
            }
            None
        }).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).find_map(|x| x)
    });
    w.count_n("calls_on_concurrent_threads", 12 * n as u64);
    for a in &acts { w.saw_str(&format!("{:?}", a)) }
    match bad { Some(e) => Err(e), None => Ok(()) }
}

/// one value read by several threads, moved to another, changed apart from its clone
fn shared(w: &mut Wk, _: u64) -> Result<(), String> {
    let (v, ps) = w.g(|g, _| { let v = g.doc(); let ps: Vec<Vec<Step>> = (0..6).map(|_| g.path(&v)).collect(); (v, ps) });
    let j = if w.rng.chance(1, 2) { v.to_json() } else { match Json::parse(&v.nulled().to_json().to_string()) { Ok(j) => j, Err(_) => v.to_json() } };
    let base = show_canon(&j);
    let look = |j: &Json| -> Vec<String> {
        let mut o = vec![j.to_string(), show_canon(&j.clone()), format!("{}", *j == *j || base.contains("Num"))];
        for p in &ps { o.push(match j.find(typed(p)) { Ok(x) => show_canon(x), Err(e) => show_err(&e) }) }
        o
    };
    let want = look(&j);
    let sh = Shared(&j);
    let bad = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..5).map(|_| { let (sh, look, want) = (Shared(sh.get()), Shared(&look), &want); std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || { let (sh, look) = (&sh, &look); (0..3).all(|_| (look.get())(sh.get()) == *want) }).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).any(|ok| !ok)
    });
    w.count("values_shared");
    w.saw_str(&base);
    if bad { return Err(format!("{} reads differently from several threads", clip(&base, 300))); }
    if show_canon(&j) != base { return Err(format!("{} was changed by reading it", clip(&base, 300))); }
    // moved, changed there; the clone stays
    let c = j.clone();
    let es: Vec<Edit> = w.g(|g, _| (0..5).map(|_| match g.r.below(5) { 0 => Edit::Update(g.path(&v).into_iter().filter(|s| !matches!(s, Step::I(i) if *i > 3000)).chain(Some(Step::I(0))).collect(), V::Bool(true)), 1 => Edit::Append(g.key(), V::Null), 2 => Edit::Discard(g.path(&v)), 3 => Edit::Push(V::Null), _ => Edit::Write(g.path(&v), V::Str("w".into())) }).collect());
    let mv = Shared(j);
    std::thread::scope(|sc| { std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || { let mv = mv; let Shared(mut j) = mv; for e in &es { let _ = call(|| match e {
        Edit::Update(p, x) => { let _ = j.update(typed(p), x.to_json()); }
        Edit::Append(k, x) => { let _ = j.append(k, x.to_json()); }
        Edit::Discard(p) => { let _ = j.discard(typed(p)); }
        Edit::Push(x) => { let _ = j.push(x.to_json()); }
        Edit::Write(p, x) => { if let Ok(r) = j.find_mut(typed(p)) { *r = x.to_json() } }
        _ => (),
    }); } }).unwrap().join().unwrap() });
    if show_canon(&c) != base { return Err(format!("changing a value changed its clone {}", clip(&base, 300))); }
    if look(&c) != want { return Err(format!("a clone reads differently after its original was changed: {}", clip(&base, 300))); }
    Ok(())
}

/// two values made from the same text, and values that know each other only by sight
fn separate(w: &mut Wk, _: u64) -> Result<(), String> {
    let (v, es) = w.g(|g, _| { let v = g.doc_sized(60); let n = g.r.range(1, 6); let es: Vec<Act> = (0..n).map(|_| any_act(g)).collect(); (v, es) });
    let t = v.nulled().to_json().to_string();
    let (mut a, b) = match (call(|| Json::parse(&t))?, call(|| Json::parse(&t))?) { (Ok(a), Ok(b)) => (a, b), _ => { w.trivial(); return Ok(()) } };
    let sb = show_canon(&b);
    w.saw_str(&t);
    if show_canon(&a) != sb { return Err(format!("the text {} parsed twice gives {} and {}", clip(&t, 200), show_canon(&a), sb)); }
    for e in &es { let _ = said(e); }
    let p = w.g(|g, _| g.path(&v));
    if !p.iter().any(|s| matches!(s, Step::I(i) if *i > 3000)) { let _ = call(|| a.update(typed(&p), "changed").is_ok()); }
    let _ = call(|| { let _ = a.append("k", 1); let _ = a.push(2); a.discard(typed(&p)).is_ok() });
    if show_canon(&b) != sb { return Err(format!("changing one value changed another of the same text, {}", clip(&t, 200))); }
    let c = match call(|| Json::parse(&t))? { Ok(c) => show_canon(&c), Err(e) => show_err(&e) };
    w.count("parsed_again");
    if c != sb { return Err(format!("the text {} gave {} first and {} after other calls", clip(&t, 200), clip(&sb, 200), clip(&c, 200))); }
    drop(a);
    if show_canon(&b) != sb { return Err(format!("dropping one value changed another of the same text, {}", clip(&t, 200))); }
    Ok(())
}

/// a crowd of threads, more than there are processors, that all do the same large thing: many of them are inside of it at any moment
fn crowd(w: &mut Wk, i: u64) -> Result<(), String> {
    let n = w.rng.range(4, 120);
    let (v, k) = w.g(|g, _| {
        let x = |g: &mut G, i: usize| if i % 5 == 0 { let mut b = 4; g.value(2, &mut b).nulled() } else { V::Num(i as f64) };
        let v = match i % 3 { 0 => V::Obj((0..n).map(|i| (format!("k{}", if i % 4 == 0 { i / 4 } else { i }), x(g, i))).collect()), 1 => V::Arr((0..n).map(|i| x(g, i)).collect()), _ => V::Arr((0..n / 4 + 1).map(|i| V::Obj((0..6).map(|k| (g.key(), x(g, i + k))).collect())).collect()) };
        (v, g.key())
    });
    let j = v.to_json();
    let t = call(|| j.to_string())?;
    let path = match i % 3 { 0 => "k1".to_string(), 1 => format!("#{}", n - 1), _ => format!("#{}.{}", n / 4, "x") };
    let pairs: Vec<(String, i32)> = (0..n).map(|i| (format!("k{}", i), i as i32)).collect();
    let what = ["parse", "encode", "set", "set in a text", "collections", "del", "clone and compare", "paths", "strings", "add and remove"];
    let s: String = w.g(|g, _| (0..n).map(|_| g.ch()).collect());
    let kind = (i / 3) as usize % what.len();
    let act = || -> String {
        match kind {
            0 => Json::parse(&t).map(|j| show_canon(&j)).unwrap_or_else(|e| show_err(&e)),
            1 => j.to_string(),
            2 => { let mut c = j.clone(); let r = c.set(&path, 5).map(|x| show_canon(x)).unwrap_or_else(|e| show_err(&e)); r + &show_canon(&c) }
            3 => json::set(&t, &path, "x").unwrap_or_else(|e| show_err(&e)) + &json::get::<Json>(&t, &path).map(|j| show_canon(&j)).unwrap_or_else(|e| show_err(&e)) + &json::del(&t, &path).unwrap_or_else(|e| show_err(&e)),
            4 => { let e = json::encode(&pairs); let h: Result<std::collections::HashMap<String, i32>, _> = json::decode(&e); let mut b: Vec<(String, i32)> = h.map(|h| h.into_iter().collect()).unwrap_or_default(); b.sort(); let c: Vec<(String, u8)> = json::decode(&e).unwrap_or_default(); format!("{} {:?} {}", e, b, c.len()) }
            5 => { let mut c = j.clone(); let r = c.del(&path).map(|x| show_canon(&x)).unwrap_or_else(|e| show_err(&e)); r + &show_canon(&c) }
            6 => { let c = j.clone(); format!("{} {}", c == j, show_canon(&c)) }
            7 => { let mut o = String::new(); for p in [&path[..], "k2", "#0", "#1.a.b", "a\\.b", "#"] { o += &j.get(p).map(|x| show_canon(x)).unwrap_or_else(|e| show_err(&e)); } o }
            8 => { let e = json::encode(&s); let d: Result<String, _> = json::decode(&e); format!("{} {:?}", e, d.ok()) }
            _ => { let mut c = json::object! {}; for (x, y) in &pairs { let _ = c.append(x, *y); } let _ = c.insert(k.clone(), 1); let _ = c.delete("k1"); let m = c.index_and_merge("k2").map(|x| x.len()).unwrap_or(99); let mut a = json::array![]; for (_, y) in &pairs { let _ = a.push(*y); } let _ = a.remove(0); let _ = a.replace(1, "x"); show_canon(&c) + &show_canon(&a) + &m.to_string() }
        }
    };
    let want = call(&act)?;
    let rounds = (3_000_000 / (want.len() + t.len() + 2_000)).clamp(10, if w.ctx.tier == Tier::Mini { 10 } else { 400 });
    let gate = std::sync::Barrier::new(24);
    let (act, wn, gate) = (Shared(&act), &want, &gate);
    let bad = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..24).map(|_| { let act = Shared(act.get()); std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
            let act = &act;
            gate.wait();
            for _ in 0..rounds { match call(|| (act.get())()) { Ok(x) if x == *wn => (), Ok(x) => return Some(x), Err(e) => return Some(e) } }
            None
        }).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).find_map(|x| x)
    });
    w.count_n("calls_in_a_crowd", 24 * rounds as u64);
    w.saw_str(&want);
    match bad { Some(x) => Err(format!("{} gives {} alone and {} in a crowd of threads, for {}", what[kind], clip(&want, 200), clip(&x, 200), clip(&t, 200))), None => Ok(()) }
}

/// one call very often
fn often(w: &mut Wk, _: u64) -> Result<(), String> {
    let a = w.g(|g, _| loop { let a = any_act(g); if format!("{:?}", a).len() < 400 { break a } });
    let first = said(&a);
    let n = match w.ctx.tier { Tier::Mini => 5, _ => 1500 };
    for k in 0..n {
        let again = said(&a);
        if again != first { return Err(format!("{} gives {} and, {} calls later, {}", brief(&a), clip(&first, 200), k + 1, clip(&again, 200))); }
    }
    w.count_n("repeated_calls", n);
    w.saw_str(&format!("{:?}", a));
    Ok(())
}

pub fn c19(ctx: &Ctx) -> Vec<Stream> {
    vec![
        stream("histories", ctx.n(2_000, 20_000, 600_000), history),
        stream("threads", ctx.n(400, 1_200, 30_000), threads),
        stream("shared-values", ctx.n(800, 6_000, 150_000), shared),
        stream("separate-values", ctx.n(2_000, 40_000, 1_000_000), separate),
        stream("crowds", ctx.n(30, 90, 3_000), crowd),
        stream("often", ctx.n(40, 400, 6_000), often),
    ]
}

/// digests of n calls, performed in some order, for comparison between processes
pub fn digests(ctx: &Ctx, n: u64, order: &str) -> Vec<u64> {
    let mut idx: Vec<u64> = (0..n).collect();
    match order { "reverse" => idx.reverse(), "shuffle" => Rng::new(std::process::id() as u64).shuffle(&mut idx), "odd-first" => idx.sort_by_key(|i| (i + 1) % 2), _ => () }
    let mut out = vec![0; n as usize];
    for i in idx {
        let mut r = Rng::new(ctx.seed ^ (i << 20));
        let a = any_act(&mut G::new(&mut r, &ctx.dict));
        out[i as usize] = hash_str(&said(&a));
    }
    out
}

/// small cases for the slow instruments
pub fn corpus(ctx: &Ctx, n: u64, out: &str) {
    let mut b: Vec<u8> = Vec::new();
    for i in 0..n {
        let mut r = Rng::new(ctx.seed ^ (i << 22) ^ 0x6d696e69);
        let g = &mut G::new(&mut r, &ctx.dict);
        let v = loop { let v = if g.r.chance(1, 3) { let mut b = 6; g.container(2, &mut b) } else { g.doc_sized(10) }; if v.nodes() < 40 { break v } };
        let t = match g.r.below(12) { 0 => any_text(g), 1..=3 => { let t = g.render(&v); g.mutate(&t) }, 4 => format!("[{}]", g.number_text()), _ => g.render(&v) };
        let t: String = t.chars().take(400).collect();
        let p = loop { let p = any_path_string(g, &v); if tame(&p) && p.len() < 100 { break p } };
        let u = { let mut b = 4; let x = g.value(2, &mut b); g.render(&x) };
        for x in [&t, &p, &u] { b.extend_from_slice(&(x.len() as u32).to_le_bytes()) }
        for x in [&t, &p, &u] { b.extend_from_slice(x.as_bytes()) }
    }
    std::fs::write(out, b).unwrap();
}

// ---- C20 ----

pub fn balanced<T>(w: &mut Wk, what: impl Fn() -> String, f: impl Fn() -> T) -> Result<(), String> {
    w.count("balances_checked");
    let mut left = 0;
    // what is only kept the first time (a table built once) is no leak
    for _ in 0..3 {
        let before = alloc::live();
        let r = call(&f);
        let panicked = r.is_err();
        drop(r);
        left = alloc::live() - before;
        // a panic leaves its message behind in the monitor; panics are for another property
        if left == 0 || panicked { return Ok(()) }
    }
    Err(format!("{}: {} bytes are not released, each time again", what(), left))
}
fn utf8(s: &str, what: &str) { if let Err(e) = std::str::from_utf8(s.as_bytes()) { INVALID.with(|x| *x.borrow_mut() = Some(format!("{} is not UTF-8: {}", what, e))) } }
thread_local! { static INVALID: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
fn strings(j: &Json) {
    match j {
        Json::String(s) => utf8(s, "a string"),
        Json::Array(a) => a.iter().for_each(strings),
        Json::Object(h) => for (k, (x, l)) in h { utf8(k, "a key"); strings(x); l.iter().for_each(strings) },
        _ => (),
    }
}
fn valid(what: impl Fn() -> String) -> Result<(), String> { match INVALID.with(|x| x.borrow_mut().take()) { Some(e) => Err(format!("{}: {}", what(), clip(&e, 300))), None => Ok(()) } }

fn memory_text(w: &mut Wk, t: &str) -> Result<(), String> {
    w.saw_str(t);
    let what = || format!("parse, encode and drop {}", json_str(&clip(t, 300)));
    balanced(w, what, || {
        match Json::parse(t) {
            Ok(j) => { strings(&j); let s = j.to_string(); utf8(&s, "an encoded text"); let c = j.clone(); drop(j); strings(&c); s.len() }
            Err(e) => { let s = e.to_string(); utf8(&s, "the text of an error"); utf8(&e.msg, "a message"); s.len() }
        }
    })?;
    valid(what)
}

fn memory_act(w: &mut Wk, a: &Act) -> Result<(), String> {
    w.saw_str(&format!("{:?}", a));
    let panics = matches!(a, Act::IndexPanic(..));
    if panics { let _ = said(a); } // the panic machinery keeps its message
    let what = || brief(a);
    if !panics { balanced(w, what, || { let s = perform(a); utf8(&s, "a result"); s.len() })?; } else { let _ = said(a); }
    w.sample(|| brief(a));
    valid(what)
}

pub fn c20(ctx: &Ctx) -> Vec<Stream> {
    let mut l = text::load(ctx);
    if ctx.tier != Tier::Mini { l.tokens = 4; l.numbers = 4; l.strings = 4; l.docs /= 2; l.mutants /= 2; l.prefixes /= 2; l.sized_cap = 70_000 }
    l.deep = text::SHALLOW; // the frames of an instrumented build are larger
    let mut s = text::text_streams(ctx, l, memory_text);
    if ctx.tier == Tier::Mini { s.retain(|x| ["documents", "number-tokens", "broken-documents", "soup"].contains(&x.name)); for x in s.iter_mut() { x.n = 40_000 } }
    s.push(stream("any-call", ctx.n(80_000, 150_000, 4_000_000), |w, _| { let a = w.g(|g, _| any_act(g)); memory_act(w, &a) }));
    s.push(stream("edited-values", ctx.n(20_000, 40_000, 1_000_000), |w, _| {
        // a value that lives through many edits; all its strings are looked at after each
        let (v, es) = w.g(|g, _| { let v = g.doc(); let es: Vec<Edit> = (0..10).map(|_| match any_act(g) { Act::Edits(_, e) => e[0].clone(), _ => Edit::Append(g.key(), V::Str(g.string(40))) }).collect(); (v, es) });
        let a = Act::Edits(v.clone(), es);
        memory_act(w, &a)?;
        let what = || format!("construct and drop {}", brief(&a));
        balanced(w, what, || { let j = v.to_json(); let k = j.to_json(); strings(&k); let x: Result<Json, _> = j.convert(); drop(j); x.map(|x| x.to_string().len()).unwrap_or(0) })?;
        valid(what)
    }));
    s.push(stream("conversions", ctx.n(20_000, 60_000, 1_000_000), |w, _| {
        let (n, v) = w.g(|g, _| { let n = g.r.below(TYPES); (n, g.doc_sized(40)) });
        // failing half way leaves parts behind that have to be released
        memory_act(w, &Act::Convert(n, v))
    }));
    let tm: &'static [(&'static str, crate::typed::TypeFn)] = crate::typed::memory_types();
    s.push(stream("typed-values", ctx.n(5_000, 30_000, 1_000_000), move |w, i| { let (n, f) = tm[i as usize % tm.len()]; f(w, n) }));
    s.push(exhaustive("every-escape", if ctx.tier == Tier::Mini { 40_000 } else { 0x10000 }, |w, i| {
        memory_text(w, &format!("\"\\u{:04X}\"", i))?;
        memory_text(w, &format!("\"\\u{:04x}\\u{:04x}\"", i, (i * 40503) & 0xffff))?;
        memory_text(w, &format!("\"\\ud83d\\u{:04x}x\"", i))
    }));
    s
}
