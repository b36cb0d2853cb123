//! Monitors of typed encoding and decoding: C06 (round trip), C07 (decoding rules).
use crate::fw::*;
use crate::gen::G;
use crate::model::*;
use crate::rng::hash_str;
use json::{FromJson, Json, ToJson};
use std::collections::HashMap;
use std::hash::Hash;
use std::str::FromStr;

/// a supported type, with the reference for what it encodes to and decodes from
pub trait Ref: ToJson + FromJson + Sized + Clone {
    fn gen(g: &mut G, depth: usize) -> Self;
    fn same(&self, o: &Self) -> bool;
    fn v(&self) -> V;
    /// what a value converts to; None: ConvertError
    fn expect(v: &V) -> Option<Self>;
    /// a value that is likely to convert, but not always
    fn near(g: &mut G, depth: usize) -> V { if g.r.chance(1, 12) { let mut b = 5; g.value(2, &mut b) } else { Self::gen(g, depth).v() } }
}

macro_rules! int_ref { ($($t:ident $exact:expr),*) => { $(
    impl Ref for $t {
        fn gen(g: &mut G, _: usize) -> $t {
            let lim: i128 = if $exact { i128::MAX } else { 1 << 53 };
            let lo = ($t::MIN as i128).max(-lim);
            let hi = if $t::MAX as u128 > lim as u128 { lim } else { $t::MAX as i128 };
            let x: i128 = match g.r.below(8) {
                0 => lo, 1 => hi, 2 => lo + g.r.below(4) as i128, 3 => hi - g.r.below(4) as i128,
                4 => g.r.below(100) as i128,
                5 => -(g.r.below(100) as i128),
                6 => { let k = g.r.below(64); (g.r.next() >> k) as i128 }
                _ => { let k = g.r.below(63); -((g.r.next() >> k >> 1) as i128) }
            };
            x.clamp(lo, hi) as $t
        }
        fn same(&self, o: &$t) -> bool { self == o }
        fn v(&self) -> V { V::Num(*self as f64) }
        fn expect(v: &V) -> Option<$t> { match v { V::Num(f) => Some(cast::<$t>(*f, $t::MIN as f64, $t::MAX as f64, $t::MIN, $t::MAX, |x| x as $t)), _ => None } }
        fn near(g: &mut G, _: usize) -> V {
            match g.r.below(8) {
                0 => { let mut b = 4; g.value(1, &mut b) }
                1 => V::Num(g.any_num()),
                2 => V::Num($t::MAX as f64 + (g.r.below(5) as f64 - 2.0) * *g.r.pick(&[0.25, 1.0, 2048.0])),
                3 => V::Num($t::MIN as f64 + (g.r.below(5) as f64 - 2.0) * *g.r.pick(&[0.25, 1.0, 2048.0])),
                4 => V::Num(g.r.below(2000) as f64 / 8.0 - 125.0),
                5 => V::Num(*g.r.pick(&[0.9999999999999999, -0.9999999999999999, 0.5, -0.5, 1e300, -1e300, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 254.99999999999997, 255.5])),
                _ => Self::gen(g, 0).v(),
            }
        }
    }
)* } }
/// drops the fraction, saturates at the bounds, NaN is 0 (computed here without relying on the cast of out-of-range values)
fn cast<T: Copy>(f: f64, lo: f64, hi: f64, min: T, max: T, conv: impl Fn(f64) -> T) -> T {
    if f.is_nan() { return conv(0.0) }
    let t = f.trunc();
    if t <= lo { return min }
    if t >= hi { return max }
    conv(t)
}
int_ref!(u8 true, i8 true, u16 true, i16 true, u32 true, i32 true, u64 false, i64 false, u128 false, i128 false, usize false, isize false);

impl Ref for f64 {
    fn gen(g: &mut G, _: usize) -> f64 { g.num() }
    fn same(&self, o: &f64) -> bool { num_same(*self, *o) }
    fn v(&self) -> V { V::Num(*self) }
    fn expect(v: &V) -> Option<f64> { match v { V::Num(f) => Some(*f), _ => None } }
}
impl Ref for f32 {
    fn gen(g: &mut G, _: usize) -> f32 {
        let f = match g.r.below(3) { 0 => f32::from_bits(g.r.next() as u32), 1 => g.num() as f32, _ => *g.r.pick(&[0.1f32, f32::MAX, f32::MIN_POSITIVE, 1e-45, -0.0, 16777217.0, 3.4028233e38]) };
        if f.is_finite() { f } else { 1.5 }
    }
    fn same(&self, o: &f32) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
    fn v(&self) -> V { V::Num(*self as f64) }
    fn expect(v: &V) -> Option<f32> { match v { V::Num(f) => Some(*f as f32), _ => None } }
    fn near(g: &mut G, _: usize) -> V { if g.r.chance(1, 10) { let mut b = 4; g.value(1, &mut b) } else { V::Num(g.any_num()) } }
}
impl Ref for bool {
    fn gen(g: &mut G, _: usize) -> bool { g.r.chance(1, 2) }
    fn same(&self, o: &bool) -> bool { self == o }
    fn v(&self) -> V { V::Bool(*self) }
    fn expect(v: &V) -> Option<bool> { match v { V::Bool(b) => Some(*b), _ => None } }
    fn near(g: &mut G, _: usize) -> V { match g.r.below(8) { 0 => V::Num(1.0), 1 => V::Str("true".into()), 2 => V::Num(0.0), 3 => { let mut b = 3; g.value(1, &mut b) } _ => V::Bool(g.r.chance(1, 2)) } }
}
impl Ref for String {
    fn gen(g: &mut G, _: usize) -> String { g.string(80) }
    fn same(&self, o: &String) -> bool { self == o }
    fn v(&self) -> V { V::Str(self.clone()) }
    fn expect(v: &V) -> Option<String> { match v { V::Str(s) => Some(s.clone()), _ => None } }
}
impl Ref for Json {
    fn gen(g: &mut G, depth: usize) -> Json { loop { let mut b = 8; let v = g.value(depth.min(2), &mut b); if !matches!(v, V::Null) { return v.to_json() } } }
    fn same(&self, o: &Json) -> bool { V::of(self).eq(&V::of(o)) }
    fn v(&self) -> V { V::of(self) }
    fn expect(v: &V) -> Option<Json> { Some(v.to_json()) }
}
impl<T: Ref> Ref for Option<T> {
    fn gen(g: &mut G, d: usize) -> Option<T> { if g.r.chance(1, 3) { None } else { Some(T::gen(g, d)) } }
    fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } }
    fn v(&self) -> V { self.as_ref().map_or(V::Null, |x| x.v()) }
    fn expect(v: &V) -> Option<Self> { if let V::Null = v { Some(None) } else { T::expect(v).map(Some) } }
    fn near(g: &mut G, d: usize) -> V { if g.r.chance(1, 4) { V::Null } else { T::near(g, d) } }
}
impl<T: Ref> Ref for Vec<T> {
    fn gen(g: &mut G, d: usize) -> Self { let n = len(g, d); (0..n).map(|_| T::gen(g, d + 1)).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn v(&self) -> V { V::Arr(self.iter().map(|x| x.v()).collect()) }
    fn expect(v: &V) -> Option<Self> { match v { V::Arr(a) => a.iter().map(T::expect).collect(), _ => None } }
    fn near(g: &mut G, d: usize) -> V {
        if g.r.chance(1, 12) { let mut b = 5; return g.value(2, &mut b) }
        let n = len(g, d);
        let clean = g.r.chance(2, 3);
        let bad = if n == 0 { 0 } else { g.r.below(n) };
        V::Arr((0..n).map(|i| if clean && i != bad { T::gen(g, d + 1).v() } else { T::near(g, d + 1) }).collect())
    }
}
fn len(g: &mut G, d: usize) -> usize { g.size(match d { 0 => 400, 1 => 12, _ => 4 }) }

pub trait Key: ToString + FromStr + Hash + Eq + Clone { fn key(g: &mut G) -> Self; }
impl Key for String { fn key(g: &mut G) -> String { g.key() } }
impl Key for i32 { fn key(g: &mut G) -> i32 { if g.r.chance(1, 2) { g.r.below(5) as i32 - 2 } else { g.r.next() as i32 } } }
impl Key for u64 { fn key(g: &mut G) -> u64 { if g.r.chance(1, 2) { g.r.below(5) as u64 } else { g.r.next() } } }
impl Key for char { fn key(g: &mut G) -> char { g.ch() } }
impl Key for bool { fn key(g: &mut G) -> bool { g.r.chance(1, 2) } }

fn pairs_v<K: Key, T: Ref>(g: &mut G, d: usize) -> V {
    if g.r.chance(1, 12) { let mut b = 5; return g.value(2, &mut b) }
    let n = len(g, d);
    let dup = g.r.chance(1, 3);
    let bad = if n == 0 { 0 } else { g.r.below(n) };
    let clean = g.r.chance(2, 3);
    let k0 = K::key(g).to_string();
    V::Obj((0..n).map(|i| (if dup && g.r.chance(1, 2) { k0.clone() } else if g.r.chance(1, 40) { g.string(4) } else { K::key(g).to_string() },
                           if clean && i != bad { T::gen(g, d + 1).v() } else { T::near(g, d + 1) })).collect())
}
/// does every textual key convert, and do different texts give different keys?
fn keys<K: Key>(m: &[(String, V)]) -> Option<HashMap<String, K>> {
    let mut h = HashMap::new();
    for (k, _) in m { h.insert(k.clone(), K::from_str(k).ok()?); }
    Some(h)
}
pub fn ambiguous<K: Key>(v: &V) -> bool {
    if let V::Obj(m) = v {
        let mut h: HashMap<K, &String> = HashMap::new();
        for (k, _) in m { if let Ok(x) = K::from_str(k) { if let Some(o) = h.insert(x, k) { if o != k { return true } } } }
    }
    false
}

impl<K: Key, T: Ref> Ref for Vec<(K, T)> {
    fn gen(g: &mut G, d: usize) -> Self { let n = len(g, d); (0..n).map(|_| (K::key(g), T::gen(g, d + 1))).collect() }
    /// the same pairs; per key in the same order
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() { return false }
        let mut a: HashMap<&K, Vec<&T>> = HashMap::new();
        for (k, x) in self { a.entry(k).or_default().push(x) }
        let mut b: HashMap<&K, Vec<&T>> = HashMap::new();
        for (k, x) in o { b.entry(k).or_default().push(x) }
        a.len() == b.len() && a.iter().all(|(k, xs)| b.get(k).map_or(false, |ys| xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| x.same(y))))
    }
    fn v(&self) -> V { V::Obj(self.iter().map(|(k, x)| (k.to_string(), x.v())).collect()) }
    fn expect(v: &V) -> Option<Self> {
        match v { V::Obj(m) => { let ks = keys::<K>(m)?; m.iter().map(|(k, x)| Some((ks[k].clone(), T::expect(x)?))).collect() } _ => None }
    }
    fn near(g: &mut G, d: usize) -> V { pairs_v::<K, T>(g, d) }
}
impl<K: Key, T: Ref> Ref for HashMap<K, T> {
    fn gen(g: &mut G, d: usize) -> Self { let n = len(g, d); (0..n).map(|_| (K::key(g), T::gen(g, d + 1))).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, x)| o.get(k).map_or(false, |y| x.same(y))) }
    fn v(&self) -> V { V::Obj(self.iter().map(|(k, x)| (k.to_string(), x.v())).collect()) }
    fn expect(v: &V) -> Option<Self> {
        match v {
            V::Obj(m) => { let ks = keys::<K>(m)?; let mut last: HashMap<&String, &V> = HashMap::new(); for (k, x) in m { last.insert(k, x); } last.into_iter().map(|(k, x)| Some((ks[k].clone(), T::expect(x)?))).collect() }
            _ => None,
        }
    }
    fn near(g: &mut G, d: usize) -> V { pairs_v::<K, T>(g, d) }
}

// ---- C06 ----

fn rt<T: Ref>(w: &mut Wk, name: &'static str) -> Result<(), String> {
    let x = w.g(|g, _| T::gen(g, 0));
    rt_value(w, name, &x)
}
fn rt_value<T: Ref>(w: &mut Wk, name: &'static str, x: &T) -> Result<(), String> {
    let want = x.v();
    let t = call(|| json::encode(x)).map_err(|e| format!("encode::<{}> of {} {}", name, show(&want), e))?;
    w.saw(hash_str(&t) ^ hash_str(name));
    w.count("values");
    w.sample(|| format!("{}: {}", name, t));
    let back: T = call(|| json::decode::<T>(&t)).map_err(|e| format!("decode::<{}>({}) {}", name, json_str(&clip(&t, 200)), e))?
        .map_err(|e| format!("decode::<{}>(encode(x)) fails with {}: {}", name, e, json_str(&clip(&t, 300))))?;
    if !x.same(&back) { return Err(format!("decode::<{}>(encode(x)) gives another value: {} became {}", name, show(&want), show(&back.v()))); }
    let j = call(|| x.to_json())?;
    want.same(&j).map_err(|e| format!("to_json of {} differs: {}", name, e))?;
    let back: T = call(|| j.convert::<T>())?.map_err(|e| format!("to_json().convert::<{}>() fails with {}: {}", name, e, show(&want)))?;
    if !x.same(&back) { return Err(format!("to_json().convert::<{}>() gives another value: {} became {}", name, show(&want), show(&back.v()))); }
    Ok(())
}

pub type TypeFn = fn(&mut Wk, &'static str) -> Result<(), String>;
macro_rules! types { ($f:ident; $($t:ty),* $(,)?) => { &[$((stringify!($t), $f::<$t> as TypeFn)),*] } }
macro_rules! all_types { ($f:ident) => { types!($f;
    u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64, bool, String, Json,
    Option<i32>, Option<String>, Option<f64>, Option<Vec<u8>>, Option<bool>,
    Vec<i32>, Vec<u64>, Vec<f64>, Vec<f32>, Vec<bool>, Vec<String>, Vec<Option<String>>, Vec<Vec<u8>>, Vec<Option<Vec<Option<i64>>>>, Vec<Json>,
    HashMap<String, i32>, HashMap<i32, String>, HashMap<char, bool>, HashMap<bool, u8>, HashMap<u64, Vec<Option<String>>>, HashMap<String, HashMap<String, f64>>, HashMap<String, Option<f32>>, HashMap<String, Json>,
    Vec<(String, i32)>, Vec<(i32, Vec<f32>)>, Vec<(String, Option<String>)>, Vec<(String, Vec<(String, bool)>)>, Vec<(char, Json)>, Vec<(bool, u8)>,
    Vec<HashMap<String, Vec<(String, Option<bool>)>>>, Option<HashMap<String, Vec<i32>>>, HashMap<String, Vec<(String, u16)>>, Vec<Vec<Vec<String>>>,
) } }

/// C20: nothing is left behind by encoding and decoding values of T, whether it fits or not
fn memory<T: Ref>(w: &mut Wk, name: &'static str) -> Result<(), String> {
    let (x, near) = w.g(|g, _| (T::gen(g, 0), T::near(g, 0)));
    let what = |s: &'static str| { let v = x.v(); let n = near.clone(); move || format!("{} of {} ({} or {})", s, name, clip(&show(&v), 200), clip(&show(&n), 200)) };
    w.saw(hash_str(&format!("{:?} {:?}", x.v(), near)) ^ hash_str(name));
    w.count("typed_values_balanced");
    let (t, u) = (x.v().to_json().to_string(), near.to_json().to_string());
    let j = near.to_json();
    use crate::robust::balanced as b;
    b(w, what("to_json"), || x.to_json())?;
    b(w, what("encode"), || json::encode(&x))?;
    b(w, what("decode of its text"), || json::decode::<T>(&t).map(|y| json::encode(&y)))?;
    b(w, what("decode of another text"), || json::decode::<T>(&u).is_ok())?;
    b(w, what("convert"), || j.convert::<T>().map(|y| y.to_json()))?;
    b(w, what("decode as Option, Vec and HashMap"), || (json::decode::<Option<T>>(&u).is_ok(), json::decode::<Vec<T>>(&format!("[{},{},{}]", t, u, t)).is_ok(), json::decode::<HashMap<String, T>>(&format!("{{\"a\":{},\"b\":{},\"a\":{}}}", t, u, t)).is_ok()))?;
    b(w, what("values in an edited object"), || {
        let mut o = Json::Object(HashMap::new());
        let _ = (o.insert("a", Some(&x).map(|x| x.to_json())), o.append("a", x.to_json()), o.set("a.b.#1", x.to_json()).is_ok(), o.update("k", x.to_json()).is_ok(), o.get("a").is_ok(), o.del("a").is_ok());
        o
    })?;
    let s = [Some(x.clone()), None, Some(x.clone())];
    b(w, what("slices of Options and pairs"), || (json::encode(&&s[..]), json::encode(&s[0]), json::encode(&&[("k", x.clone()), ("k", x.clone())][..])))
}
pub fn memory_types() -> &'static [(&'static str, TypeFn)] { all_types!(memory) }

fn same_text(w: &mut Wk, what: &str, a: String, b: String) -> Result<(), String> {
    w.saw(hash_str(&a) ^ hash_str(what));
    w.count("references");
    if a != b { return Err(format!("{}: reference encodes as {} but the value as {}", what, json_str(&clip(&a, 200)), json_str(&clip(&b, 200)))); }
    Ok(())
}

/// slices of T and of pairs, by themselves and inside other types, encode the values they refer to
fn slices<T: Ref>(w: &mut Wk, name: &'static str) -> Result<(), String> {
    let (x, p, q) = w.g(|g, _| { let d = if g.r.chance(1, 12) { 0 } else { g.r.range(1, 2) }; (<Vec<T>>::gen(g, d), <Vec<(String, T)>>::gen(g, d), <Vec<(i32, T)>>::gen(g, d)) });
    let mut check = |what: &str, want: V, j: &dyn Fn() -> (Json, String)| -> Result<(), String> {
        let (j, t) = call(j).map_err(|e| format!("encoding a {} with T = {} {}", what, name, e))?;
        w.saw(hash_str(&t) ^ hash_str(what) ^ hash_str(name));
        w.count("slices");
        want.same(&j).map_err(|e| format!("to_json of a {} with T = {} differs from the values it refers to: {}", what, name, e))?;
        let own = want.to_json().to_string();
        if t != own { return Err(format!("encode of a {} with T = {} gives {} instead of {}", what, name, json_str(&clip(&t, 200)), json_str(&clip(&own, 200)))); }
        Ok(())
    };
    macro_rules! enc { ($e:expr) => { &|| { let y = $e; (y.to_json(), json::encode(&y)) } } }
    check("&[T]", x.v(), enc!(&x[..]))?;
    check("&[(String, T)]", p.v(), enc!(&p[..]))?;
    check("&[(i32, T)]", q.v(), enc!(&q[..]))?;
    check("Vec<&[T]>", V::Arr(vec![x.v(), V::Arr(vec![])]), enc!(vec![&x[..], &x[..0]]))?;
    check("Option<&[T]>", x.v(), enc!(Some(&x[..])))?;
    check("Option<&[(String, T)]>", p.v(), enc!(Some(&p[..])))?;
    check("HashMap<&str, &[T]>", V::Obj(vec![("k".into(), x.v())]), enc!(HashMap::from([("k", &x[..])])))?;
    check("&[(&str, &[T])]", V::Obj(vec![("k".into(), x.v()), ("j".into(), V::Arr(vec![])), ("k".into(), x.v())]), enc!(&[("k", &x[..]), ("j", &x[..0]), ("k", &x[..])][..]))?;
    check("&[&[(i32, T)]]", V::Arr(vec![q.v(), q.v()]), enc!(&[&q[..], &q[..]][..]))?;
    check("Vec<(String, &[T])>", V::Obj(vec![("a".into(), x.v())]), enc!(vec![("a".to_string(), &x[..])]))
}

pub fn c06(ctx: &Ctx) -> Vec<Stream> {
    let tys: &'static [(&'static str, TypeFn)] = all_types!(rt);
    let sl: &'static [(&'static str, TypeFn)] = all_types!(slices);
    vec![
        stream("types", ctx.n(100, 500_000, 12_000_000), move |w, i| { let (n, f) = tys[i as usize % tys.len()]; f(w, n) }),
        exhaustive("narrow-integers", ctx.n(256, 65536, 65536), |w, i| {
            rt_value(w, "u16", &(i as u16))?;
            rt_value(w, "i16", &(i as u16 as i16))?;
            rt_value(w, "u32", &((i as u32) << 16 | !i as u32 & 0xffff))?;
            rt_value(w, "f32", &f32::from_bits(if (i as u32) << 16 & 0x7f80_0000 == 0x7f80_0000 { i as u32 } else { (i as u32) << 16 | 1 }))?;
            rt_value(w, "i32", &(((i as u32) << 16) as i32 + i as i32))?;
            if i < 256 { rt_value(w, "u8", &(i as u8))?; rt_value(w, "i8", &(i as u8 as i8))?; }
            let k = i % 54;
            for d in 0..3 { let n = ((1i64 << k) + d - 1).min(1 << 53); rt_value(w, "i64", &n)?; rt_value(w, "i64", &-n)?; rt_value(w, "u128", &(n as u128))?; rt_value(w, "i128", &-(n as i128))?; rt_value(w, "u64", &(n as u64))?; rt_value(w, "usize", &(n as usize))?; rt_value(w, "isize", &-(n as isize))?; }
            Ok(())
        }),
        {
            // collections of every size, around powers of two and the constants of the source
            let sz = crate::text::sizes_far(ctx, if ctx.tier == Tier::Mini { 4 } else { 140 }, if ctx.tier == Tier::Mini { 8 } else { 20_000 });
            let m = sz.len() as u64;
            let mut s = exhaustive("sizes", m * 10, move |w, i| {
                let n = sz[(i / 10) as usize];
                w.max("max_elements", n as u64);
                let key = |i: usize| format!("k{}", i);
                match i % 10 {
                    0 => { let x: Vec<u32> = (0..n as u32).collect(); rt_value(w, "Vec<u32>", &x)?; same_text(w, "&[u32]", call(|| json::encode(&&x[..]))?, call(|| json::encode(&x))?) }
                    1 => { let x: Vec<String> = (0..n).map(key).collect(); rt_value(w, "Vec<String>", &x)?; let r: Vec<&str> = x.iter().map(|s| s.as_str()).collect(); same_text(w, "Vec<&str>", call(|| json::encode(&r))?, call(|| json::encode(&x))?)?; same_text(w, "&[&str]", call(|| json::encode(&&r[..]))?, call(|| json::encode(&x))?) }
                    2 => { let x: Vec<(String, i32)> = (0..n).map(|i| (key(i), i as i32)).collect(); rt_value(w, "Vec<(String, i32)>", &x)?; same_text(w, "&[(String, i32)]", call(|| json::encode(&&x[..]))?, call(|| json::encode(&x))?)?; let h: HashMap<String, i32> = x.iter().cloned().collect(); same_text(w, "HashMap and pairs", call(|| json::encode(&h))?, call(|| json::encode(&x))?) }
                    3 => { let x: Vec<(i32, bool)> = (0..n).map(|i| (i as i32 - 7, i % 3 == 0)).collect(); rt_value(w, "Vec<(i32, bool)>", &x)?; same_text(w, "&[(i32, bool)]", call(|| json::encode(&&x[..]))?, call(|| json::encode(&x))?) }
                    4 => { let x: HashMap<String, i32> = (0..n).map(|i| (key(i), i as i32)).collect(); rt_value(w, "HashMap<String, i32>", &x) }
                    5 => { let x: HashMap<u64, Vec<Option<String>>> = (0..n).map(|i| (i as u64, vec![None, Some(key(i))])).collect(); rt_value(w, "HashMap<u64, Vec<Option<String>>>", &x) }
                    6 => { let x = "é".repeat(n); rt_value(w, "String", &x)?; rt_value(w, "Option<String>", &Some(x)) }
                    7 => { let x: Vec<Option<bool>> = (0..n).map(|i| if i % 3 == 0 { None } else { Some(i % 2 == 0) }).collect(); rt_value(w, "Vec<Option<bool>>", &x) }
                    8 => { let x: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; i % 3]).collect(); rt_value(w, "Vec<Vec<u8>>", &x)?; rt_value(w, "Option<Vec<Vec<u8>>>", &Some(x)) }
                    _ => { let x: Vec<Vec<(String, i32)>> = vec![(0..n).map(|i| (key(i), 1)).collect(), vec![]]; rt_value(w, "Vec<Vec<(String, i32)>>", &x) }
                }
            });
            s.chunk = 10;
            s
        },
        stream("slices", ctx.n(100, 30_000, 800_000), move |w, i| { let (n, f) = sl[i as usize % sl.len()]; f(w, n) }),
        stream("references", ctx.n(30, 60_000, 1_000_000), |w, _| {
            let (s, v, p, b, i, f) = w.g(|g, _| (g.string(60), <Vec<i64>>::gen(g, 0), <Vec<(String, i32)>>::gen(g, 0), g.r.chance(1, 2), i64::gen(g, 0), f32::gen(g, 0)));
            let base = call(|| json::encode(&s))?;
            same_text(w, "&str", call(|| json::encode(&s.as_str()))?, base.clone())?;
            same_text(w, "str", call(|| json::encode(s.as_str()))?, base)?;
            same_text(w, "&[T]", call(|| json::encode(&&v[..]))?, call(|| json::encode(&v))?)?;
            same_text(w, "&[(K, V)]", call(|| json::encode(&&p[..]))?, call(|| json::encode(&p))?)?;
            same_text(w, "&bool", call(|| json::encode(&&b))?, call(|| json::encode(&b))?)?;
            same_text(w, "&i64", call(|| json::encode(&&i))?, call(|| json::encode(&i))?)?;
            same_text(w, "&f32", call(|| json::encode(&&f))?, call(|| json::encode(&f))?)?;
            let refs: Vec<&i64> = v.iter().collect();
            same_text(w, "Vec<&i64>", call(|| json::encode(&refs))?, call(|| json::encode(&v))?)?;
            let strs: Vec<&str> = p.iter().map(|x| x.0.as_str()).collect();
            let owned: Vec<String> = p.iter().map(|x| x.0.clone()).collect();
            same_text(w, "Vec<&str>", call(|| json::encode(&strs))?, call(|| json::encode(&owned))?)?;
            let op: Option<&str> = if b { Some(&s) } else { None };
            same_text(w, "Option<&str>", call(|| json::encode(&op))?, call(|| json::encode(&if b { Some(s.clone()) } else { None }))?)?;
            let pr: Vec<(&str, &i32)> = p.iter().map(|x| (x.0.as_str(), &x.1)).collect();
            same_text(w, "Vec<(&str, &i32)>", call(|| json::encode(&pr))?, call(|| json::encode(&p))?)?;
            // every reference to a number type
            macro_rules! nums { ($($t:ty),*) => { $({ let x = i as $t; same_text(w, concat!("&", stringify!($t)), call(|| json::encode(&&x))?, call(|| json::encode(&x))?)?; })* } }
            nums!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
            Ok(())
        }),
    ]
}

// ---- C07 ----

fn conv<T: Ref>(w: &mut Wk, name: &'static str) -> Result<(), String> {
    let v = w.g(|g, _| if g.r.chance(1, 8) { g.doc_sized(40) } else { T::near(g, 0) });
    conv_value::<T>(w, name, &v)
}
fn conv_value<T: Ref>(w: &mut Wk, name: &'static str, v: &V) -> Result<(), String> {
    // different texts for one key have no defined winner
    if name.contains("i32,") && amb(v, &|v| ambiguous::<i32>(v)) || name.contains("u64,") && amb(v, &|v| ambiguous::<u64>(v)) { w.count("ambiguous_skipped"); return Ok(()) }
    let want = T::expect(v);
    let j = v.to_json();
    w.saw(hash_str(&format!("{:?}", v)) ^ hash_str(name));
    w.count(if want.is_some() { "convertible" } else { "not_convertible" });
    w.sample(|| format!("{} from {:?}", name, v));
    let t = call(|| j.to_string())?;
    for how in 0..3 {
        if how == 2 && !v.finite() { continue }
        let got = call(|| match how { 0 => j.convert::<T>(), 1 => T::from_json(&j), _ => json::decode::<T>(&t) }).map_err(|e| format!("conversion of {} to {} {}", show(v), name, e))?;
        match (&want, got) {
            (Some(x), Ok(y)) if x.same(&y) => (),
            (None, Err(e)) if err_kind(&e) == EK::Conv => (),
            (want, got) => return Err(format!("{} of {} to {} gives {} instead of {}", ["convert", "from_json", "decode"][how], show(v), name,
                                       match got { Ok(y) => show(&y.v()), Err(e) => format!("error {}", e) }, match want { Some(x) => show(&x.v()), None => "ConvertError".into() })),
        }
    }
    Ok(())
}
fn amb(v: &V, f: &dyn Fn(&V) -> bool) -> bool {
    f(v) || match v { V::Arr(a) => a.iter().any(|x| amb(x, f)), V::Obj(m) => m.iter().any(|x| amb(&x.1, f)), _ => false }
}

pub fn c07(ctx: &Ctx) -> Vec<Stream> {
    let tys: &'static [(&'static str, TypeFn)] = all_types!(conv);
    let one: &'static [(&'static str, fn(&mut Wk, &'static str, &V) -> Result<(), String>)] = &[
        ("u8", conv_value::<u8>), ("i8", conv_value::<i8>), ("u16", conv_value::<u16>), ("i16", conv_value::<i16>), ("u32", conv_value::<u32>), ("i32", conv_value::<i32>), ("u64", conv_value::<u64>), ("i64", conv_value::<i64>),
        ("u128", conv_value::<u128>), ("i128", conv_value::<i128>), ("usize", conv_value::<usize>), ("isize", conv_value::<isize>), ("f32", conv_value::<f32>), ("f64", conv_value::<f64>), ("bool", conv_value::<bool>), ("String", conv_value::<String>),
        ("Vec<u8>", conv_value::<Vec<u8>>), ("Option<u8>", conv_value::<Option<u8>>), ("HashMap<String, u8>", conv_value::<HashMap<String, u8>>), ("Vec<(String, u8)>", conv_value::<Vec<(String, u8)>>), ("Json", conv_value::<Json>), ("Option<bool>", conv_value::<Option<bool>>), ("Option<String>", conv_value::<Option<String>>), ("Option<Vec<u8>>", conv_value::<Option<Vec<u8>>>),
    ];
    let m = one.len() as u64;
    vec![
        stream("types", ctx.n(100, 600_000, 15_000_000), move |w, i| { let (n, f) = tys[i as usize % tys.len()]; f(w, n) }),
        exhaustive("kinds", m * 24, move |w, i| {
            let (n, f) = one[(i % m) as usize];
            let v = match i / m {
                0 => V::Null, 1 => V::Bool(true), 2 => V::Bool(false), 3 => V::Num(0.0), 4 => V::Num(1.0), 5 => V::Num(-1.5), 6 => V::Str(String::new()), 7 => V::Str("1".into()), 8 => V::Str("true".into()), 9 => V::Str("null".into()),
                10 => V::Arr(vec![]), 11 => V::Arr(vec![V::Null]), 12 => V::Arr(vec![V::Num(3.0)]), 13 => V::Obj(vec![]), 14 => V::Obj(vec![("a".into(), V::Num(1.0))]), 15 => V::Obj(vec![("a".into(), V::Null), ("a".into(), V::Num(2.0))]),
                16 => V::Obj(vec![("a".into(), V::Num(2.0)), ("a".into(), V::Null)]), 17 => V::Arr(vec![V::Num(3.0), V::Str("x".into())]), 18 => V::Arr(vec![V::Arr(vec![])]), 19 => V::Num(f64::NAN), 20 => V::Num(f64::INFINITY), 21 => V::Num(1e300), 22 => V::Num(-1e300), _ => V::Num(255.99),
            };
            f(w, n, &v)
        }),
        exhaustive("bounds", ctx.n(50, 6_000, 60_000) * 14, move |w, i| {
            let (n, f) = one[(i % 14) as usize];
            let k = i / 14;
            let e = k % 130;
            let x = 2f64.powi(e as i32);
            let x = match k / 130 % 6 { 0 => x, 1 => -x, 2 => x - 1.0, 3 => x + 0.5, 4 => f64::from_bits(x.to_bits() - 1), _ => -f64::from_bits(x.to_bits() + 1) };
            let x = x + (k / 780) as f64;
            f(w, n, &V::Num(x))
        }),
        {
            let sz = crate::text::sizes_far(ctx, if ctx.tier == Tier::Mini { 4 } else { 140 }, if ctx.tier == Tier::Mini { 8 } else { 20_000 });
            let m = sz.len() as u64;
            let mut s = exhaustive("sizes", m * 8, move |w, i| {
                let n = sz[(i / 8) as usize];
                w.max("max_elements", n as u64);
                let last = |i: usize, v: V| if i + 1 == n { v } else { V::Num((i % 200) as f64) };
                let key = |i: usize| format!("k{}", i);
                match i % 8 {
                    0 => conv_value::<Vec<u8>>(w, "Vec<u8>", &V::Arr((0..n).map(|i| last(i, V::Num(9.0))).collect())),
                    1 => conv_value::<Vec<u8>>(w, "Vec<u8>", &V::Arr((0..n).map(|i| last(i, V::Bool(true))).collect())),
                    2 => conv_value::<HashMap<String, u8>>(w, "HashMap<String, u8>", &V::Obj((0..n).map(|i| (key(i), last(i, V::Num(9.0)))).collect())),
                    3 => conv_value::<HashMap<String, u8>>(w, "HashMap<String, u8>", &V::Obj((0..n).map(|i| (key(i), last(i, V::Str("9".into())))).collect())),
                    4 => conv_value::<Vec<(String, u8)>>(w, "Vec<(String, u8)>", &V::Obj((0..n).map(|i| (key(i / 2), last(i, V::Num(9.0)))).collect())),
                    5 => conv_value::<Vec<(String, u8)>>(w, "Vec<(String, u8)>", &V::Obj((0..n).map(|i| ("k".to_string(), last(i, V::Num(9.0)))).collect())),
                    6 => conv_value::<String>(w, "String", &V::Str("é".repeat(n))),
                    _ => conv_value::<Vec<Option<bool>>>(w, "Vec<Option<bool>>", &V::Arr((0..n).map(|i| if i + 1 == n { V::Bool(true) } else { V::Null }).collect())),
                }
            });
            s.chunk = 8;
            s
        },
        // one bad element at every place of a container
        stream("one-misfit", ctx.n(20, 60_000, 1_000_000), |w, _| {
            let (v, kind) = w.g(|g, _| {
                let n = g.size(300).max(1);
                let at = g.r.below(n);
                let bad = *g.r.pick(&[0, 1, 2]);
                let x = |g: &mut G, i: usize| if i == at { match bad { 0 => V::Str("7".into()), 1 => V::Null, _ => V::Arr(vec![]) } } else { V::Num(g.r.below(100) as f64) };
                if g.r.chance(1, 2) { (V::Arr((0..n).map(|i| x(g, i)).collect()), 0) } else { (V::Obj((0..n).map(|i| (format!("k{}", if n > 3 && i % 3 == 0 { 0 } else { i }), x(g, i))).collect()), 1) }
            });
            if kind == 0 { conv_value::<Vec<u8>>(w, "Vec<u8>", &v)?; conv_value::<Vec<Option<f64>>>(w, "Vec<Option<f64>>", &v)?; conv_value::<Option<Vec<i64>>>(w, "Option<Vec<i64>>", &v) }
            else { conv_value::<HashMap<String, u8>>(w, "HashMap<String, u8>", &v)?; conv_value::<Vec<(String, u8)>>(w, "Vec<(String, u8)>", &v)?; conv_value::<HashMap<String, Option<i32>>>(w, "HashMap<String, Option<i32>>", &v) }
        }),
    ]
}
