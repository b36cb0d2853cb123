//! What the generated structs of the derive monitors are checked with.
pub use dm::Other;
pub use json::{Error, ErrorKind, FromJson, Json, JsonDecode, JsonEncode, ToJson};
use std::collections::{BTreeSet, HashMap, LinkedList};
use std::hash::Hash;
use std::marker::PhantomData;
use std::str::FromStr;

pub struct R(pub u64);

impl R {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// values that survive encoding and decoding, and what it means to be the same one
pub trait Gen: Sized {
    fn gen(r: &mut R) -> Self;
    fn same(&self, o: &Self) -> bool;
}

macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Gen for $t {
            fn gen(r: &mut R) -> $t {
                match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => if std::mem::size_of::<$t>() <= 4 { <$t>::MAX } else { (1u64 << 53) as $t },
                    3 => if std::mem::size_of::<$t>() <= 4 { <$t>::MIN } else { 0 },
                    4 => (r.next() % 100) as $t,
                    _ => if std::mem::size_of::<$t>() <= 4 { r.next() as $t } else { (r.next() >> 12) as $t },
                }
            }
            fn same(&self, o: &$t) -> bool { self == o }
        }
    )*};
}
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

impl Gen for f64 {
    fn gen(r: &mut R) -> f64 {
        match r.below(3) {
            0 => r.below(1000) as f64 / 8.0,
            1 => -0.0,
            _ => loop {
                let x = f64::from_bits(r.next());
                if x.is_finite() {
                    break x;
                }
            },
        }
    }
    fn same(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan()
    }
}

impl Gen for f32 {
    fn gen(r: &mut R) -> f32 {
        r.below(100000) as f32 / 16.0
    }
    fn same(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan()
    }
}

impl Gen for bool {
    fn gen(r: &mut R) -> bool {
        r.below(2) == 0
    }
    fn same(&self, o: &bool) -> bool {
        self == o
    }
}

const WORDS: [&str; 12] = ["", "a", "key", "{}", "\"", "\\", "é\n", "name", "\u{1F600}", "null", "0", "a, b: c"];

impl Gen for String {
    fn gen(r: &mut R) -> String {
        let mut s = WORDS[r.below(12)].to_string();
        if r.below(3) == 0 {
            s += WORDS[r.below(12)];
        }
        s
    }
    fn same(&self, o: &String) -> bool {
        self == o
    }
}

impl Gen for &str {
    fn gen(r: &mut R) -> Self {
        WORDS[r.below(12)]
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

impl<T: Gen> Gen for &T {
    fn gen(r: &mut R) -> Self {
        Box::leak(Box::new(T::gen(r)))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(*o)
    }
}

impl<T: Gen> Gen for &[T] {
    fn gen(r: &mut R) -> Self {
        Box::leak(Vec::<T>::gen(r).into_boxed_slice())
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
}

impl Gen for () {
    fn gen(_: &mut R) {}
    fn same(&self, _: &()) -> bool {
        true
    }
}

impl<A: Gen> Gen for (A,) {
    fn gen(r: &mut R) -> Self {
        (A::gen(r),)
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}

impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen(r: &mut R) -> Self {
        (A::gen(r), B::gen(r))
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}

impl<A: Gen, const N: usize> Gen for [A; N] {
    fn gen(r: &mut R) -> Self {
        std::array::from_fn(|_| A::gen(r))
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}

impl<T: ?Sized> Gen for PhantomData<T> {
    fn gen(_: &mut R) -> Self {
        PhantomData
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}

impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut R) -> Self {
        if r.below(3) == 0 {
            None
        } else {
            Some(T::gen(r))
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}

impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut R) -> Self {
        (0..r.below(4)).map(|_| T::gen(r)).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}

impl<K: Gen + Hash + Eq, T: Gen> Gen for HashMap<K, T> {
    fn gen(r: &mut R) -> Self {
        (0..r.below(4)).map(|_| (K::gen(r), T::gen(r))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, a)| o.get(k).map_or(false, |b| a.same(b)))
    }
}

/// pairs written as an object: one each, so that order and number are those that come back
pub struct Pairs<K, T>(pub Vec<(K, T)>);
impl<T: ToJson> ToJson for Pairs<String, T> {
    fn to_json(&self) -> Json {
        self.0.to_json()
    }
}
impl<K: FromStr, T: FromJson> FromJson for Pairs<K, T> {
    fn from_json(j: &Json) -> Result<Self, Error> {
        Ok(Pairs(Vec::from_json(j)?))
    }
}
impl<T: Gen> Gen for Pairs<String, T> {
    fn gen(r: &mut R) -> Self {
        Pairs((0..r.below(3)).map(|_| ("same".to_string(), T::gen(r))).collect())
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
impl<K, T> Default for Pairs<K, T> {
    fn default() -> Self {
        Pairs(Vec::new())
    }
}

impl Gen for Json {
    fn gen(r: &mut R) -> Json {
        json(r, 3)
    }
    fn same(&self, o: &Json) -> bool {
        deep(self, o)
    }
}

pub fn json(r: &mut R, depth: usize) -> Json {
    match r.below(if depth == 0 { 5 } else { 8 }) {
        0 => Json::Null,
        1 => Json::Boolean(bool::gen(r)),
        2 => Json::Number(f64::gen(r)),
        3 => Json::Number(r.below(300) as f64),
        4 => Json::String(String::gen(r)),
        5 => Json::Array((0..r.below(4)).map(|_| json(r, depth - 1)).collect()),
        _ => object((0..r.below(4)).map(|_| (String::gen(r), json(r, depth - 1))).collect()),
    }
}

/// the object with these members, by hand
pub fn object(members: Vec<(String, Json)>) -> Json {
    let mut m: HashMap<String, (Json, LinkedList<Json>)> = HashMap::new();
    for (k, v) in members {
        if let Some(old) = m.get_mut(&k) {
            let last = std::mem::replace(&mut old.0, v);
            old.1.push_front(last);
        } else {
            m.insert(k, (v, LinkedList::new()));
        }
    }
    Json::Object(m)
}

/// the same content, numbers by their bits
pub fn deep(a: &Json, b: &Json) -> bool {
    match (a, b) {
        (Json::Null, Json::Null) => true,
        (Json::Boolean(a), Json::Boolean(b)) => a == b,
        (Json::Number(a), Json::Number(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (Json::String(a), Json::String(b)) => a == b,
        (Json::Array(a), Json::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| deep(a, b)),
        (Json::Object(a), Json::Object(b)) => {
            a.len() == b.len()
                && a.iter().all(|(k, (x, xs))| match b.get(k) {
                    Some((y, ys)) => deep(x, y) && xs.len() == ys.len() && xs.iter().zip(ys).all(|(a, b)| deep(a, b)),
                    None => false,
                })
        }
        _ => false,
    }
}

/// any type at all as a parameter, a plain number as a value
pub struct Any<T: ?Sized>(pub u32, PhantomData<*const T>);
impl<T: ?Sized> ToJson for Any<T> {
    fn to_json(&self) -> Json {
        Json::Number(self.0 as f64)
    }
}
impl<T: ?Sized> FromJson for Any<T> {
    fn from_json(j: &Json) -> Result<Self, Error> {
        match j {
            Json::Number(n) => Ok(Any(*n as u32, PhantomData)),
            _ => Err(Error::new(ErrorKind::ConvertError, "any".into())),
        }
    }
}
impl<T: ?Sized> Default for Any<T> {
    fn default() -> Self {
        Any(7, PhantomData)
    }
}
impl<T: ?Sized> Gen for Any<T> {
    fn gen(r: &mut R) -> Self {
        Any(r.below(1000) as u32, PhantomData)
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
pub struct Arr<const N: usize>;
pub struct Lt<'a, T: ?Sized>(pub &'a T);

/// a conversion with errors of its own: odd numbers do not fit
pub struct Even(pub u8);
impl ToJson for Even {
    fn to_json(&self) -> Json {
        Json::Number(self.0 as f64)
    }
}
impl FromJson for Even {
    fn from_json(j: &Json) -> Result<Self, Error> {
        match j {
            Json::Number(n) if n.abs() < 256.0 && (*n as i64) % 2 == 0 => Ok(Even(*n as u8)),
            Json::Number(n) => Err(Error::new(ErrorKind::PathSyntaxError, format!("odd {}", n))),
            _ => Err(Error::new(ErrorKind::IndexOutOfRange, "not even a number".into())),
        }
    }
}
// references to a type may have the traits too
impl ToJson for &Even {
    fn to_json(&self) -> Json {
        (**self).to_json()
    }
}
impl ToJson for &mut Even {
    fn to_json(&self) -> Json {
        (**self).to_json()
    }
}
impl FromJson for &'static Even {
    fn from_json(j: &Json) -> Result<Self, Error> {
        Even::from_json(j).map(|e| &*Box::leak(Box::new(e)))
    }
}
impl FromJson for &'static mut Even {
    fn from_json(j: &Json) -> Result<Self, Error> {
        Even::from_json(j).map(|e| Box::leak(Box::new(e)))
    }
}
impl Gen for &mut Even {
    fn gen(r: &mut R) -> Self {
        Box::leak(Box::new(Even::gen(r)))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}
impl Default for Even {
    fn default() -> Self {
        Even(102)
    }
}
impl Gen for Even {
    fn gen(r: &mut R) -> Self {
        Even(r.below(128) as u8 * 2)
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

/// no trait of the library, and a default of its own
pub struct Opaque(pub u32);
impl Default for Opaque {
    fn default() -> Self {
        Opaque(4242)
    }
}
impl Gen for Opaque {
    fn gen(r: &mut R) -> Self {
        Opaque(r.below(100) as u32)
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

/// tells an absent key from null, and takes every value
pub struct Saw(pub String);
impl ToJson for Saw {
    fn to_json(&self) -> Json {
        Json::String(self.0.clone())
    }
}
impl FromJson for Saw {
    fn from_json(j: &Json) -> Result<Self, Error> {
        Ok(Saw(match j {
            Json::String(s) => s.clone(),
            Json::Null => "null was here".into(),
            _ => "something was here".into(),
        }))
    }
}
impl Default for Saw {
    fn default() -> Self {
        Saw("nothing was here".into())
    }
}
impl Gen for Saw {
    fn gen(r: &mut R) -> Self {
        Saw(String::gen(r))
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

pub trait Id {
    type Out;
}
impl<X> Id for X {
    type Out = X;
}
pub trait Marker {}
impl<T: ?Sized> Marker for T {}
pub trait Of<T: ?Sized> {}
impl<T: ?Sized, X: ?Sized> Of<T> for X {}

// ---- checking ----
pub struct Ck {
    pub r: R,
    pub per: usize,
    pub encoded: u64,
    pub decoded: u64,
    pub refused: u64,
    pub round: u64,
    pub fails: u64,
    pub prop: &'static str,
    pub name: &'static str,
    pub kinds: BTreeSet<String>,
    pub texts: BTreeSet<u64>,
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3))
}

impl Ck {
    pub fn fail(&mut self, prop: &str, what: String) {
        if prop == self.prop {
            self.fails += 1;
            if self.fails <= 20 {
                println!("FAIL {} {}", self.name, what.replace('\n', " "));
            }
        }
    }
    pub fn start(&mut self, name: &'static str) {
        self.name = name;
    }
    /// C23
    pub fn enc(&mut self, want: &Json, got: &Json, text: &str) {
        self.encoded += 1;
        self.texts.insert(hash(text) ^ hash(self.name));
        if !deep(want, got) {
            self.fail("C23", format!("to_json gives {} instead of {}", show(got), show(want)));
        }
        if text != got.to_string() {
            self.fail("C23", format!("encode gives {} but to_json {}", text, show(got)));
        }
    }
    /// C24: `got` is the list of comparisons of its fields, or the error
    pub fn dec(&mut self, js: &Json, got: Result<Vec<bool>, Error>, errs: &[(String, String)]) {
        self.texts.insert(hash(&js.to_string()) ^ hash(self.name));
        match got {
            Ok(same) => {
                self.decoded += 1;
                if !errs.is_empty() {
                    self.fail("C24", format!("from_json of {} is Ok, expected one of {:?}", show(js), errs));
                } else if let Some(k) = same.iter().position(|x| !x) {
                    self.fail("C24", format!("from_json of {} gives another value for field {}", show(js), k));
                }
            }
            Err(e) => {
                self.refused += 1;
                let (k, m) = (format!("{:?}", e.kind), e.msg);
                self.kinds.insert(k.clone());
                if errs.is_empty() {
                    self.fail("C24", format!("from_json of {} is an error, {}: {}", show(js), k, m));
                } else if !errs.iter().any(|(a, b)| *a == k && (b.is_empty() || *b == m)) {
                    self.fail("C24", format!("from_json of {} is an error, {}: {}, expected one of {:?}", show(js), k, m, errs));
                }
            }
        }
    }
    pub fn back(&mut self, ok: bool, how: &str) {
        self.round += 1;
        if !ok {
            self.fail("C24", format!("{} does not come back from encode and decode", how));
        }
    }
    pub fn done(&self) {
        println!("DONE encoded={} decoded={} refused={} round={} distinct={} fails={} kinds={}", self.encoded, self.decoded, self.refused, self.round, self.texts.len(), self.fails, self.kinds.iter().cloned().collect::<Vec<_>>().join("+"));
    }
}

pub fn new(seed: u64, per: usize, prop: &'static str) -> Ck {
    Ck { r: R(seed), per, encoded: 0, decoded: 0, refused: 0, round: 0, fails: 0, prop, name: "", kinds: BTreeSet::new(), texts: BTreeSet::new() }
}

fn show(j: &Json) -> String {
    let mut s = format!("{:?}", j);
    if s.len() > 400 {
        s = s.chars().take(400).collect();
        s += "...";
    }
    s
}

/// the reference reading of one field; what goes wrong is added to `errs`
pub fn fld<T: FromJson>(js: &Json, key: &str, errs: &mut Vec<(String, String)>) -> Option<T> {
    match js {
        Json::Object(o) => match o.get(key) {
            Some((last, _)) => match T::from_json(last) {
                Ok(x) => Some(x),
                Err(e) => {
                    errs.push((format!("{:?}", e.kind), e.msg));
                    None
                }
            },
            None => {
                errs.push(("MissingKey".into(), String::new()));
                None
            }
        },
        _ => None,
    }
}

pub fn whole(js: &Json, errs: &mut Vec<(String, String)>) {
    if !matches!(js, Json::Object(_)) {
        errs.clear();
        errs.push(("ConvertError".into(), String::new()));
    }
}

/// an absent reference means that an error was expected anyway
pub fn like<T: Gen>(want: &Option<T>, got: &T) -> bool {
    want.as_ref().map_or(true, |w| w.same(got))
}

pub fn default_like<T: Gen + Default>(got: &T) -> bool {
    T::default().same(got)
}

/// an object a little different from `js`
pub fn mutate(r: &mut R, js: &Json, keys: &[&str], others: &[&str]) -> Json {
    let mut o = match js {
        Json::Object(o) => o.clone(),
        x => return x.clone(),
    };
    let n = 1 + r.below(3);
    for _ in 0..n {
        let k = if keys.is_empty() { "x" } else { keys[r.below(keys.len())] };
        match r.below(9) {
            0 => {
                o.remove(k);
            }
            1 | 2 => {
                let v = json(r, 2);
                if let Some(e) = o.get_mut(k) {
                    e.0 = v;
                }
            }
            3 => {
                // one more value: the last one counts
                let v = json(r, 2);
                if let Some(e) = o.get_mut(k) {
                    let old = std::mem::replace(&mut e.0, v);
                    e.1.push_front(old);
                }
            }
            4 => {
                // an earlier value, fitting or not, does not count
                let v = json(r, 2);
                if let Some(e) = o.get_mut(k) {
                    if r.below(2) == 0 {
                        e.1.push_back(v);
                    } else {
                        e.1.push_front(v);
                    }
                }
            }
            5 => {
                let k = if others.is_empty() { "extra" } else { others[r.below(others.len())] };
                if !keys.contains(&k) {
                    o.insert(k.to_string(), (json(r, 2), LinkedList::new()));
                }
            }
            6 => {
                // nearly the name of the key
                let k2 = match r.below(5) {
                    0 => format!("{}x", k),
                    1 => k.to_uppercase(),
                    2 => format!(" {}", k),
                    3 => k.chars().skip(1).collect(),
                    _ => format!("r#{}", k),
                };
                let moved = if r.below(2) == 0 && !keys.contains(&k2.as_str()) { o.remove(k) } else { None };
                if !keys.contains(&k2.as_str()) {
                    let v = moved.unwrap_or_else(|| (json(r, 1), LinkedList::new()));
                    o.insert(k2, v);
                }
            }
            7 => {
                if let Some(e) = o.get_mut(k) {
                    e.0 = Json::Null;
                }
            }
            _ => {
                if let Some(e) = o.get_mut(k) {
                    let mut list = LinkedList::new();
                    list.push_back(e.0.clone());
                    e.0 = Json::Array(vec![std::mem::replace(&mut e.0, Json::Null)]);
                    e.1 = list;
                }
            }
        }
    }
    Json::Object(o)
}

pub fn other_kind(r: &mut R) -> Json {
    match r.below(6) {
        0 => Json::Null,
        1 => Json::Boolean(true),
        2 => Json::Number(1.0),
        3 => Json::String("{}".into()),
        4 => Json::Array(vec![]),
        _ => Json::Array(vec![object(vec![])]),
    }
}
