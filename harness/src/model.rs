//! Reference model of a Json value and of the operations on it, independent of the library.
use json::Json;
use std::collections::{HashMap, LinkedList};

/// members of an object are kept in the order they were added, duplicates included
#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step { K(String), I(usize) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EK { Missing, Range, Kind, Path, Conv, Parse }

pub fn err_kind(e: &json::Error) -> EK {
    use json::ErrorKind::*;
    match e.kind {
        MissingKey => EK::Missing,
        IndexOutOfRange => EK::Range,
        InvalidValueKind => EK::Kind,
        PathSyntaxError => EK::Path,
        ConvertError => EK::Conv,
        InvalidJson | ParseObjectError | ParseArrayError | ParseStringError | ParseNumberError | ParseBooleanError | ParseNullError => EK::Parse,
    }
}

pub fn num_same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

impl V {
    pub fn kind(&self) -> &'static str {
        match self {
            V::Null => "null", V::Bool(_) => "boolean", V::Num(_) => "number",
            V::Str(_) => "string", V::Arr(_) => "array", V::Obj(_) => "object",
        }
    }

    /// all values of a key, oldest first
    pub fn all(&self, k: &str) -> Vec<&V> {
        match self {
            V::Obj(m) => m.iter().filter(|x| x.0 == k).map(|x| &x.1).collect(),
            _ => Vec::new(),
        }
    }

    pub fn nodes(&self) -> usize {
        1 + match self {
            V::Arr(a) => a.iter().map(|x| x.nodes()).sum(),
            V::Obj(m) => m.iter().map(|x| x.1.nodes()).sum(),
            _ => 0,
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            V::Arr(a) => 1 + a.iter().map(|x| x.depth()).max().unwrap_or(0),
            V::Obj(m) => 1 + m.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }

    pub fn finite(&self) -> bool {
        match self {
            V::Num(f) => f.is_finite(),
            V::Arr(a) => a.iter().all(|x| x.finite()),
            V::Obj(m) => m.iter().all(|x| x.1.finite()),
            _ => true,
        }
    }

    /// numbers that are not finite become null
    pub fn nulled(&self) -> V {
        match self {
            V::Num(f) if !f.is_finite() => V::Null,
            V::Arr(a) => V::Arr(a.iter().map(|x| x.nulled()).collect()),
            V::Obj(m) => V::Obj(m.iter().map(|(k, x)| (k.clone(), x.nulled())).collect()),
            v => v.clone(),
        }
    }

    /// the library's value with this content, by direct construction of the public enum
    pub fn to_json(&self) -> Json {
        match self {
            V::Null => Json::Null,
            V::Bool(b) => Json::Boolean(*b),
            V::Num(f) => Json::Number(*f),
            V::Str(s) => Json::String(s.clone()),
            V::Arr(a) => Json::Array(a.iter().map(|x| x.to_json()).collect()),
            V::Obj(m) => {
                let mut h: HashMap<String, (Json, LinkedList<Json>)> = HashMap::new();
                for (k, x) in m {
                    let j = x.to_json();
                    match h.get_mut(k) {
                        Some(e) => {
                            let old = std::mem::replace(&mut e.0, j);
                            e.1.push_front(old);
                        }
                        None => { h.insert(k.clone(), (j, LinkedList::new())); }
                    }
                }
                Json::Object(h)
            }
        }
    }

    /// content of a library value; keys in ascending order, duplicates oldest first
    pub fn of(j: &Json) -> V {
        match j {
            Json::Null => V::Null,
            Json::Boolean(b) => V::Bool(*b),
            Json::Number(f) => V::Num(*f),
            Json::String(s) => V::Str(s.clone()),
            Json::Array(a) => V::Arr(a.iter().map(V::of).collect()),
            Json::Object(h) => {
                let mut keys: Vec<&String> = h.keys().collect();
                keys.sort();
                let mut m = Vec::new();
                for k in keys {
                    let (last, earlier) = &h[k];
                    for x in earlier.iter().rev() { m.push((k.clone(), V::of(x))); }
                    m.push((k.clone(), V::of(last)));
                }
                V::Obj(m)
            }
        }
    }

    /// does the library value have exactly this content?
    pub fn same(&self, j: &Json) -> Result<(), String> { self.same_at(j, "$") }

    fn same_at(&self, j: &Json, at: &str) -> Result<(), String> {
        match (self, j) {
            (V::Null, Json::Null) => Ok(()),
            (V::Bool(a), Json::Boolean(b)) if a == b => Ok(()),
            (V::Num(a), Json::Number(b)) if num_same(*a, *b) => Ok(()),
            (V::Str(a), Json::String(b)) if a == b => Ok(()),
            (V::Arr(a), Json::Array(b)) => {
                if a.len() != b.len() { return Err(format!("at {}: array of length {} instead of {}", at, b.len(), a.len())); }
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    if leaf_same(x, y) { continue }
                    x.same_at(y, &format!("{}[{}]", at, i))?;
                }
                Ok(())
            }
            (V::Obj(m), Json::Object(h)) => {
                let mut by: HashMap<&str, Vec<&V>> = HashMap::new();
                for (k, x) in m { by.entry(k).or_default().push(x); }
                if by.len() != h.len() {
                    return Err(format!("at {}: object with {} keys instead of {} ({:?} / {:?})", at, h.len(), by.len(),
                                       clip_keys(h.keys().map(|s| s.as_str())), clip_keys(by.keys().cloned())));
                }
                for (k, xs) in by {
                    let (last, earlier) = match h.get(k) {
                        Some(e) => e,
                        None => return Err(format!("at {}: key {:?} is missing", at, clip(k))),
                    };
                    if earlier.len() + 1 != xs.len() {
                        return Err(format!("at {}: key {:?} has {} values instead of {}", at, clip(k), earlier.len() + 1, xs.len()));
                    }
                    for (i, (x, y)) in xs.iter().zip(earlier.iter().rev().chain(Some(last))).enumerate() {
                        if leaf_same(x, y) { continue }
                        x.same_at(y, &format!("{}[{:?}]#{}", at, clip(k), i))?;
                    }
                }
                Ok(())
            }
            _ => Err(format!("at {}: {} instead of {}", at, show_json(j), show(self))),
        }
    }

    /// same content (reference equality; numbers bit for bit)
    pub fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => num_same(*a, *b),
            (V::Str(a), V::Str(b)) => a == b,
            (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq(y)),
            (V::Obj(a), V::Obj(b)) => {
                if a.len() != b.len() { return false }
                let mut by: HashMap<&str, Vec<&V>> = HashMap::new();
                for (k, x) in a { by.entry(k).or_default().push(x); }
                let mut by2: HashMap<&str, Vec<&V>> = HashMap::new();
                for (k, x) in b { by2.entry(k).or_default().push(x); }
                by.len() == by2.len() && by.iter().all(|(k, xs)| match by2.get(k) {
                    Some(ys) => xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| x.eq(y)),
                    None => false,
                })
            }
            _ => false,
        }
    }

    // ---- reference operations ----

    pub fn step(&self, s: &Step) -> Result<&V, EK> {
        match (s, self) {
            (Step::K(k), V::Obj(m)) => m.iter().rev().find(|x| &x.0 == k).map(|x| &x.1).ok_or(EK::Missing),
            (Step::I(i), V::Arr(a)) => a.get(*i).ok_or(EK::Range),
            _ => Err(EK::Kind),
        }
    }
    pub fn step_mut(&mut self, s: &Step) -> Result<&mut V, EK> {
        match (s, self) {
            (Step::K(k), V::Obj(m)) => m.iter_mut().rev().find(|x| &x.0 == k).map(|x| &mut x.1).ok_or(EK::Missing),
            (Step::I(i), V::Arr(a)) => a.get_mut(*i).ok_or(EK::Range),
            _ => Err(EK::Kind),
        }
    }
    pub fn find(&self, p: &[Step]) -> Result<&V, EK> {
        let mut v = self;
        for s in p { v = v.step(s)?; }
        Ok(v)
    }
    pub fn find_mut(&mut self, p: &[Step]) -> Result<&mut V, EK> {
        let mut v = self;
        for s in p { v = v.step_mut(s)?; }
        Ok(v)
    }
    fn put(&mut self, s: &Step, x: V) {
        match s {
            Step::K(k) => {
                if let V::Obj(m) = self {
                    m.retain(|e| &e.0 != k);
                    m.push((k.clone(), x));
                } else {
                    *self = V::Obj(vec![(k.clone(), x)]);
                }
            }
            Step::I(i) => {
                if !matches!(self, V::Arr(_)) { *self = V::Arr(Vec::new()); }
                if let V::Arr(a) = self {
                    while a.len() <= *i { a.push(V::Null); }
                    a[*i] = x;
                }
            }
        }
    }
    pub fn update(&mut self, p: &[Step], x: V) {
        let mut v = self;
        for s in &p[..p.len() - 1] {
            if v.step(s).is_err() { v.put(s, V::Null); }
            v = v.step_mut(s).unwrap();
        }
        v.put(&p[p.len() - 1], x);
    }
    pub fn discard(&mut self, p: &[Step]) -> Result<V, EK> {
        let (last, init) = p.split_last().unwrap();
        let v = self.find_mut(init)?;
        let old = v.step(last)?.clone();
        match (last, v) {
            (Step::K(k), V::Obj(m)) => m.retain(|e| &e.0 != k),
            (Step::I(i), V::Arr(a)) => { a.remove(*i); }
            _ => unreachable!(),
        }
        Ok(old)
    }
}

fn leaf_same(x: &V, y: &Json) -> bool {
    match (x, y) {
        (V::Null, Json::Null) => true,
        (V::Bool(a), Json::Boolean(b)) => a == b,
        (V::Num(a), Json::Number(b)) => num_same(*a, *b),
        (V::Str(a), Json::String(b)) => a == b,
        _ => false,
    }
}

/// walk in the library's own value with nothing but the public enum
pub fn walk<'a>(j: &'a Json, p: &[Step]) -> Option<&'a Json> {
    let mut j = j;
    for s in p {
        j = match (s, j) {
            (Step::K(k), Json::Object(h)) => &h.get(k)?.0,
            (Step::I(i), Json::Array(a)) => a.get(*i)?,
            _ => return None,
        }
    }
    Some(j)
}

fn clip(s: &str) -> String {
    if s.chars().count() <= 80 { s.to_string() } else { format!("{}...({} bytes)", s.chars().take(60).collect::<String>(), s.len()) }
}
fn clip_keys<'a>(it: impl Iterator<Item = &'a str>) -> Vec<String> {
    let mut v: Vec<String> = it.map(clip).collect();
    v.sort();
    v.truncate(6);
    v
}
pub fn show(v: &V) -> String { clip(&format!("{:?}", v)) }
pub fn show_json(j: &Json) -> String {
    match j {
        Json::Object(h) => format!("object with {} keys", h.len()),
        Json::Array(a) => format!("array of {}", a.len()),
        other => clip(&format!("{:?}", other)),
    }
}
