//! Monitors of encoding, round trips, canonical form, numbers, strings and equality:
//! C03, C04, C05, C21, C22, C30.
use crate::bignum;
use crate::fw::*;
use crate::gen::G;
use crate::model::*;
use crate::reader::{read, read_numbers};
use crate::rng::hash_str;
use crate::text;
use json::{Json, ToJson};

fn fp(v: &V) -> u64 { hash_str(&format!("{:?}", v)) }

/// values of all sizes and shapes: every size for simple shapes, then random ones; numbers may be non-finite when asked
fn value_streams(ctx: &Ctx, n: u64, nonfinite: bool, f: fn(&mut Wk, &V) -> Result<(), String>) -> Vec<Stream> {
    let mut s = Vec::new();
    s.push(stream("values", n, move |w, _| {
        let v = w.g(|g, _| { let mut v = g.doc(); if nonfinite && g.r.chance(1, 4) { spoil(&mut v, g) } v });
        f(w, &v)
    }));
    s.push(stream("big-values", n / 60, move |w, _| {
        let v = w.g(|g, _| g.doc_sized(5000));
        f(w, &v)
    }));
    let sz: Vec<usize> = text::sizes_far(ctx, 200, if ctx.tier == Tier::Mini { 20 } else { 20_000 });
    let m = sz.len() as u64;
    let mut e = exhaustive("sizes", m * 8, move |w, i| {
        let n = sz[(i / 8) as usize];
        let c = w.g(|g, _| g.ch());
        let v = match i % 8 {
            0 => V::Arr((0..n).map(|i| V::Num(i as f64)).collect()),
            1 => V::Obj((0..n).map(|i| (format!("k{}", i * 7919 % n.max(1)), V::Num(i as f64))).collect()),
            2 => V::Obj((0..n).map(|i| ("k".to_string(), V::Num(i as f64))).collect()),
            3 => V::Str("a".repeat(n)),
            4 => V::Str(std::iter::repeat(c).take(n).collect()),
            5 => { let mut v = V::Null; for i in 0..text::levels(n, text::DEEP) { v = if i % 2 == 0 { V::Arr(vec![v]) } else { V::Obj(vec![("k".into(), v)]) } } v }
            6 => V::Obj(vec![(std::iter::repeat(c).take(n).collect(), V::Str(format!("{}{}", "a".repeat(n), c)))]),
            _ => V::Arr((0..n).map(|i| if i % 3 == 0 { V::Arr(vec![]) } else if i % 3 == 1 { V::Obj(vec![]) } else { V::Str(format!("{}{}", i, c)) }).collect()),
        };
        f(w, &v)
    });
    e.chunk = 8;
    s.push(e);
    s
}

/// put non-finite numbers into a value
fn spoil(v: &mut V, g: &mut G) {
    match v {
        V::Num(f) => if g.r.chance(1, 2) { *f = *g.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) },
        V::Arr(a) => for x in a { spoil(x, g) },
        V::Obj(m) => for x in m { spoil(&mut x.1, g) },
        v => if g.r.chance(1, 8) { *v = V::Num(*g.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])) },
    }
}

// ---- C03 ----

fn denotes(w: &mut Wk, v: &V) -> Result<(), String> {
    let j = v.to_json();
    let want = if v.finite() { v.clone() } else { w.count("with_nonfinite"); v.nulled() };
    let t = call(|| j.to_string()).map_err(|e| format!("to_string of {} {}", show(v), e))?;
    w.saw(fp(v));
    w.count_n("bytes_read_back", t.len() as u64);
    w.max("max_depth", v.depth() as u64);
    w.sample(|| t.clone());
    check_text(&t, &want)?;
    let t2 = call(|| json::encode(&j)).map_err(|e| format!("encode of {} {}", show(v), e))?;
    if t2 != t { check_text(&t2, &want)? }
    Ok(())
}
fn check_text(t: &str, want: &V) -> Result<(), String> {
    let got = read(t).map_err(|e| format!("encoded text is not valid JSON ({:?}): {}", e, json_str(&clip(t, 500))))?;
    if !got.eq(want) {
        let d = want.same(&got.to_json()).err().unwrap_or_default();
        return Err(format!("encoded text denotes another value, {}: {}", d, json_str(&clip(t, 500))));
    }
    Ok(())
}

pub fn c03(ctx: &Ctx) -> Vec<Stream> {
    let mut s = value_streams(ctx, ctx.n(40, 150_000, 5_000_000), true, denotes);
    s.push(stream("numbers", ctx.n(40, 300_000, 10_000_000), |w, _| { let f = w.g(|g, _| g.any_num()); denotes(w, &V::Num(f)) }));
    s.push(exhaustive("every-character", ctx.n(0x300, 0x110000, 0x110000), |w, i| {
        match char::from_u32(i as u32) { Some(c) => { let v = if i % 2 == 0 { V::Str(format!("a{}b", c)) } else { V::Obj(vec![(c.to_string(), V::Null)]) }; denotes(w, &v) } None => Ok(()) }
    }));
    // through ToJson implementations
    s.push(stream("encode-types", ctx.n(20, 30_000, 600_000), |w, _| {
        let (v, j) = w.g(|g, _| {
            let n = g.size(60);
            match g.r.below(6) {
                0 => { let x: Vec<f64> = (0..n).map(|_| g.any_num()).collect(); (V::Arr(x.iter().map(|f| V::Num(*f)).collect()), json::encode(&x)) }
                1 => { let x: Vec<String> = (0..n).map(|_| g.string(60)).collect(); (V::Arr(x.iter().map(|f| V::Str(f.clone())).collect()), json::encode(&x)) }
                2 => { let x: Vec<(String, f32)> = (0..n).map(|_| (g.key(), g.any_num() as f32)).collect(); (V::Obj(x.iter().map(|(k, f)| (k.clone(), V::Num(*f as f64))).collect()), json::encode(&x)) }
                3 => { let x: Vec<Option<bool>> = (0..n).map(|_| *g.r.pick(&[None, Some(true), Some(false)])).collect(); (V::Arr(x.iter().map(|b| b.map_or(V::Null, V::Bool)).collect()), json::encode(&x)) }
                4 => { let x: std::collections::HashMap<String, Vec<i64>> = (0..n).map(|_| (g.key(), vec![g.r.next() as i64 >> 11])).collect(); (V::Obj(x.iter().map(|(k, f)| (k.clone(), V::Arr(f.iter().map(|i| V::Num(*i as f64)).collect()))).collect()), json::encode(&x)) }
                _ => { let x = g.string(200); (V::Str(x.clone()), json::encode(x.as_str())) }
            }
        });
        w.saw_str(&j);
        w.count("typed_texts");
        check_text(&j, &v.nulled())
    }));
    s
}

// ---- C04 ----

fn roundtrip(w: &mut Wk, v: &V) -> Result<(), String> {
    let j = v.to_json();
    let t = call(|| j.to_string()).map_err(|e| format!("to_string of {} {}", show(v), e))?;
    w.saw(fp(v));
    w.count_n("bytes", t.len() as u64);
    w.sample(|| t.clone());
    let p = call(|| Json::parse(&t)).map_err(|e| format!("parse of {} {}", json_str(&clip(&t, 300)), e))?
        .map_err(|e| format!("the text of a value does not parse ({}): {}", e, json_str(&clip(&t, 500))))?;
    v.same(&p).map_err(|e| format!("reparsed value differs, {}: {}", e, json_str(&clip(&t, 500))))?;
    let t2 = call(|| p.to_string())?;
    if t2 != t { return Err(format!("text of the reparsed value differs: {} then {}", json_str(&clip(&t, 300)), json_str(&clip(&t2, 300)))); }
    let d: Json = call(|| json::decode(&json::encode(&j)))?.map_err(|e| format!("decode(encode(v)) fails ({}): {}", e, json_str(&clip(&t, 300))))?;
    v.same(&d).map_err(|e| format!("decode(encode(v)) differs, {}: {}", e, json_str(&clip(&t, 300))))
}

fn text_roundtrip(w: &mut Wk, t: &str) -> Result<(), String> {
    let p1 = match call(|| Json::parse(t)) { Ok(Ok(j)) => j, _ => { w.trivial(); return Ok(()) } };
    w.saw_str(t);
    w.count("accepted_texts");
    let v1 = V::of(&p1);
    let s1 = call(|| p1.to_string())?;
    let p2 = call(|| Json::parse(&s1))?.map_err(|e| format!("{} parses, but its text {} does not ({})", json_str(&clip(t, 300)), json_str(&clip(&s1, 300)), e))?;
    v1.same(&p2).map_err(|e| format!("{} -> {} is another value, {}", json_str(&clip(t, 300)), json_str(&clip(&s1, 300)), e))?;
    let s2 = call(|| p2.to_string())?;
    if s1 != s2 { return Err(format!("{} -> {} -> {}", json_str(&clip(t, 200)), json_str(&clip(&s1, 200)), json_str(&clip(&s2, 200)))); }
    Ok(())
}

/// a value made by a history of edits; the library's own content is the reference here
fn edited(w: &mut Wk, _: u64) -> Result<(), String> {
    let j = w.g(|g, _| {
        let v = g.doc_sized(60);
        let mut j = if g.r.chance(1, 2) { v.to_json() } else { Json::parse(&g.render(&v)).unwrap_or(Json::Null) };
        for _ in 0..g.r.range(1, 12) {
            let p = g.path(&v);
            let mut path = match &p[0] { Step::K(k) => json::Path::new(k), Step::I(i) => json::Path::new(i) };
            for s in &p[1..] { match s { Step::K(k) => { path.append(k); } Step::I(i) => { path.append(i); } } }
            let x = { let mut b = 4; g.value(2, &mut b) };
            let _ = call(|| match g.r.below(5) {
                0 | 1 => { let _ = j.update(path, x.to_json()); }
                2 => { let _ = j.discard(path); }
                3 => { let k = g.key(); if let Ok(o) = j.find_mut(path) { let _ = o.append(k, x.to_json()); let _ = o.push(x.to_json()); } }
                _ => { let k = g.key(); let _ = j.append(k.clone(), x.to_json()); let _ = j.append(k, 1); }
            });
        }
        j
    });
    let v = V::of(&j);
    w.count("edited_values");
    let t = call(|| j.to_string())?;
    w.saw(fp(&v));
    let p = call(|| Json::parse(&t))?.map_err(|e| format!("the text of an edited value does not parse ({}): {}", e, json_str(&clip(&t, 500))))?;
    v.same(&p).map_err(|e| format!("reparsed edited value differs, {}: {}", e, json_str(&clip(&t, 500))))
}

pub fn c04(ctx: &Ctx) -> Vec<Stream> {
    let mut s = value_streams(ctx, ctx.n(40, 150_000, 4_000_000), false, roundtrip);
    let mut l = text::load(ctx);
    if ctx.tier == Tier::Quick { l = text::Load { tokens: 3, numbers: 5, strings: 3, chars: 0x3200, docs: 60_000, mutants: 20_000, prefixes: 200, sized_cap: 5_000, small: 70, deep: text::DEEP } }
    for x in text::text_streams(ctx, l, text_roundtrip) { s.push(x) }
    s.push(stream("edited", ctx.n(20, 60_000, 1_500_000), edited));
    s.push(stream("numbers", ctx.n(40, 200_000, 10_000_000), |w, _| { let f = w.g(|g, _| g.num()); roundtrip(w, &V::Num(f)) }));
    s.push(exhaustive("every-character", ctx.n(0x300, 0x110000, 0x110000), |w, i| {
        match char::from_u32(i as u32) { Some(c) => { let v = if i % 2 == 0 { V::Str(format!("{}{}", c, c)) } else { V::Obj(vec![(format!("a{}", c), V::Bool(true))]) }; roundtrip(w, &v) } None => Ok(()) }
    }));
    s
}

// ---- C05 ----

/// reference text in which numbers are '#' and strings are in one fixed spelling
fn skeleton_of(v: &V, out: &mut String) {
    match v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::Num(_) => out.push('#'),
        V::Str(s) => out.push_str(&format!("{:?}", s)),
        V::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { out.push_str(", ") } skeleton_of(x, out) }
            out.push(']');
        }
        V::Obj(m) => {
            let mut idx: Vec<usize> = (0..m.len()).collect();
            idx.sort_by(|a, b| m[*a].0.as_bytes().cmp(m[*b].0.as_bytes())); // stable: duplicates stay in order
            out.push('{');
            for (n, i) in idx.into_iter().enumerate() {
                if n > 0 { out.push_str(", ") }
                out.push_str(&format!("{:?}", m[i].0));
                out.push_str(": ");
                skeleton_of(&m[i].1, out);
            }
            out.push('}');
        }
    }
}
fn numbers_of(v: &V, out: &mut Vec<f64>) {
    match v {
        V::Num(f) => out.push(*f),
        V::Arr(a) => for x in a { numbers_of(x, out) },
        V::Obj(m) => {
            let mut idx: Vec<usize> = (0..m.len()).collect();
            idx.sort_by(|a, b| m[*a].0.as_bytes().cmp(m[*b].0.as_bytes()));
            for i in idx { numbers_of(&m[i].1, out) }
        }
        _ => (),
    }
}
/// the same for an actual text: string and number tokens normalised, everything else kept
fn skeleton_text(t: &str) -> Result<(String, Vec<String>), String> {
    let b = t.as_bytes();
    let mut out = String::new();
    let mut nums = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                let s = i;
                i += 1;
                while i < b.len() && b[i] != b'"' { i += if b[i] == b'\\' { 2 } else { 1 } }
                i += 1;
                match read(t.get(s..i).unwrap_or("")) { Ok(V::Str(x)) => out.push_str(&format!("{:?}", x)), _ => return Err(format!("string token of {} unreadable", json_str(&clip(t, 300)))) }
            }
            b'-' | b'0'..=b'9' => {
                let s = i;
                while i < b.len() && matches!(b[i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') { i += 1 }
                nums.push(t[s..i].to_string());
                out.push('#');
            }
            c => { out.push(c as char); i += 1 }
        }
    }
    Ok((out, nums))
}

fn check_canon(t: &str, v: &V) -> Result<(), String> {
    if let Some(c) = t.bytes().find(|c| !(0x20..0x7f).contains(c)) { return Err(format!("byte {:#x} in the text {}", c, json_str(&clip(t, 300)))); }
    let (sk, nums) = skeleton_text(t)?;
    let mut want = String::new();
    skeleton_of(v, &mut want);
    if sk != want { return Err(format!("text is not in canonical form: {} (expected the shape {})", json_str(&clip(t, 400)), clip(&want, 400))); }
    let mut ns = Vec::new();
    numbers_of(v, &mut ns);
    if ns.len() != nums.len() { return Err(format!("{} numbers instead of {} in {}", nums.len(), ns.len(), json_str(&clip(t, 300)))); }
    for (f, t) in ns.iter().zip(&nums) { canon_num(*f, t)? }
    Ok(())
}
fn canon_num(f: f64, t: &str) -> Result<(), String> {
    if f.fract() == 0.0 && f.abs() <= 9007199254740992.0 {
        let want = (f as i64).to_string();
        if t != want && !(f == 0.0 && t == "-0") { return Err(format!("integer {} is written as {}", want, t)); }
    }
    Ok(())
}

/// builds the content of v in another way
fn rebuild(g: &mut G, v: &V) -> Json {
    match v {
        V::Arr(a) => {
            let mut j = Json::Array(Vec::with_capacity(g.r.below(20)));
            if g.r.chance(1, 3) { let _ = j.push(1); let _ = j.remove(0); }
            for x in a { let y = rebuild(g, x); if let Json::Array(v) = &mut j { v.push(y) } }
            j
        }
        V::Obj(m) => {
            // any order of different keys, the order of each key's own values kept
            let mut keys: Vec<&String> = Vec::new();
            let mut seen = std::collections::HashSet::new();
            for (k, _) in m { if seen.insert(k) { keys.push(k) } }
            let mut order: Vec<&String> = m.iter().map(|x| &x.0).collect();
            g.r.shuffle(&mut order);
            let mut next: std::collections::HashMap<&String, usize> = Default::default();
            let by: std::collections::HashMap<&String, Vec<&V>> = keys.iter().map(|k| (*k, m.iter().filter(|x| x.0 == **k).map(|x| &x.1).collect())).collect();
            let mut h = std::collections::HashMap::with_capacity(g.r.below(200));
            let junk = if g.r.chance(1, 3) { g.r.below(30) } else { 0 };
            for i in 0..junk { h.insert(format!("junk{}", i), (Json::Null, Default::default())); }
            let mut j = Json::Object(h);
            for k in order {
                let i = next.entry(k).or_insert(0);
                let x = by[k][*i];
                *i += 1;
                let y = rebuild(g, x);
                if let Json::Object(h) = &mut j {
                    match h.get_mut(k) {
                        Some(e) => { let old = std::mem::replace(&mut e.0, y); e.1.push_front(old) }
                        None => { h.insert(k.clone(), (y, Default::default())); }
                    }
                }
            }
            if let Json::Object(h) = &mut j {
                for i in 0..junk { let k = format!("junk{}", i); if !by.contains_key(&k) { h.remove(&k); } }
                if g.r.chance(1, 4) { h.shrink_to_fit() }
            }
            j
        }
        v => v.to_json(),
    }
}

fn canonical(w: &mut Wk, v: &V) -> Result<(), String> {
    let j = v.to_json();
    let t = call(|| j.to_string()).map_err(|e| format!("to_string of {} {}", show(v), e))?;
    w.saw(fp(v));
    w.sample(|| t.clone());
    check_canon(&t, v)?;
    let n = if v.nodes() > 400 { 1 } else { 3 };
    for k in 0..n {
        let j2 = w.g(|g, _| match k { 0 => j.clone(), _ => rebuild(g, v) });
        if v.same(&j2).is_err() { return Err(format!("a {} of the value has another content: {}", if k == 0 { "clone" } else { "HARNESS rebuild" }, show(v))); }
        let t2 = call(|| json::encode(&j2))?;
        w.count("builds_compared");
        if t2 != t { return Err(format!("equal values, different texts: {} and {}", json_str(&clip(&t, 300)), json_str(&clip(&t2, 300)))); }
    }
    if let Ok(Ok(p)) = call(|| Json::parse(&t)) { let t3 = call(|| p.to_string())?; if v.same(&p).is_ok() && t3 != t { return Err(format!("equal values, different texts after reparsing: {} and {}", json_str(&clip(&t, 300)), json_str(&clip(&t3, 300)))); } }
    Ok(())
}

pub fn c05(ctx: &Ctx) -> Vec<Stream> {
    let mut s = value_streams(ctx, ctx.n(40, 80_000, 2_500_000), false, canonical);
    s.push(stream("many-keys", ctx.n(10, 20_000, 400_000), |w, _| {
        let v = w.g(|g, _| { let n = g.size(300).max(2); V::Obj((0..n).map(|i| (match g.r.below(4) { 0 => g.string(12), 1 => format!("{}", i), 2 => format!("k{:03}", g.r.below(500)), _ => { let c = g.ch(); format!("{}{}", c, g.ch()) } }, V::Num(i as f64))).collect()) });
        canonical(w, &v)
    }));
    // equal content reached by the editing API: the text must be that of the content
    s.push(stream("edit-histories", ctx.n(20, 40_000, 800_000), |w, _| {
        let j = w.g(|g, _| {
            let mut j = if g.r.chance(1, 2) { json::object! {} } else { g.doc_sized(30).to_json() };
            for _ in 0..g.r.range(1, 20) {
                let k = g.key();
                let x = { let mut b = 3; g.value(1, &mut b).to_json() };
                let _ = call(|| match g.r.below(6) { 0 => j.insert(k, x), 1 | 2 => j.append(k, x), 3 => j.delete(&k), 4 => j.push(x), _ => j.replace(g.r.below(3), x) });
            }
            j
        });
        let v = V::of(&j);
        let t = call(|| j.to_string())?;
        w.saw(fp(&v));
        w.count("edited_values");
        check_canon(&t, &v)?;
        let t2 = call(|| v.to_json().to_string())?;
        if t != t2 { return Err(format!("equal values, different texts: {} and {}", json_str(&clip(&t, 300)), json_str(&clip(&t2, 300)))); }
        Ok(())
    }));
    // the same content added by the operations of the library and read from a text: duplicates stand in insertion order
    s.push(stream("added-and-parsed", ctx.n(20, 40_000, 800_000), |w, _| {
        fn add(v: &V, how: &mut u64) -> Json {
            *how = how.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            match v {
                V::Arr(a) => { let mut j = json::array![]; for x in a { let y = add(x, how); let _ = j.push(y); } j }
                V::Obj(m) => match *how >> 62 {
                    0 => m.iter().map(|(k, x)| (k.clone(), add(x, how))).collect::<Vec<_>>().to_json(),
                    1 => m.iter().map(|(k, x)| (k.as_str(), add(x, how))).collect::<Vec<_>>()[..].as_ref().to_json(),
                    _ => { let mut j = json::object! {}; for (k, x) in m { let y = add(x, how); let _ = j.append(k, y); } j }
                },
                v => v.to_json(),
            }
        }
        let (v, t, mut how) = w.g(|g, _| {
            let v = if g.r.chance(1, 3) { let n = g.size(400).max(2); let ks: Vec<String> = (0..g.r.range(1, 4)).map(|_| g.key()).collect(); V::Obj((0..n).map(|i| (g.r.pick(&ks).clone(), V::Num(i as f64))).collect()) } else { g.doc_sized(60) };
            let t = g.render(&v);
            (v, t, g.r.next())
        });
        w.saw(fp(&v));
        w.count("added_values");
        let a = call(|| add(&v, &mut how).to_string()).map_err(|e| format!("adding {} {}", show(&v), e))?;
        check_canon(&a, &v).map_err(|e| format!("added member by member: {}", e))?;
        if let Ok(p) = call(|| Json::parse(&t))? { check_canon(&call(|| p.to_string())?, &v).map_err(|e| format!("parsed from {}: {}", json_str(&clip(&t, 200)), e))?; }
        Ok(())
    }));
    s.push(stream("integers", ctx.n(40, 400_000, 8_000_000), |w, i| {
        let f = w.g(|g, _| if i < 100_000 { i as f64 } else { let k = g.r.below(54); let f = (g.r.next() >> (63 - k.min(53))) as f64; let f = if f > 9007199254740992.0 { 9007199254740992.0 } else { f }; if g.r.chance(1, 2) { -f } else { f } });
        let t = call(|| Json::Number(f).to_string())?;
        w.saw(f.to_bits());
        canon_num(f, &t)
    }));
    s.push(exhaustive("every-character", ctx.n(0x300, 0x110000, 0x110000), |w, i| {
        match char::from_u32(i as u32) {
            Some(c) => {
                let v = if i % 2 == 0 { V::Str(c.to_string()) } else { V::Obj(vec![(c.to_string(), V::Null), ("m".into(), V::Null)]) };
                let t = call(|| v.to_json().to_string())?;
                w.saw(i);
                check_canon(&t, &v)
            }
            None => Ok(()),
        }
    }));
    s
}

// ---- C21 ----

fn number_in(w: &mut Wk, t: &str) -> Result<(), String> {
    let want = bignum::nearest(t);
    w.saw_str(t);
    w.sample(|| t.to_string());
    let got = call(|| Json::parse(t)).map_err(|e| format!("parse({}) {}", clip(t, 200), e))?;
    match got {
        Ok(Json::Number(f)) => {
            w.count("numbers_read");
            if want.is_infinite() { return Err(format!("{} is read as {:e} but is beyond the largest double", clip(t, 200), f)); }
            if f.to_bits() != want.to_bits() { return Err(format!("{} is read as {:e} ({:#x}), the nearest double is {:e} ({:#x})", clip(t, 200), f, f.to_bits(), want, want.to_bits())); }
        }
        Ok(_) => return Err(format!("{} is not read as a number", clip(t, 200))),
        Err(_) => { w.count("rejected_as_too_large"); if want.is_finite() { return Err(format!("{} is rejected, its nearest double is {:e}", clip(t, 200), want)); } }
    }
    // inside a container, other characters follow
    let t2 = format!("[{}, {{\"k\":{}}}]", t, t);
    if want.is_finite() {
        let j = call(|| Json::parse(&t2))?.map_err(|e| format!("{} is rejected: {}", clip(&t2, 200), e))?;
        V::Arr(vec![V::Num(want), V::Obj(vec![("k".into(), V::Num(want))])]).same(&j).map_err(|e| format!("{}: {}", clip(&t2, 200), e))?;
    }
    Ok(())
}
fn number_out(w: &mut Wk, f: f64) -> Result<(), String> {
    let t = call(|| Json::Number(f).to_string())?;
    w.saw(f.to_bits());
    w.count("numbers_written");
    w.sample(|| t.clone());
    let (r, pos) = read_numbers(&t);
    if r.is_err() || pos != vec![(0, t.len())] { return Err(format!("{:e} is written as {}", f, clip(&t, 200))); }
    let back = bignum::nearest(&t);
    if back.to_bits() != f.to_bits() { return Err(format!("{:e} ({:#x}) is written as {} which denotes {:e}", f, f.to_bits(), clip(&t, 200), back)); }
    match call(|| Json::parse(&t))? {
        Ok(Json::Number(g)) if g.to_bits() == f.to_bits() => Ok(()),
        o => Err(format!("{:e} is written as {} and read back as {:?}", f, clip(&t, 200), o.map(|j| show_json(&j)).map_err(|e| e.to_string()))),
    }
}

pub fn c21(ctx: &Ctx) -> Vec<Stream> {
    let cap = if ctx.tier == Tier::Mini { 30 } else { 2000 };
    let sz = text::sizes(ctx, 400.min(cap), cap);
    let m = sz.len() as u64;
    let mut s = vec![
        stream("read", ctx.n(30, 250_000, 8_000_000), |w, _| { let t = w.g(|g, _| g.number_text()); number_in(w, &t) }),
        stream("written", ctx.n(40, 300_000, 10_000_000), |w, _| { let f = w.g(|g, _| g.num()); number_out(w, f) }),
        stream("any-bits", ctx.n(40, 300_000, 10_000_000), |w, _| { let f = f64::from_bits(w.rng.next()); if f.is_finite() { number_out(w, f) } else { Ok(()) } }),
        exhaustive("small-integers", ctx.n(100, 200_000, 3_000_000), |w, i| { number_out(w, i as f64)?; number_out(w, -(i as f64))?; number_out(w, i as f64 / 8.0)?; if i % 8 == 0 { number_in(w, &i.to_string())?; number_in(w, &format!("-{}.50e1", i))? } Ok(()) }),
        exhaustive("powers", 2200, |w, i| {
            if i < 2100 {
                let e = i as i64 - 1074;
                if e < 1024 { let f = if e < -1022 { f64::from_bits(1 << (e + 1074)) } else { f64::from_bits(((e + 1023) as u64) << 52) }; number_out(w, f)?; number_out(w, -f)?; number_out(w, f64::from_bits(f.to_bits() - 1))?; if w.ctx.tier != Tier::Mini || i % 100 == 0 { number_in(w, &bignum::exact_mid(f.to_bits()))?; number_in(w, &bignum::exact_mid(f.to_bits() - 1))?; } }
            }
            let e = i as i64 - 1100;
            for d in ["1", "5", "9", "12345678901234567", "18014398509481985", "9007199254740993"] { number_in(w, &format!("{}e{}", d, e))?; }
            Ok(())
        }),
    ];
    let mut e = exhaustive("lengths", m * 8, move |w, i| {
        let n = sz[(i / 8) as usize];
        let t = match i % 8 {
            0 => "7".repeat(n.max(1)),
            1 => format!("0.{}123", "0".repeat(n)),
            2 => format!("1{}", "0".repeat(n)),
            3 => format!("-1.{}", "3".repeat(n.max(1))),
            4 => format!("9007199254740993{}e-{}", "0".repeat(n), n),
            5 => format!("9007199254740992.5{}1", "0".repeat(n)),
            6 => format!("1e{}{}", "0".repeat(n), n % 300),
            _ => format!("0.{}{}e{}", "0".repeat(n), "49406564584124654", n),
        };
        number_in(w, &t)
    });
    e.chunk = 8;
    s.push(e);
    for x in s.iter_mut() { if x.name == "powers" { x.chunk = 8; if ctx.tier == Tier::Mini { x.n = 20 } } }
    s
}

// ---- C22 ----

fn string_out(w: &mut Wk, s: &str) -> Result<(), String> {
    w.saw_str(s);
    let t = call(|| Json::String(s.to_string()).to_string()).map_err(|e| format!("to_string of {:?} {}", clip(s, 60), e))?;
    match call(|| Json::parse(&t))? { Ok(Json::String(x)) if x == s => (), o => return Err(format!("string {} is written as {} and read back as {:?}", json_str(&clip(s, 100)), json_str(&clip(&t, 200)), o.map(|j| show_json(&j)).map_err(|e| e.to_string()))) }
    let k = format!("{{{}: 1}}", t);
    match call(|| Json::parse(&k))? {
        Ok(j) => V::Obj(vec![(s.to_string(), V::Num(1.0))]).same(&j).map_err(|e| format!("key {}: {}", json_str(&clip(s, 100)), e))?,
        Err(e) => return Err(format!("{} is rejected: {}", json_str(&clip(&k, 200)), e)),
    }
    let kt = call(|| V::Obj(vec![(s.to_string(), V::Null)]).to_json().to_string())?;
    match call(|| Json::parse(&kt))? {
        Ok(j) => V::Obj(vec![(s.to_string(), V::Null)]).same(&j).map_err(|e| format!("key {} written as {}: {}", json_str(&clip(s, 100)), json_str(&clip(&kt, 200)), e)),
        Err(e) => Err(format!("key {} is written as {} which is rejected: {}", json_str(&clip(s, 100)), json_str(&clip(&kt, 200)), e)),
    }
}
fn string_in(w: &mut Wk, t: &str, want: Option<&str>) -> Result<(), String> {
    w.saw_str(t);
    match (call(|| Json::parse(t)).map_err(|e| format!("parse({}) {}", json_str(&clip(t, 200)), e))?, want) {
        (Ok(Json::String(x)), Some(s)) if x == s => Ok(()),
        (Err(_), None) => Ok(()),
        (o, _) => Err(format!("{} is read as {} instead of {:?}", json_str(&clip(t, 200)), match o { Ok(j) => clip(&show_json(&j), 100), Err(e) => format!("error {}", e) }, want.map(|s| clip(s, 60)))),
    }
}

pub fn c22(ctx: &Ctx) -> Vec<Stream> {
    let thorough = ctx.tier == Tier::Thorough;
    let mut s = vec![
        exhaustive("every-character", ctx.n(0x300, 0x110000, 0x110000), |w, i| {
            let c = match char::from_u32(i as u32) { Some(c) => c, None => return Ok(()) };
            w.count("characters");
            string_out(w, &c.to_string())?;
            let raw_ok = c >= ' ' && c != '"' && c != '\\';
            string_in(w, &format!("\"{}\"", c), if raw_ok { Some(c.to_string()) } else { None }.as_deref())?;
            if raw_ok { string_in(w, &format!("\"x{}{}y\"", c, c), Some(&format!("x{}{}y", c, c)))? }
            // as a short escape
            let short = match c { '"' => Some("\""), '\\' => Some("\\"), '/' => Some("/"), 'b' => Some("\u{8}"), 'f' => Some("\u{c}"), 'n' => Some("\n"), 'r' => Some("\r"), 't' => Some("\t"), _ => None };
            string_in(w, &format!("\"\\{}\"", c), short)?;
            // as a digit of an escape
            if !c.is_ascii_hexdigit() && (i < 0x3000 || i % 97 == 0) {
                for t in [format!("\"\\u{}041\"", c), format!("\"\\u0{}41\"", c), format!("\"\\u00{}1\"", c), format!("\"\\u004{}\"", c), format!("\"\\ud83d\\udc9{}\"", c), format!("\"\\ud83d\\u{}c96\"", c), format!("\"\\ud83d{}udc96\"", c)] { if c != '\\' || !t.contains("\\ud83d\\udc96") { string_in(w, &t, None)?; } }
            }
            Ok(())
        }),
        exhaustive("every-escape", ctx.n(0x200, 0x10000, 0x10000), |w, i| {
            let c = char::from_u32(i as u32).map(|c| c.to_string());
            let c = c.as_deref();
            w.count("escapes");
            string_in(w, &format!("\"\\u{:04x}\"", i), c)?;
            string_in(w, &format!("\"\\u{:04X}\"", i), c)?;
            let mixed: String = format!("{:04x}", i).chars().enumerate().map(|(k, c)| if k % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            string_in(w, &format!("\"a\\u{}b\"", mixed), c.map(|c| format!("a{}b", c)).as_deref())?;
            string_in(w, &format!("\"\\u{:03x}\"", i & 0xfff), None)?;
            let d = c.map(|c| format!("{}{}", c, c));
            string_in(w, &format!("\"\\u{:04x}\\u{:04X}\"", i, i), d.as_deref())?;
            // every high and every low half with a partner that is one, in its first and last place
            for h in [0xd800u64, 0xd83d, 0xdbff] {
                let want = if (0xdc00..0xe000).contains(&i) { char::from_u32((0x10000 + ((h - 0xd800) << 10) + (i - 0xdc00)) as u32).map(|c| c.to_string()) } else { None };
                string_in(w, &format!("\"\\u{:04x}\\u{:04X}\"", h, i), want.as_deref())?;
            }
            for l in [0xdc00u64, 0xdfff] {
                let want = if (0xd800..0xdc00).contains(&i) { char::from_u32((0x10000 + ((i - 0xd800) << 10) + (l - 0xdc00)) as u32).map(|c| c.to_string()) } else { None };
                string_in(w, &format!("\"\\u{:04X}\\u{:04x}\"", i, l), want.as_deref())?;
            }
            Ok(())
        }),
        exhaustive("surrogate-pairs", ctx.n(100, 1 << 20, 1 << 20), |w, i| {
            let (h, l) = (0xd800 + (i >> 10), 0xdc00 + (i & 0x3ff));
            let c = char::from_u32(0x10000 + i as u32).unwrap();
            w.count("pairs");
            string_in(w, &format!("\"\\u{:04X}\\u{:04x}\"", h, l), Some(&c.to_string()))?;
            if i % 64 == 5 {
                string_in(w, &format!("\"\\u{:04x}{}\\u{:04x}\"", h, c, l), None)?;
                string_in(w, &format!("\"\\u{:04x}\\u{:04x}\"", l, h), None)?;
                string_in(w, &format!("\"\\u{:04x}\\u{:04x}\"", h, h), None)?;
                string_in(w, &format!("\"\\u{:04x}\"", h), None)?;
                string_in(w, &format!("\"\\u{:04x}\"", l), None)?;
                string_in(w, &format!("\"\\u{:04x}\\n\"", h), None)?;
                let cc = format!("{}{}\\u{:04x}", c, c, l);
                string_in(w, &format!("\"{}\"", cc), None)?;
                string_in(w, &format!("\"\\u{:04X}\\u{:04x}\\u{:04X}\\u{:04x}\"", h, l, h, l), Some(&format!("{}{}", c, c)))?;
            }
            Ok(())
        }),
        stream("strings", ctx.n(40, 400_000, 10_000_000), |w, _| { let s = w.g(|g, _| g.string(400)); w.sample(|| s.clone()); string_out(w, &s) }),
        stream("spellings", ctx.n(40, 300_000, 8_000_000), |w, _| {
            let (s, t) = w.g(|g, _| { let s = g.string(300); let e = g.r.below(5); let mut t = String::new(); g.render_str(&s, e, &mut t); (s, t) });
            w.sample(|| t.clone());
            string_in(w, &t, Some(&s))
        }),
        stream("broken", ctx.n(40, 200_000, 5_000_000), |w, _| {
            let t = w.g(|g, _| { let s = g.string(30); let e = g.r.below(5); let mut t = String::new(); g.render_str(&s, e, &mut t); g.mutate(&t) });
            if !t.starts_with('"') { return Ok(()) }
            match read(&t) { Ok(V::Str(s)) => string_in(w, &t, Some(&s)), Ok(_) => Ok(()), Err(_) => string_in(w, &t, None) }
        }),
    ];
    let cap = if ctx.tier == Tier::Mini { 20 } else if thorough { 200_000 } else { 20_000 };
    let sz = text::sizes_far(ctx, 300.min(cap), cap);
    let m = sz.len() as u64;
    const FILL: &[&str] = &["a", "é", "€", "💖", "\n", "\"", "\u{1}", "\u{ffff}", "a\u{10ffff}"];
    let mut e = exhaustive("lengths", m * FILL.len() as u64, move |w, i| {
        let n = sz[(i / FILL.len() as u64) as usize];
        let f = FILL[(i % FILL.len() as u64) as usize];
        let s = f.repeat(n);
        string_out(w, &s)?;
        let c = w.g(|g, _| g.ch());
        string_out(w, &format!("{}{}", s, c))
    });
    e.chunk = 4;
    s.push(e);
    // long strings in which every character comes to stand across every boundary a buffer may have
    let long = match ctx.tier { Tier::Mini => 100, Tier::Quick => 70_000, Tier::Thorough => 1_100_000 };
    const UNITS: &[&str] = &["é", "€", "💖", "a€", "\n", "\"", "\u{1}", "💖é", "/b", "a\u{10ffff}\\"];
    let mut e = exhaustive("straddling", UNITS.len() as u64 * 13, move |w, i| {
        let (u, p) = (UNITS[(i as usize) % UNITS.len()], i as usize / UNITS.len());
        let s = format!("{}{}", "x".repeat(p), u.repeat(long / u.len()));
        let mut t = String::from("\"");
        for c in s.chars() { match c { '"' | '\\' => { t.push('\\'); t.push(c) } c if c < ' ' => t.push_str(&format!("\\u{:04x}", c as u32)), c => t.push(c) } }
        t.push('"');
        string_in(w, &t, Some(&s))?;
        string_out(w, &s)
    });
    e.chunk = 1;
    s.push(e);
    // all pairs of interesting neighbours
    const NB: &[char] = &['"', '\\', '/', 'u', 'n', '\u{0}', '\u{8}', '\n', '\u{1f}', ' ', '~', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'd', '8', '0'];
    let k = NB.len() as u64;
    s.push(exhaustive("neighbours", k * k * k, move |w, i| {
        let t: String = [NB[(i % k) as usize], NB[(i / k % k) as usize], NB[(i / k / k) as usize]].iter().collect();
        string_out(w, &t)?;
        for esc in 1..3 { let r = w.g(|g, _| { let mut o = String::new(); g.render_str(&t, esc, &mut o); o }); string_in(w, &r, Some(&t))? }
        Ok(())
    }));
    s
}

// ---- C30 ----

fn num_eq(a: f64, b: f64) -> bool { a == b }
fn ref_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Num(x), V::Num(y)) => num_eq(*x, *y),
        (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| ref_eq(p, q)),
        (V::Obj(x), V::Obj(y)) => {
            if x.len() != y.len() { return false }
            let mut ia: Vec<usize> = (0..x.len()).collect();
            let mut ib: Vec<usize> = (0..y.len()).collect();
            ia.sort_by(|i, j| x[*i].0.cmp(&x[*j].0));
            ib.sort_by(|i, j| y[*i].0.cmp(&y[*j].0));
            ia.iter().zip(&ib).all(|(i, j)| x[*i].0 == y[*j].0 && ref_eq(&x[*i].1, &y[*j].1))
        }
        (V::Null, V::Null) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Str(x), V::Str(y)) => x == y,
        _ => false,
    }
}

/// one small change somewhere
fn tweak(g: &mut G, v: &mut V) {
    match v {
        V::Arr(a) if !a.is_empty() && g.r.chance(3, 4) => {
            let i = if g.r.chance(1, 3) { a.len() - 1 } else { g.r.below(a.len()) };
            match g.r.below(6) { 0 => { a.remove(i); } 1 => { let x = a[i].clone(); a.insert(i, x) } 2 => { let j = g.r.below(a.len()); a.swap(i, j) } _ => tweak(g, &mut a[i]) }
        }
        V::Obj(m) if !m.is_empty() && g.r.chance(3, 4) => {
            let i = if g.r.chance(1, 3) { m.len() - 1 } else { g.r.below(m.len()) };
            match g.r.below(8) {
                0 => { m.remove(i); }
                1 => { let x = m[i].clone(); m.push(x) }
                2 => { let j = g.r.below(m.len()); m.swap(i, j) } // equal unless same key
                3 => m[i].0.push(g.ch()),
                4 => { m[i].0.pop(); }
                5 => { let j = g.r.below(m.len()); let x = m[j].1.clone(); m[i].1 = x }
                _ => tweak(g, &mut m[i].1),
            }
        }
        V::Arr(a) => { if g.r.chance(1, 2) { a.push(V::Null) } else { *v = V::Obj(vec![]) } }
        V::Obj(m) => { if g.r.chance(1, 2) { m.push((g.key(), V::Null)) } else { *v = V::Arr(vec![]) } }
        V::Num(f) => *v = match g.r.below(6) { 0 => V::Num(-*f), 1 => V::Num(f64::from_bits(f.to_bits() ^ 1)), 2 => V::Str(f.to_string()), 3 => V::Bool(*f == 1.0), 4 => V::Null, _ => V::Num(f64::NAN) },
        V::Str(s) => match g.r.below(5) {
            0 => s.push(g.ch()),
            1 => { s.pop(); }
            2 => { let u = s.to_uppercase(); *s = u }
            3 => { let mut c: Vec<char> = s.chars().collect(); if !c.is_empty() { let i = g.r.below(c.len()); c[i] = g.ch(); } *s = c.into_iter().collect() }
            _ => *v = if s.is_empty() { V::Null } else { V::Arr(vec![V::Str(s.clone())]) },
        },
        V::Bool(b) => *v = match g.r.below(3) { 0 => V::Bool(!*b), 1 => V::Num(*b as u8 as f64), _ => V::Null },
        V::Null => *v = match g.r.below(4) { 0 => V::Bool(false), 1 => V::Num(0.0), 2 => V::Str(String::new()), _ => V::Arr(vec![]) },
    }
}

fn compare(w: &mut Wk, a: &V, b: &V, ja: &Json, jb: &Json) -> Result<(), String> {
    let want = ref_eq(a, b);
    w.saw(fp(a) ^ fp(b).rotate_left(1));
    w.count(if want { "equal_pairs" } else { "different_pairs" });
    for (x, y) in [(ja, jb), (jb, ja)] {
        let got = call(|| x == y)?;
        let ne = call(|| x != y)?;
        if got != want || ne == want { return Err(format!("== is {} and != is {} on {} and {}", got, ne, show(a), show(b))); }
    }
    Ok(())
}

pub fn c30(ctx: &Ctx) -> Vec<Stream> {
    vec![
        stream("near-pairs", ctx.n(40, 200_000, 5_000_000), |w, _| {
            let (a, b, jb) = w.g(|g, _| {
                let cap = if g.r.chance(1, 10) { 300 } else { 40 };
                let a = g.doc_sized(cap);
                let mut b = a.clone();
                for _ in 0..g.r.below(3) { tweak(g, &mut b) }
                let jb = if g.r.chance(1, 2) { rebuild(g, &b) } else { b.to_json() };
                (a, b, jb)
            });
            w.sample(|| format!("{:?} / {:?}", a, b));
            compare(w, &a, &b, &a.to_json(), &jb)
        }),
        stream("rebuilt", ctx.n(40, 60_000, 1_500_000), |w, _| {
            let (a, j1, j2) = w.g(|g, _| { let a = g.doc(); let x = rebuild(g, &a); let y = rebuild(g, &a); (a, x, y) });
            compare(w, &a, &a, &j1, &j2)
        }),
        stream("any-pairs", ctx.n(40, 200_000, 4_000_000), |w, _| {
            let (a, b) = w.g(|g, _| { let mut n = 4; let a = g.value(2, &mut n); let mut n = 4; (a, g.value(2, &mut n)) });
            compare(w, &a, &b, &a.to_json(), &b.to_json())
        }),
        stream("clones", ctx.n(40, 100_000, 3_000_000), |w, _| {
            let a = w.g(|g, _| { let cap = if g.r.chance(1, 10) { 2000 } else { 80 }; g.doc_sized(cap) });
            let j = a.to_json();
            let mut c = call(|| j.clone()).map_err(|e| format!("clone of {} {}", show(&a), e))?;
            w.saw(fp(&a));
            w.count("clones");
            a.same(&c).map_err(|e| format!("clone differs: {}", e))?;
            if call(|| c == j)? != ref_eq(&a, &a) { return Err(format!("a clone is not equal to its original: {}", show(&a))); }
            let k = call(|| (j.to_json(), json::FromJson::from_json(&j)))?;
            a.same(&k.0).map_err(|e| format!("to_json of a Json differs: {}", e))?;
            let k1: Json = k.1.map_err(|e| format!("from_json to Json fails: {}", e))?;
            a.same(&k1).map_err(|e| format!("from_json to Json differs: {}", e))?;
            // change the clone everywhere, the original stays
            scribble(&mut c);
            a.same(&j).map_err(|e| format!("changing a clone changed the original: {}", e))?;
            let mut j = j;
            let c2 = call(|| j.clone())?;
            scribble(&mut j);
            drop(j);
            a.same(&c2).map_err(|e| format!("changing the original changed its clone: {}", e))
        }),
    ]
}

fn scribble(j: &mut Json) {
    match j {
        Json::Array(a) => { for x in a.iter_mut() { scribble(x) } a.push(Json::Null); }
        Json::Object(m) => { for (x, l) in m.values_mut() { scribble(x); for y in l.iter_mut() { scribble(y) } l.push_front(Json::Null); } m.insert("scribble".into(), (Json::Null, Default::default())); }
        Json::String(s) => { s.clear(); s.push_str("scribbled"); }
        j => *j = Json::Number(-12345.0),
    }
}
