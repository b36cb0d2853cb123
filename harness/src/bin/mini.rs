//! The workload of the slow instruments (Miri, valgrind, thread sanitizer): reads prepared cases
//! (a text, a path, a second text) and puts each through the whole API, on one thread and on several.
//! The oracle is the instrument; what is computed here only serves to touch every byte.
use json::{Json, Path, ToJson};
use std::collections::HashMap;
use std::io::Read;
use std::time::Instant;

fn touch(j: &Json, n: &mut usize) {
    match j {
        Json::String(s) => *n += std::str::from_utf8(s.as_bytes()).expect("UTF-8").chars().count(),
        Json::Array(a) => a.iter().for_each(|x| touch(x, n)),
        Json::Object(h) => for (k, (x, l)) in h { *n += std::str::from_utf8(k.as_bytes()).expect("UTF-8").chars().count(); touch(x, n); l.iter().for_each(|x| touch(x, n)) },
        Json::Number(x) => *n += x.to_bits() as usize & 1,
        _ => *n += 1,
    }
}
fn err<T>(r: Result<T, json::Error>, n: &mut usize) -> Option<T> {
    match r { Ok(x) => { *n += 1; Some(x) } Err(e) => { let s = e.to_string(); std::str::from_utf8(s.as_bytes()).expect("UTF-8"); *n += s.starts_with("Convert") as usize; None } }
}

fn one(t: &str, p: &str, u: &str, k: usize) -> usize {
    let mut n = 0;
    let w = err(Json::parse(u), &mut n).unwrap_or(Json::Null);
    let j = match err(Json::parse(t), &mut n) { Some(j) => j, None => { err(json::get::<Json>(t, p), &mut n); return n } };
    touch(&j, &mut n);
    let s = j.to_string();
    n += std::str::from_utf8(s.as_bytes()).expect("UTF-8").len();
    let mut c = j.clone();
    n += (c == j) as usize;
    n += (c == w) as usize;
    match k % 6 {
        0 => { err(json::get::<Json>(t, p), &mut n); err(json::set(t, p, w.clone()), &mut n); }
        1 => { err(json::del(t, p), &mut n); err(json::get::<String>(t, p), &mut n); }
        2 => { err(json::decode::<Vec<Option<f64>>>(t), &mut n); err(json::decode::<HashMap<String, Json>>(t), &mut n); }
        3 => { err(json::decode::<Vec<(String, Json)>>(t), &mut n); err(json::decode::<HashMap<i32, Option<String>>>(t), &mut n); err(json::decode::<String>(t), &mut n); }
        4 => { err(json::decode::<Vec<Vec<u8>>>(t), &mut n); err(j.convert::<Option<f32>>(), &mut n); n += t.to_string().to_json().to_string().len(); }
        _ => { n += vec![Some(1u8), None].to_json().to_string().len() + vec![("a", 1.5)].to_json().to_string().len(); }
    }
    if let Some(x) = err(c.get(p), &mut n) { touch(x, &mut n) }
    if let Some(x) = err(c.set(p, w.clone()), &mut n) { *x = Json::String("written".into()); }
    err(c.append("k", w.clone()), &mut n);
    err(c.append("k", 2), &mut n);
    err(c.insert("k", u), &mut n);
    err(c.push(w.clone()), &mut n);
    err(c.replace(k % 3, u), &mut n);
    err(c.find(Path::new("k")).map(|x| touch(x, &mut 0)), &mut n);
    err(c.find_mut(Path::new(0)).map(|x| *x = Json::Null), &mut n);
    n += c.to_string().len();
    err(c.del(p), &mut n);
    err(c.delete("k"), &mut n);
    err(c.remove(k % 2), &mut n);
    err(c.update(Path::new("z"), w), &mut n);
    touch(&c, &mut n);
    n + c.to_string().len() + (c != j) as usize
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (file, start, step, budget, threads): (&str, usize, usize, f64, usize) = (&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    // small reads: the interpreter pays for the size of every buffer that is borrowed from
    let mut f = std::fs::File::open(file).unwrap();
    let mut part = |n: usize| -> Option<Vec<u8>> { let mut b = vec![0; n]; f.read_exact(&mut b).ok().map(|_| b) };
    let t0 = Instant::now();
    let (mut k, mut done, mut sum, mut conc) = (0, 0u64, 0usize, 0u64);
    while let Some(h) = part(12) {
        let l: Vec<usize> = (0..3).map(|x| u32::from_le_bytes([h[4 * x], h[4 * x + 1], h[4 * x + 2], h[4 * x + 3]]) as usize).collect();
        let mut s = |n: usize| String::from_utf8(part(n).unwrap()).unwrap();
        let (t, p, u) = (s(l[0]), s(l[1]), s(l[2]));
        let (t, p, u) = (t.as_str(), p.as_str(), u.as_str());
        k += 1;
        if k % step != start { continue }
        if t0.elapsed().as_secs_f64() > budget { break }
        if std::env::var_os("MINI_TRACE").is_some() { eprintln!("case {} {:?} {:?} {:?}", k, t, p, u) }
        let r = one(t, p, u, k);
        sum = sum.wrapping_add(r);
        done += 1;
        if threads > 1 {
            // the same calls side by side, and one value read by all of them
            let shared = Json::parse(t).ok();
            let want = shared.as_ref().map(|j| j.to_string());
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..threads).map(|_| sc.spawn(|| {
                    let mut n = 0;
                    if let Some(j) = &shared {
                        touch(j, &mut n);
                        if Some(j.to_string()) != want { println!("MINI-DIFFERS case {} read by several threads", k) }
                        if let Ok(x) = j.find(Path::new(0)) { touch(x, &mut n) }
                        n += j.clone().to_string().len();
                    }
                    if one(t, p, u, k) != r { println!("MINI-DIFFERS case {} on several threads", k) }
                    n
                })).collect();
                for h in hs { sum = sum.wrapping_add(h.join().unwrap()) }
            });
            conc += threads as u64;
        }
    }
    println!("MINI-DONE cases={} concurrent={} sum={} wall={:.1}", done, conc, sum, t0.elapsed().as_secs_f64());
}
