//! C14: the macros against the calls they stand for, with every argument expression observed.
use crate::fw::*;
use crate::model::*;
use crate::ops::typed;
use json::{array, discard, find, object, path, update, Json, ToJson};
use std::cell::RefCell;

thread_local! { static LOG: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) }; }
/// an argument expression with a visible evaluation
fn t<T>(i: usize, x: T) -> T { LOG.with(|l| l.borrow_mut().push(i)); x }
fn took() -> Vec<usize> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

struct Env { keys: Vec<String>, xs: Vec<V> }
fn env(w: &mut Wk, n: usize) -> Env {
    w.g(|g, _| {
        let pool: Vec<String> = (0..g.r.range(1, 8)).map(|_| g.key()).collect();
        let dup = g.r.chance(1, 2);
        Env { keys: (0..n).map(|i| if dup { g.r.pick(&pool).clone() } else { format!("k{}", i) }).collect(), xs: (0..n).map(|_| { let mut b = 3; g.value(2, &mut b) }).collect() }
    })
}

fn judge(w: &mut Wk, what: &str, got: &Json, want: V, order: &[usize]) -> Result<(), String> {
    w.saw_str(&format!("{}{:?}", what, want));
    w.count("macro_results");
    w.count_n("expressions_observed", order.len() as u64);
    w.sample(|| format!("{}: {:?}", what, want));
    let log = took();
    if log != order { return Err(format!("{}: the argument expressions were evaluated as {:?} instead of {:?}", what, log, order)); }
    want.same(got).map_err(|e| format!("{}: {}", what, e))
}

macro_rules! arrays { ($w:expr, $e:expr, $i:expr; $( [$($n:literal)*] )*) => { {
    let mut k = 0;
    $( {
        if k == $i {
            took();
            let want: Vec<usize> = vec![$($n),*];
            let a = array![$( t($n, $e.xs[$n].to_json()) ),*];
            judge($w, concat!("array![", $(stringify!($n), ",",)* "]"), &a, V::Arr(want.iter().map(|i| $e.xs[*i].clone()).collect()), &want)?;
            // the calls it stands for
            let mut b = array![];
            $( b.push($e.xs[$n].to_json()).unwrap(); )*
            if a != b && $e.xs.iter().all(|x| x.finite()) { return Err("array! and push differ".into()); }
            // by reference
            let js: Vec<Json> = $e.xs.iter().map(|x| x.to_json()).collect();
            let a = array![$( js[t($n, $n)] ),*];
            judge($w, "array! of places", &a, V::Arr(want.iter().map(|i| $e.xs[*i].clone()).collect()), &want)?;
        }
        k += 1;
    } )*
    k
} } }
macro_rules! arrays_trailing { ($w:expr, $e:expr, $i:expr; $( [$($n:literal)*] )*) => { {
    let mut k = 0;
    $( {
        if k == $i {
            took();
            let want: Vec<usize> = vec![$($n),*];
            let a = array!( $( t($n, $e.xs[$n].to_json()), )* );
            judge($w, concat!("array!(", $(stringify!($n), ",",)* ") with trailing comma"), &a, V::Arr(want.iter().map(|i| $e.xs[*i].clone()).collect()), &want)?;
        }
        k += 1;
    } )*
    k
} } }
macro_rules! objects { ($w:expr, $e:expr, $i:expr; $( [$($n:literal)*] )*) => { {
    let mut k = 0;
    $( {
        if k == $i {
            took();
            let want: Vec<usize> = vec![$($n),*];
            let order: Vec<usize> = want.iter().flat_map(|n| [n * 2, n * 2 + 1]).collect();
            let o = object!{ $( t($n * 2, &$e.keys[$n]) => t($n * 2 + 1, $e.xs[$n].to_json()) ),* };
            judge($w, concat!("object!{", $(stringify!($n), ",",)* "}"), &o, V::Obj(want.iter().map(|i| ($e.keys[*i].clone(), $e.xs[*i].clone())).collect()), &order)?;
            let mut b = Json::Object(Default::default());
            $( b.append($e.keys[$n].as_str(), $e.xs[$n].to_json()).unwrap(); )*
            if o != b && $e.xs.iter().all(|x| x.finite()) { return Err("object! and append differ".into()); }
        }
        k += 1;
    } )*
    k
} } }
macro_rules! objects_trailing { ($w:expr, $e:expr, $i:expr; $( [$($n:literal)*] )*) => { {
    let mut k = 0;
    $( {
        if k == $i {
            took();
            let want: Vec<usize> = vec![$($n),*];
            let order: Vec<usize> = want.iter().flat_map(|n| [n * 2, n * 2 + 1]).collect();
            let o = object!( $( t($n * 2, $e.keys[$n].clone()) => t($n * 2 + 1, &$e.xs[$n].to_json()).clone(), )* );
            judge($w, concat!("object!(", $(stringify!($n), ",",)* ") with trailing comma"), &o, V::Obj(want.iter().map(|i| ($e.keys[*i].clone(), $e.xs[*i].clone())).collect()), &order)?;
        }
        k += 1;
    } )*
    k
} } }
macro_rules! arities { ($m:ident, $w:expr, $e:expr, $i:expr) => { $m!($w, $e, $i;
    [] [0] [0 1] [0 1 2] [0 1 2 3] [0 1 2 3 4] [0 1 2 3 4 5] [0 1 2 3 4 5 6] [0 1 2 3 4 5 6 7] [0 1 2 3 4 5 6 7 8] [0 1 2 3 4 5 6 7 8 9]
    [0 1 2 3 4 5 6 7 8 9 10] [0 1 2 3 4 5 6 7 8 9 10 11] [0 1 2 3 4 5 6 7 8 9 10 11 12] [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16]
    [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32]
) } }
const ARITIES: usize = 16;

fn build(w: &mut Wk, i: u64) -> Result<(), String> {
    let e = env(w, 40);
    let a = (i / 4) as usize % ARITIES;
    match i % 4 {
        0 => arities!(arrays, w, e, a),
        1 => arities!(arrays_trailing, w, e, a),
        2 => arities!(objects, w, e, a),
        _ => arities!(objects_trailing, w, e, a),
    };
    Ok(())
}

/// arguments of all the accepted kinds, nested macros, expressions of all shapes
fn shapes(w: &mut Wk, i: u64) -> Result<(), String> {
    let e = env(w, 8);
    took();
    let n = i as i64 % 1000 - 500;
    let s = e.keys[0].clone();
    let x = |i: usize| e.xs[i].to_json();
    let o = |m: Vec<(&str, V)>| V::Obj(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let num = |f: f64| V::Num(f);
    let st = |s: &str| V::Str(s.to_string());
    match i % 14 {
        0 => judge(w, "nested object!", &object!{ "a" => object!{ "b" => t(0, x(0)), "b" => array![t(1, x(1)), object!{}] }, &s => t(2, array![]), }, V::Obj(vec![("a".into(), o(vec![("b", e.xs[0].clone()), ("b", V::Arr(vec![e.xs[1].clone(), V::Obj(vec![])]))])), (s.clone(), V::Arr(vec![]))]), &[0, 1, 2]),
        1 => judge(w, "array! of types", &array![t(0, n), t(1, "str"), t(2, s.clone()), t(3, true), t(4, Option::<u8>::None), t(5, Some(1.5f32)), t(6, vec![1u8, 2]), t(7, x(0)), vec![("k", 1)], s.as_str(), 'c'.to_string()],
            V::Arr(vec![num(n as f64), st("str"), st(&s), V::Bool(true), V::Null, num(1.5), V::Arr(vec![num(1.0), num(2.0)]), e.xs[0].clone(), o(vec![("k", num(1.0))]), st(&s), st("c")]), &[0, 1, 2, 3, 4, 5, 6, 7]),
        2 => judge(w, "object! of key types", &object!{ t(0, 1) => t(1, n), t(2, 'c') => t(3, &s as &str), t(4, true) => t(5, 2.5), t(6, String::from("own")) => t(7, Json::Null), t(8, &s) => t(9, ()) == (), n => 0u128 },
            V::Obj(vec![("1".into(), num(n as f64)), ("c".into(), st(&s)), ("true".into(), num(2.5)), ("own".into(), V::Null), (s.clone(), V::Bool(true)), (n.to_string(), num(0.0))]), &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
        3 => judge(w, "expressions", &array![if n > 0 { t(0, 1) } else { t(0, 2) }, { let q = t(1, 3); q + 1 }, match n { 0 => 1, _ => t(2, 7) }, -t(3, 5), (t(4, 1) + 2) * 3, [1u8, 2, 3][t(5, 1)], s.len() as u32, (|| t(6, "c"))(), loop { break t(7, 9) }],
            V::Arr(vec![num(if n > 0 { 1.0 } else { 2.0 }), num(4.0), num(if n == 0 { 1.0 } else { 7.0 }), num(-5.0), num(9.0), num(2.0), num(s.len() as f64), st("c"), num(9.0)]), if n == 0 { &[0, 1, 3, 4, 5, 6, 7] } else { &[0, 1, 2, 3, 4, 5, 6, 7] }),
        4 => { // names that the macros use inside
            let (_obj, _json, _vec, _path) = (x(0), x(1), x(2), "p");
            let a = array![_obj, _json, _vec, t(0, 1)];
            judge(w, "outer names in array!", &a, V::Arr(vec![e.xs[0].clone(), e.xs[1].clone(), e.xs[2].clone(), num(1.0)]), &[0])?;
            let b = object!{ "o" => _obj.clone(), "j" => _json.clone(), "v" => _vec.clone(), _path => 1 };
            judge(w, "outer names in object!", &b, o(vec![("o", e.xs[0].clone()), ("j", e.xs[1].clone()), ("v", e.xs[2].clone()), ("p", num(1.0))]), &[])?;
            let r = find!(b, _path).map(|x| V::of(x)).map_err(|e| e.to_string())?;
            judge(w, "outer names in find!", &r.to_json(), num(1.0), &[])?;
            let mut _json = b;
            update!(5 => _json, _path).map_err(|e| e.to_string())?;
            judge(w, "outer names in update!", &_json["p"], num(5.0), &[])
        }
        5 => { // early exit from inside
            fn f(x: Option<i32>) -> Option<Json> { Some(object!{ "a" => x?, "b" => array![x?, 2] }) }
            let g = f(Some(n as i32)).ok_or("object! with ? gives None")?;
            judge(w, "object! with ?", &g, o(vec![("a", num(n as f64)), ("b", V::Arr(vec![num(n as f64), num(2.0)]))]), &[])?;
            if f(None).is_some() { return Err("object! with ? ignores the early exit".into()); }
            Ok(())
        }
        6 => { // many duplicates keep their order
            let o2 = object!{ "k" => x(0), "k" => x(1), "l" => 0, "k" => x(2), "k" => x(3), "l" => 1, "k" => x(4) };
            judge(w, "object! with duplicates", &o2, o(vec![("k", e.xs[0].clone()), ("k", e.xs[1].clone()), ("l", num(0.0)), ("k", e.xs[2].clone()), ("k", e.xs[3].clone()), ("l", num(1.0)), ("k", e.xs[4].clone())]), &[])
        }
        7 => { // the macro as an argument, in all bracket forms
            let v = vec![object!{}, object!(), object![], array!{}, array!(), array![]];
            judge(w, "empty macros", &Json::Array(v), V::Arr(vec![V::Obj(vec![]), V::Obj(vec![]), V::Obj(vec![]), V::Arr(vec![]), V::Arr(vec![]), V::Arr(vec![])]), &[])?;
            let v = array!{ 1, array!(2, array!{3,},), object!["a" => object!("b" => 1,)] };
            judge(w, "bracket forms", &v, V::Arr(vec![num(1.0), V::Arr(vec![num(2.0), V::Arr(vec![num(3.0)])]), o(vec![("a", o(vec![("b", num(1.0))]))])]), &[])
        }
        8 => { // what is passed is not consumed more than needed; a failing operand does not run twice
            let big: Vec<String> = e.keys.clone();
            let j = array![big, big[0].as_str(), big.len() as u32];
            judge(w, "array! borrows", &j, V::Arr(vec![V::Arr(e.keys.iter().map(|k| st(k)).collect()), st(&e.keys[0]), num(e.keys.len() as f64)]), &[])?;
            let r = call(|| object!{ "a" => t(0, 1), "b" => { if n < 1000 { panic!("user panic") }; t(1, 2) }, "c" => t(2, 3) });
            if r.is_ok() { return Err("object! swallows a panic of its argument".into()); }
            let log = took();
            if log != [0] { return Err(format!("object! evaluates its members as {:?} around a panic", log)); }
            w.saw(i);
            Ok(())
        }
        9 => judge(w, "iterators and blocks", &array![(0..3).map(|i| i as u8).collect::<Vec<_>>(), e.keys.iter().map(|k| (k.clone(), 1)).collect::<Vec<_>>(), &[1.5, 2.5][..]],
            V::Arr(vec![V::Arr(vec![num(0.0), num(1.0), num(2.0)]), V::Obj(e.keys.iter().map(|k| (k.clone(), num(1.0))).collect()), V::Arr(vec![num(1.5), num(2.5)])]), &[]),
        10 => { // numbers of every type
            judge(w, "number types", &array![1u8, 2u16, 3u32, 4u64, 5u128, 6usize, -1i8, -2i16, -3i32, -4i64, -5i128, -6isize, 0.5f32, 0.25f64, n],
                V::Arr([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, -1.0, -2.0, -3.0, -4.0, -5.0, -6.0, 0.5, 0.25, n as f64].iter().map(|f| num(*f)).collect()), &[])
        }
        11 => { // built in a loop, each time afresh
            let mut all = Vec::new();
            for k in 0..5 { all.push(object!{ "k" => k, &s => t(k, array![k]) }); all.push(array![k, k]); }
            let want = V::Arr((0..5).flat_map(|k| [V::Obj(vec![("k".into(), num(k as f64)), (s.clone(), V::Arr(vec![num(k as f64)]))]), V::Arr(vec![num(k as f64); 2])]).collect());
            judge(w, "in a loop", &Json::Array(all), want, &[0, 1, 2, 3, 4])
        }
        12 => judge(w, "keys that look like syntax", &object!{ "a.b" => 1, "#0" => 2, "\\" => 3, "" => 4, "\"" => 5, "=>" => 6, "a,b" => 7 }, o(vec![("a.b", num(1.0)), ("#0", num(2.0)), ("\\", num(3.0)), ("", num(4.0)), ("\"", num(5.0)), ("=>", num(6.0)), ("a,b", num(7.0))]), &[]),
        _ => { // with ToJson types of the user
            struct P(i32);
            impl ToJson for P { fn to_json(&self) -> Json { LOG.with(|l| l.borrow_mut().push(100 + self.0 as usize)); object!{ "p" => self.0 } } }
            let v = array![P(1), P(2), vec![P(3), P(4)], Some(P(5))];
            judge(w, "user types in array!", &v, V::Arr(vec![o(vec![("p", num(1.0))]), o(vec![("p", num(2.0))]), V::Arr(vec![o(vec![("p", num(3.0))]), o(vec![("p", num(4.0))])]), o(vec![("p", num(5.0))])]), &[101, 102, 103, 104, 105])?;
            let v = object!{ "x" => P(1), "y" => P(2), "x" => P(3), };
            judge(w, "user types in object!", &v, o(vec![("x", o(vec![("p", num(1.0))])), ("y", o(vec![("p", num(2.0))])), ("x", o(vec![("p", num(3.0))]))]), &[101, 102, 103])
        }
    }
}

/// a document holding something at the path, with a value beside it on every level
fn home(p: &[Step], x: &V) -> V {
    let mut v = V::Null;
    v.update(p, x.clone());
    for n in 0..p.len() {
        let beside = match v.find(&p[..n]) { Ok(V::Obj(_)) => Some(Step::K("beside".into())), Ok(V::Arr(a)) => Some(Step::I(a.len())), _ => None };
        if let Some(b) = beside { let mut q = p[..n].to_vec(); q.push(b); v.update(&q, V::Str(format!("beside {}", n))) }
    }
    v
}

/// all path macros with every number of steps from 1 to 8; key and index steps in every pattern given by bits
macro_rules! on_paths { ($w:expr, $i:expr, $bits:expr, $e:expr; $( [$($n:literal)*] )*) => { {
    let mut k = 0;
    $( {
        if k == $i {
            took();
            let steps: Vec<Step> = vec![$( if ($bits >> $n) & 1 == 0 { Step::K($e.keys[$n].clone()) } else { Step::I(($bits >> 8) as usize % 5 + $n) } ),*];
            let order: Vec<usize> = vec![$($n),*];
            let f = |n: usize| -> json::Finder { LOG.with(|l| l.borrow_mut().push(n)); match &steps[n] { Step::K(k) => k.into(), Step::I(i) => i.into() } };
            let hit = home(&steps, &$e.xs[0]);
            let other = { let mut b = hit.clone(); let _ = b.discard(&steps[..1]); b };
            for (doc, there) in [(&hit, true), (&other, false)] {
                let what = |m: &str| format!("{} with steps {:?} ({})", m, steps, if there { "present" } else { "absent" });
                let check_log = |m: &str| { let l = took(); if l != order { Err(format!("{} evaluates its steps as {:?} instead of {:?}", m, l, order)) } else { Ok(()) } };
                let mut j = doc.to_json();
                $w.saw_str(&what("paths"));
                $w.count(if there { "paths_present" } else { "paths_absent" });
                // path!
                let p = path!($( f($n) ),*);
                check_log("path!")?;
                let q = path!($( f($n), )*);
                check_log("path! with trailing comma")?;
                let (a, b, c) = (call(|| j.find(p).ok().map(|x| x as *const Json))?, call(|| j.find(q).ok().map(|x| x as *const Json))?, call(|| j.find(typed(&steps)).ok().map(|x| x as *const Json))?);
                if a != c || b != c || c.is_some() != doc.find(&steps).is_ok() { return Err(format!("{} differs from the typed path", what("path!"))); }
                // find!
                let a = find!(j, $( f($n) ),*).ok().map(|x| x as *const Json);
                check_log("find!")?;
                let b = find!(&j, $( f($n), )*).ok().map(|x| x as *const Json);
                check_log("find! with trailing comma")?;
                if a != c || b != c { return Err(format!("{} differs from find", what("find!"))); }
                // update!
                let (mut j1, mut j2) = (doc.to_json(), doc.to_json());
                let (x1, x2) = ($e.xs[1].to_json(), $e.xs[1].to_json());
                let r1 = update!({ LOG.with(|l| l.borrow_mut().push(50)); x1 } => j1, $( f($n) ),*).map(|x| V::of(x)).map_err(|e| err_kind(&e));
                let mut l = took();
                if l.iter().filter(|x| **x == 50).count() != 1 { return Err(format!("{} evaluates its value {:?}", what("update!"), l)) }
                l.retain(|x| *x != 50);
                if l != order { return Err(format!("{} evaluates its steps as {:?}", what("update!"), l)) }
                let r2 = j2.update(typed(&steps), x2).map(|x| V::of(x)).map_err(|e| err_kind(&e));
                if !(match (&r1, &r2) { (Ok(a), Ok(b)) => a.eq(b), (Err(a), Err(b)) => a == b, _ => false }) { return Err(format!("{} gives {:?}, update {:?}", what("update!"), r1, r2)); }
                V::of(&j2).same(&j1).map_err(|e| format!("{} and update leave different documents: {}", what("update!"), e))?;
                let mut m = doc.clone();
                m.update(&steps, $e.xs[1].clone());
                m.same(&j1).map_err(|e| format!("{} leaves a wrong document: {}", what("update!"), e))?;
                let _ = update!($e.xs[0].to_json() => &mut j1, $( f($n), )*).map_err(|e| format!("{} with trailing comma fails: {}", what("update!"), e))?;
                took();
                m.update(&steps, $e.xs[0].clone());
                m.same(&j1).map_err(|e| format!("{} with trailing comma leaves a wrong document: {}", what("update!"), e))?;
                // discard!
                let (mut j1, mut j2, mut j3) = (doc.to_json(), doc.to_json(), doc.to_json());
                let r1 = discard!(j1, $( f($n) ),*).map(|x| V::of(&x)).map_err(|e| err_kind(&e));
                check_log("discard!")?;
                let r2 = j2.discard(typed(&steps)).map(|x| V::of(&x)).map_err(|e| err_kind(&e));
                if !(match (&r1, &r2) { (Ok(a), Ok(b)) => a.eq(b), (Err(a), Err(b)) => a == b, _ => false }) { return Err(format!("{} gives {:?}, discard {:?}", what("discard!"), r1, r2)); }
                V::of(&j2).same(&j1).map_err(|e| format!("{} and discard leave different documents: {}", what("discard!"), e))?;
                let r3 = discard!(&mut j3, $( f($n), )*).map(|x| V::of(&x)).map_err(|e| err_kind(&e));
                took();
                if r3.is_ok() != r2.is_ok() { return Err(format!("{} with trailing comma gives {:?}, discard {:?}", what("discard!"), r3, r2)); }
                V::of(&j2).same(&j3).map_err(|e| format!("{} with trailing comma and discard leave different documents: {}", what("discard!"), e))?;
                // find! with a mutable document still only reads
                let _ = find!((&mut j), $( f($n) ),*).is_ok();
                took();
                doc.same(&j).map_err(|e| format!("{} changed the document: {}", what("find!"), e))?;
            }
        }
        k += 1;
    } )*
    let _ = k;
} } }

fn paths(w: &mut Wk, i: u64) -> Result<(), String> {
    let e = env(w, 10);
    let len = i % 9;
    let bits = w.rng.next();
    w.max("max_steps", len + 1);
    on_paths!(w, len, bits, e; [0] [0 1] [0 1 2] [0 1 2 3] [0 1 2 3 4] [0 1 2 3 4 5] [0 1 2 3 4 5 6] [0 1 2 3 4 5 6 7] [0 1 2 3 4 5 6 7 8]);
    Ok(())
}

/// steps of all accepted types, straight in the macros
fn step_types(w: &mut Wk, _: u64) -> Result<(), String> {
    let (k, i, x, y) = w.g(|g, _| { let k = g.key(); let i = g.r.below(6); let mut b = 3; let x = g.value(1, &mut b); let mut b = 3; let y = g.value(1, &mut b); (k, i, x, y) });
    let steps = [Step::K(k.clone()), Step::I(i), Step::K("lit".into()), Step::I(2), Step::K(k.clone())];
    let doc = home(&steps, &x);
    let mut j = doc.to_json();
    w.saw_str(&format!("{:?}{:?}", steps, x));
    let want = walk(&j, &steps).unwrap() as *const Json;
    for (n, r) in [find!(j, k.clone(), i, "lit", 2, &k), find!(j, &k, &i, String::from("lit"), &2usize, k.as_str(),), j.find(path!(k.as_str(), i, &String::from("lit"), 1 + 1, &k))].into_iter().enumerate() {
        let r = r.map_err(|e| format!("find! form {} of {:?} fails: {}", n, steps, e))?;
        if !std::ptr::eq(r, want) { return Err(format!("find! form {} of {:?} gives another value", n, steps)); }
    }
    let mut m = doc.clone();
    m.update(&steps, y.clone());
    let r = update!(y.to_json() => j, &k, i, "lit", 2, k.clone()).map_err(|e| format!("update! of {:?} fails: {}", steps, e))?;
    y.same(r)?;
    m.same(&j).map_err(|e| format!("update! of {:?} leaves a wrong document: {}", steps, e))?;
    let want = m.discard(&steps).unwrap();
    let r = discard!(j, k.as_str(), &i, "lit", 2usize, &k).map_err(|e| format!("discard! of {:?} fails: {}", steps, e))?;
    want.same(&r)?;
    m.same(&j).map_err(|e| format!("discard! of {:?} leaves a wrong document: {}", steps, e))
}

pub fn c14(ctx: &Ctx) -> Vec<Stream> {
    vec![
        stream("arrays-and-objects", ctx.n(64, 60_000, 1_500_000), build),
        stream("shapes", ctx.n(28, 60_000, 1_500_000), shapes),
        stream("paths", ctx.n(18, 60_000, 1_500_000), paths),
        stream("step-types", ctx.n(10, 30_000, 600_000), step_types),
    ]
}
