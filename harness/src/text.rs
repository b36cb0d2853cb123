//! Workloads of texts, and the monitors of the parser: C01 (acceptance), C02 (faithfulness).
use crate::fw::*;
use crate::model::V;
use crate::reader::{read, RErr};
use json::Json;

pub type TextFn = fn(&mut Wk, &str) -> Result<(), String>;

pub const TOKENS: &[&str] = &["{", "}", "[", "]", ",", ":", "\"a\"", "\"", "1", "null", " ", "\\", "-0", "\"b],:}\"", "\"\\\"\"", "\n"];
/// what may stand in the place of a value or key, or wrongly does
const PIECES: &[&str] = &["true", "false", "null", "1", "-1", "1.5e3", "0", "-0.0", "\"a\"", "\"\"", "\"\\u0041\"", "[]", "{}", "[1]", "{\"a\":1}", "nul", "tru", "nulll", "True", "NULL", "'a'", "a", "", " ", "\"", "NaN", "Infinity", "-Infinity", "-", "+1", ".5", "5.", "0x1", "1_0", "01", "1e", "undefined", "//c\n", "/*c*/", "#c\n", "\u{feff}", "\u{a0}", "\u{0}", ",", ":", "}", "]", "{", "[", ";", "=", "=>", "1 2", "true false", "\"a\" \"b\"", "\"a\"\"b\"", "\"a\":1", "1:2", "[]]", "{}}", "\\n", "`a`", "None", "()", "<a>", "1,", ",1", "\"a\\\"", "1\u{2028}"];
const FRAMES: &[&str] = &["X", "[X]", "{X:1}", "{\"a\":X}", "{\"a\":1,X:2}", "{\"a\":1,\"b\":X}", "{\"a\":1,X}", "{X,\"a\":1}", "[1,X]", "[X,1]", "[1,X,2]", "[1X2]", "[1 X 2]", "[[X]]", "[{\"a\":X}]", "{\"a\":[X]}", "{\"a\":{X:1}}", "{\"a\"X1}", "{\"a\" X 1}", "{\"a\":1X\"b\":2}", "X[1]", "[1]X", "{\"a\":1}X", "X{\"a\":1}", "\"a\"X", "X\"a\"", "1 X", "X 1", "{X}", "[\"s\",X]", "{\"s\":\"t\",X:\"u\"}", "[null,X]", "[[1],X]", "[{},X]", "{\"a\":[],X:{}}",
    "X Y", "XY", "[X,Y]", "[X Y]", "[XY]", "{X:Y}", "{X Y}", "{X,Y}", "{\"a\":X,Y:1}", "{X:1,\"b\":Y}", "{\"a\":X,\"a\":Y}", "{X:1,Y:2}", "[X,[Y]]", "[{X:Y}]", "{\"a\":{X:Y}}", "[[X],Y]", "[X:Y]", "{X:1Y}", "[[XY]]", "{\"a\":XY}", "{XY:1}", "[X]Y", "Y[X]"];
const NUMCH: &[u8] = b"019-+.eE";
const STRCH: &[&str] = &["a", "\"", "\\", "u", "0", "d8", "D", "n", "\n", "/", "00", "é", "dc", "\t", "9"];

/// the idx-th sequence over an alphabet of k symbols, all lengths up to max (shorter first)
pub fn seq(mut idx: u64, k: u64, max: usize) -> Vec<usize> {
    let mut n = 1u64;
    for len in 0..=max {
        if idx < n {
            let mut v = vec![0; len];
            for x in v.iter_mut().rev() { *x = (idx % k) as usize; idx /= k; }
            return v;
        }
        idx -= n;
        n *= k;
    }
    unreachable!()
}
pub fn seq_count(k: u64, max: usize) -> u64 { (0..=max).map(|l| k.pow(l as u32)).sum() }

/// sizes worth trying: all small ones, around powers of two, around the constants of the source
pub fn sizes(ctx: &Ctx, small: usize, cap: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=small.min(cap)).collect();
    let mut p = 1;
    while p <= cap { for d in [p - 1, p, p + 1] { v.push(d) } p *= 2 }
    for p in [10usize, 100, 1000, 10000, 100000] { for d in [p - 1, p, p + 1] { v.push(d) } }
    for &i in &ctx.dict.ints { let i = i as usize; for d in [i.wrapping_sub(1), i, i.wrapping_add(1)] { v.push(d) } }
    v.retain(|n| *n <= cap);
    v.sort();
    v.dedup();
    v
}
/// the same, and beyond the cap the sizes around 2^16 and around the large constants of the source
pub fn sizes_far(ctx: &Ctx, small: usize, cap: usize) -> Vec<usize> {
    let mut v = sizes(ctx, small, cap);
    if ctx.tier == Tier::Mini { return v }
    let to = if ctx.tier == Tier::Quick { 300_000 } else { 1_200_000 };
    for d in [65535, 65536, 65537, 100_001] { v.push(d) }
    let mut big: Vec<usize> = ctx.dict.ints.iter().map(|i| *i as usize).filter(|i| *i > cap && *i < to).collect();
    big.truncate(12);
    for i in big { for d in [i - 1, i, i + 1] { v.push(d) } }
    v.sort();
    v.dedup();
    v
}

pub const FAMILIES: usize = 54;

/// a text of family f and size n; whether it is valid is for the reader to say
pub fn sized(f: usize, n: usize) -> String { sized_deep(f, n, SHALLOW) }

/// deeper than this only on request
pub const SHALLOW: usize = 250;
/// the deepest that is asked of an ample stack: a limit below it would refuse valid texts
pub const DEEP: usize = 3000;
pub fn levels(n: usize, cap: usize) -> usize { if n <= cap { n } else { SHALLOW } }

pub fn sized_deep(f: usize, n: usize, cap: usize) -> String {
    let list = |n: usize, sep: &str, item: &dyn Fn(usize) -> String| (0..n).map(|i| item(i)).collect::<Vec<_>>().join(sep);
    let deep = levels(n, cap);
    let h = n / 2;
    match f {
        0 => format!("[{}]", list(n, ",", &|i| i.to_string())),
        1 => format!("[{}]", list(n, ", ", &|_| "\"\"".into())),
        2 => format!("[{},]", list(n, ",", &|_| "1".into())),
        3 => format!("[,{}]", list(n, ",", &|_| "1".into())),
        4 => format!("[{},,{}]", list(h, ",", &|_| "1".into()), list(n - h, ",", &|_| "1".into())),
        5 => format!("[{} {}]", list(h, ",", &|_| "1".into()), list(n - h, ",", &|_| "1".into())),
        6 => format!("{{{}}}", list(n, ",", &|i| format!("\"k{}\":{}", i, i))),
        7 => format!("{{{}}}", list(n, ",", &|i| format!("\"k\":{}", i))),
        8 => format!("{{{},}}", list(n, ",", &|i| format!("\"k{}\":{}", i, i))),
        9 => format!("{{{}}}", list(n, ",", &|i| format!("\"k{}\"{}{}", i, if i == h { "," } else { ":" }, i))),
        10 => format!("{{{}}}", list(n, ",", &|i| format!("{}:{}", if i + 1 == n { "k".into() } else { format!("\"k{}\"", i) }, i))),
        11 => format!("{}1{}", "[".repeat(deep), "]".repeat(deep)),
        12 => format!("{}{}", "[".repeat(deep), "]".repeat(deep)),
        13 => format!("{}1{}", "{\"a\":".repeat(deep), "}".repeat(deep)),
        14 => format!("{}1{}", "[".repeat(deep + 1), "]".repeat(deep)),
        15 => format!("{}1{}", "[".repeat(deep), "]".repeat(deep + 1)),
        16 => format!("{}1{}{}", "[".repeat(deep), "}", "]".repeat(deep)),
        17 => format!("{}1{}", "[{\"a\":".repeat(deep / 2), "}]".repeat(deep / 2)),
        18 => format!("{}1{}", "{\"a\":[".repeat(deep / 2), "}]".repeat(deep / 2)),
        19 => format!("\"{}\"", "a".repeat(n)),
        20 => format!("\"{}", "a".repeat(n)),
        21 => format!("\"{}\"", "\\n".repeat(n)),
        22 => format!("\"{}\"", "\\u00e9".repeat(n)),
        23 => format!("\"{}\"", "\\ud83d\\udc96".repeat(n)),
        24 => format!("\"{}\u{1}{}\"", "a".repeat(h), "b".repeat(n - h)),
        25 => format!("\"{}\\x{}\"", "a".repeat(h), "b".repeat(n - h)),
        26 => format!("\"{}\"", "é".repeat(n)),
        27 => format!("\"{}\"", "💖".repeat(n)),
        28 => format!("\"{}\\\"", "\\\\".repeat(n)),
        29 => format!("\"{}\"", "\\\\".repeat(n)),
        30 => format!("[\"{}\"]", "\\\"".repeat(n)),
        31 => format!("[\"{}\", 1]", "]".repeat(n)),
        32 => format!("{{\"{}\": 1}}", "}".repeat(n)),
        33 => format!("{{\"{}\": \"{}\"}}", "k".repeat(n), ":,".repeat(n)),
        34 => format!("{}1{}", " ".repeat(n), " ".repeat(n)),
        35 => format!("[{}1{},{}2{}]", "\n".repeat(n), "\t".repeat(n), "\r".repeat(n), " ".repeat(n)),
        36 => format!("[{}]", " ".repeat(n)),
        37 => format!("{{{}\"a\"{}:{}1{}}}", " ".repeat(n), "\n".repeat(n), "\t".repeat(n), " ".repeat(n)),
        38 => "7".repeat(n.max(1)),
        39 => format!("0.{}1", "0".repeat(n)),
        40 => format!("1{}", "0".repeat(n)),
        41 => format!("1e{}", n),
        42 => format!("1E-{}", n),
        43 => format!("0{}", "0".repeat(n)),
        44 => format!("-{}.{}e-{}", "9".repeat(n.max(1)), "9".repeat(n.max(1)), n),
        45 => format!("1.{}e{}1", "3".repeat(n.max(1)), "0".repeat(n)),
        46 => format!("{}x", " ".repeat(n)),
        47 => format!("[{}1{}]", "[],".repeat(n), ",{}".repeat(n)),
        48 => format!("{{{}\"z\":0}}", "\"a\":[],".repeat(n)),
        49 => format!("{{{}\"z\":0}}", "\"a\":{\"b\":[1]},".repeat(n)),
        50 => format!("[{}]", list(n, ",", &|i| if i == h { "tru".into() } else { "true".into() })),
        51 => format!("[1]{}]", " ".repeat(n)),
        52 => format!("\"{}\" {}", "a".repeat(n), "\""),
        53 => format!("[{}]", list(n, ",", &|i| if i % 2 == 0 { "\"[\"".to_string() } else { "[\"]\"]".to_string() })),
        _ => unreachable!(),
    }
}

#[derive(Clone, Copy)]
pub struct Load { pub tokens: usize, pub numbers: usize, pub strings: usize, pub chars: u32, pub docs: u64, pub mutants: u64, pub prefixes: u64, pub sized_cap: usize, pub small: usize, pub deep: usize }

pub fn load(ctx: &Ctx) -> Load {
    match ctx.tier {
        Tier::Mini => Load { tokens: 2, numbers: 2, strings: 2, chars: 0x300, docs: 30, mutants: 60, prefixes: 3, sized_cap: 10, small: 5, deep: SHALLOW },
        Tier::Quick => Load { tokens: 5, numbers: 6, strings: 5, chars: 0x110000, docs: 60_000, mutants: 400_000, prefixes: 4_000, sized_cap: 70_000, small: 140, deep: DEEP },
        Tier::Thorough => Load { tokens: 6, numbers: 8, strings: 6, chars: 0x110000, docs: 1_500_000, mutants: 12_000_000, prefixes: 60_000, sized_cap: 300_000, small: 700, deep: DEEP },
    }
}

/// all the text workloads, each text handed to f
pub fn text_streams(ctx: &Ctx, l: Load, f: TextFn) -> Vec<Stream> {
    let k = TOKENS.len() as u64;
    let mut v = Vec::new();
    v.push(exhaustive("token-sequences", seq_count(k, l.tokens), move |w, i| {
        let t: String = seq(i, k, l.tokens).into_iter().map(|x| TOKENS[x]).collect();
        f(w, &t)
    }));
    let np = PIECES.len() as u64;
    let small = ctx.tier == Tier::Mini;
    v.push(exhaustive("pieces", if small { 60 } else { FRAMES.len() as u64 * np * np }, move |w, i| {
        let i = if small { i * 4001 % (FRAMES.len() as u64 * np * np) } else { i };
        let fr = FRAMES[(i / np / np) as usize];
        if !fr.contains('Y') && i % np != 0 { return Ok(()) }
        let t: String = fr.chars().map(|c| match c { 'X' => PIECES[(i / np % np) as usize].to_string(), 'Y' => PIECES[(i % np) as usize].to_string(), c => c.to_string() }).collect();
        f(w, &t)?;
        // with white space around every token
        if i % 3 == 0 { f(w, &t.replace(',', " ,\n").replace(':', "\t: ").replace('[', "[ ").replace(']', "\r]").replace('{', "{\n").replace('}', " }"))?; }
        Ok(())
    }));
    v.push(exhaustive("number-spellings", seq_count(8, l.numbers), move |w, i| {
        let t: String = seq(i, 8, l.numbers).into_iter().map(|x| NUMCH[x] as char).collect();
        f(w, &t)?;
        if i % 4 == 0 { f(w, &format!("[{}]", t))?; f(w, &format!("{{\"a\": {},\"b\":{} }}", t, t))?; }
        Ok(())
    }));
    let sk = STRCH.len() as u64;
    v.push(exhaustive("string-bodies", seq_count(sk, l.strings), move |w, i| {
        let t: String = seq(i, sk, l.strings).into_iter().map(|x| STRCH[x]).collect();
        f(w, &format!("\"{}\"", t))?;
        if i % 8 == 0 { f(w, &format!("[\"{}\"]", t))?; f(w, &format!("{{\"{}\":1}}", t))?; }
        Ok(())
    }));
    v.push(exhaustive("every-character", l.chars as u64, move |w, i| {
        if let Some(c) = char::from_u32(i as u32) {
            for t in [format!("\"{}\"", c), format!("{}", c), format!("[1{}]", c), format!("{}1", c), format!("\"\\{}\"", c)] { f(w, &t)?; }
            if i < 0x3100 || i % 251 == 0 {
                for t in [format!("1{}", c), format!("[1,{}2]", c), format!("{{\"a\"{}:1}}", c), format!("{{{}\"a\":1}}", c), format!("{{\"a\":{}1}}", c), format!("[{}]", c), format!("{{{}}}", c), format!("[]{}", c), format!("\"\"{}", c), format!("nul{}", c),
                          format!("null{}", c), format!("\"\\u{}000\"", c), format!("\"\\u0{}00\"", c), format!("\"\\u00{}0\"", c), format!("\"\\u000{}\"", c), format!("-{}", c), format!("1.{}", c), format!("1e{}", c), format!("0{}", c), format!("[1{}2]", c), format!("{{\"a\":1{}\"b\":2}}", c), format!("{{\"a\"{}1}}", c), format!("\"\\ud83d\\{}dc96\"", c), format!("\"\\ud83d{}\"", c)] { f(w, &t)?; }
            }
        }
        Ok(())
    }));
    v.push(exhaustive("unicode-escapes", if l.chars < 0x10000 { 0x100 } else { 0x10000 }, move |w, i| {
        f(w, &format!("\"\\u{:04x}\"", i))?;
        f(w, &format!("[\"\\u{:04X}a\"]", i))?;
        f(w, &format!("{{\"\\u{:04X}\":0}}", i))?;
        f(w, &format!("\"\\ud800\\u{:04X}\"", i))?;
        f(w, &format!("\"\\u{:04X}\\udfff\"", i))?;
        f(w, &format!("\"\\u{:04X}\\u{:04x}\"", i, i ^ 0x0400))?;
        f(w, &format!("\"\\u{:04X}x\\udc00\"", i))
    }));
    v.push(stream("documents", l.docs, move |w, _| {
        let t = w.g(|g, _| { let v = g.doc(); g.render(&v) });
        f(w, &t)
    }));
    v.push(stream("number-tokens", l.docs, move |w, _| {
        let t = w.g(|g, _| { let t = g.number_text(); match g.r.below(4) { 0 => format!("[{}]", t), 1 => format!("{{\"a\":{}}}", t), 2 => format!(" {}\n", t), _ => t } });
        f(w, &t)
    }));
    v.push(stream("broken-documents", l.mutants, move |w, _| {
        let t = w.g(|g, _| { let v = if g.r.chance(3, 4) { let mut b = g.r.range(1, 12); let d = g.r.range(0, 3); g.container(d, &mut b) } else { g.doc_sized(60) }; let t = g.render(&v); g.mutate(&t) });
        f(w, &t)
    }));
    v.push(stream("soup", l.mutants / 4, move |w, _| {
        let t = w.g(|g, _| { let n = g.size(40); (0..n).map(|_| match g.r.below(6) { 0 => g.string(6), 1 => g.number_text(), _ => g.r.pick(TOKENS).to_string() }).collect::<String>() });
        f(w, &t)
    }));
    v.push(stream("prefixes-and-holes", l.prefixes, move |w, _| {
        let t = w.g(|g, _| { let mut b = g.r.range(2, 14); let d = g.r.range(1, 4); let v = g.container(d, &mut b); g.render(&v) });
        if t.len() > 1500 { return Ok(()) }
        let idx: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        for (k, &i) in idx.iter().enumerate() {
            f(w, &t[..i])?;
            let e = idx.get(k + 1).copied().unwrap_or(t.len());
            f(w, &format!("{}{}", &t[..i], &t[e..]))?;
            f(w, &t[i..])?;
        }
        f(w, &t)
    }));
    // long texts in which every unit comes to stand across every boundary a buffer may have
    let n = STRADDLERS.len() as u64;
    let (pre, long) = if small { (2, 300) } else if ctx.tier == Tier::Quick { (13, 70_000) } else { (13, 1_100_000) };
    let mut e = exhaustive("straddling", n * pre, move |w, i| {
        let (unit, list) = STRADDLERS[(i % n) as usize];
        let p = (i / n) as usize;
        for t in straddling(unit, list, p, long) { f(w, &t)?; }
        Ok(())
    });
    e.chunk = 1;
    v.push(e);
    let sz = sizes_far(ctx, l.small, l.sized_cap);
    let big: Vec<(usize, usize)> = (0..FAMILIES).flat_map(|f| sz.iter().map(move |n| (f, *n))).filter(|(f, n)| *n <= 20_000 || [0, 6, 7, 19, 21, 23, 26, 27, 31, 34, 38, 39, 40, 53].contains(f)).collect();
    let mut s = exhaustive("sized-families", big.len() as u64, move |w, i| {
        let (fam, n) = big[i as usize];
        f(w, &sized_deep(fam, n, l.deep))
    });
    s.chunk = 4;
    v.push(s);
    v
}

/// units of string bodies, and units of lists
pub const STRADDLERS: &[(&str, bool)] = &[
    ("é", false), ("€", false), ("💖", false), ("a€", false), ("\\n", false), ("\\\"", false), ("\\\\", false), ("\\u00e9", false), ("\\ud83d\\udc96", false), ("💖\\/é", false),
    ("1, ", true), ("12.5e1 ,", true), ("\"é\", ", true), ("null ,\n", true), ("[true,{}],", true), ("{\"k\": \"\\\"\"}\t,", true),
];
pub fn straddling(unit: &str, list: bool, p: usize, long: usize) -> Vec<String> {
    let b = unit.repeat(long / unit.len());
    if list { return vec![format!("[{}{}0]", " ".repeat(p), b), format!("{{\"a\":[{}{}0]}}", " ".repeat(p), b)] }
    let b = format!("\"{}{}\"", "x".repeat(p), b);
    match p % 3 {
        0 => vec![b.clone(), format!("[{}]", b)],
        1 => vec![b.clone(), format!("{{{}:0}}", b)],
        _ => vec![b.clone(), format!("{{\"\":{}}}", b)],
    }
}

fn accept(w: &mut Wk, t: &str) -> Result<(), String> {
    let want = read(t);
    let got = call(|| Json::parse(t).is_ok()).map_err(|e| format!("parse of {} {}", json_str(&clip(t, 400)), e))?;
    w.saw_str(t);
    match want {
        Ok(_) => w.count("texts_valid"),
        Err(RErr::Overflow) => w.count("texts_number_overflow"),
        Err(RErr::Surrogate) => w.count("texts_lone_surrogate"),
        Err(_) => w.count("texts_invalid"),
    }
    w.sample(|| format!("{:?} {}", want.is_ok(), t));
    if got != want.is_ok() {
        return Err(format!("parse {} {} although RFC 8259 says {:?}", if got { "accepts" } else { "rejects" }, json_str(&clip(t, 400)), want.map(|_| "valid")));
    }
    if t.len() < 64 && t.len() % 3 == 0 {
        let a = call(|| t.parse::<Json>().is_ok())?;
        let b = call(|| json::decode::<Json>(t).is_ok())?;
        if a != got || b != got { return Err(format!("parse, FromStr and decode disagree on {}: {} {} {}", json_str(t), got, a, b)); }
    }
    Ok(())
}

pub fn c01(ctx: &Ctx) -> Vec<Stream> { text_streams(ctx, load(ctx), accept) }

fn faithful(w: &mut Wk, t: &str) -> Result<(), String> {
    let v = match read(t) { Ok(v) => v, Err(_) => { w.trivial(); return Ok(()) } };
    let j = match call(|| Json::parse(t)) { Ok(Ok(j)) => j, _ => { w.count("valid_but_not_accepted"); w.trivial(); return Ok(()) } };
    w.saw_str(t);
    w.count("values_compared");
    w.count_n("nodes_compared", v.nodes() as u64);
    w.max("max_depth", v.depth() as u64);
    w.sample(|| t.to_string());
    v.same(&j).map_err(|e| format!("parse({}): {}", json_str(&clip(t, 600)), e))?;
    if t.len() % 5 == 0 && t.len() < 2000 {
        let j2: Json = t.parse().map_err(|e| format!("FromStr rejects {}: {}", json_str(t), e))?;
        v.same(&j2).map_err(|e| format!("FromStr({}): {}", json_str(t), e))?;
        let j3: Json = json::decode(t).map_err(|e| format!("decode rejects {}: {}", json_str(t), e))?;
        v.same(&j3).map_err(|e| format!("decode({}): {}", json_str(t), e))?;
    }
    Ok(())
}

pub fn c02(ctx: &Ctx) -> Vec<Stream> {
    let mut l = load(ctx);
    if ctx.tier == Tier::Quick { l.tokens = 4; l.numbers = 5; l.strings = 4; l.mutants = 40_000; l.docs = 200_000; l.prefixes = 500; }
    let mut s = text_streams(ctx, l, faithful);
    // texts rendered from a known value: the generator is a second oracle besides the reader
    s.push(stream("rendered", ctx.n(30, 100_000, 2_000_000), |w, _| {
        let (v, t) = w.g(|g, _| { let v = g.doc(); let t = g.render(&v); (v, t) });
        let r = read(&t).map_err(|e| format!("HARNESS generator and reader disagree: {:?} {}", e, t))?;
        if !r.eq(&v) { return Err(format!("HARNESS generator and reader disagree on {}", t)); }
        let j = match call(|| Json::parse(&t)) { Ok(Ok(j)) => j, _ => { w.count("valid_but_not_accepted"); return Ok(()) } };
        w.saw_str(&t);
        w.count("values_compared");
        v.same(&j).map_err(|e| format!("parse({}): {}", json_str(&clip(&t, 600)), e))
    }));
    // the same key in different spellings, many times
    s.push(stream("duplicates", ctx.n(20, 40_000, 600_000), |w, _| {
        let (v, t) = w.g(|g, _| {
            let keys: Vec<String> = (0..g.r.range(1, 3)).map(|_| g.key()).collect();
            let n = g.size(400).max(2);
            let m: Vec<(String, V)> = (0..n).map(|i| (g.r.pick(&keys).clone(), if g.r.chance(1, 8) { let mut b = 5; g.value(2, &mut b) } else { V::Num(i as f64) })).collect();
            let mut t = String::from("{");
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 { t.push(',') }
                let esc = g.r.below(5);
                g.render_str(k, esc, &mut t);
                t.push(':');
                let x = g.render(x);
                t.push_str(&x);
            }
            t.push('}');
            (V::Obj(m), t)
        });
        let j = match call(|| Json::parse(&t)) { Ok(Ok(j)) => j, _ => { w.count("valid_but_not_accepted"); return Ok(()) } };
        w.saw_str(&t);
        w.count("duplicate_objects");
        v.same(&j).map_err(|e| format!("parse({}): {}", json_str(&clip(&t, 600)), e))?;
        // the last one is what lookup finds
        if let (V::Obj(m), Json::Object(_)) = (&v, &j) {
            for (k, _) in m.iter().take(3) {
                let got = call(|| j.find(k.as_str()).map(|x| V::of(x)))?.map_err(|e| format!("lookup of {:?} in {}: {}", k, t, e))?;
                if !got.eq(v.all(k).last().unwrap()) { return Err(format!("lookup of {:?} in {} is not the last value", k, clip(&t, 300))); }
            }
        }
        Ok(())
    }));
    s
}
