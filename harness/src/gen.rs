//! Generators of values, texts, broken texts, numbers, strings and paths.
use crate::dict::Dict;
use crate::model::{Step, V};
use crate::rng::Rng;

/// small cases only, for the instrumented and interpreted builds (0: no limit)
pub static LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn lim(n: usize) -> usize { match LIMIT.load(std::sync::atomic::Ordering::Relaxed) { 0 => n, l => n.min(l) } }

pub struct G<'a> { pub r: &'a mut Rng, pub d: &'a Dict }

const SPECIAL: &[char] = &[
    '"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t', '\0', '\u{1}', '\u{b}', '\u{1f}', ' ', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}',
    '[', ']', '{', '}', ',', ':', '#', '.', '\'', 'n', 'u', 't', 'f', 'r', 'b', '0', '1', '9', '-', '+', 'e', 'E', 'x', '&', '<', '>', '$', '%', '@', '`', '~', '*',
    '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}',
    '\u{10000}', '\u{103ff}', '\u{10400}', '\u{1f496}', '\u{1f600}', '\u{fffff}', '\u{100000}', '\u{10fc00}', '\u{10ffff}', '测', '试', 'é', 'ß', '€', 'İ',
];

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, d: &'a Dict) -> G<'a> { G { r, d } }

    /// a "how many": mostly small, sometimes around a power of two or around a constant of the source
    pub fn size(&mut self, cap: usize) -> usize {
        let cap = lim(cap);
        let n = match self.r.below(100) {
            0..=11 => 0,
            12..=29 => 1,
            30..=64 => self.r.range(2, 4),
            65..=84 => self.r.range(3, 12),
            85..=91 => self.r.range(5, 40),
            92..=93 => self.r.range(10, 140),
            94..=96 => {
                let k = self.r.range(2, 16);
                ((1usize << k) + self.r.below(3)).wrapping_sub(1)
            }
            _ => return self.const_size(cap),
        };
        n.min(cap)
    }
    pub fn const_size(&mut self, cap: usize) -> usize {
        let cap = lim(cap);
        if self.d.ints.is_empty() { return self.r.below(5).min(cap) }
        for _ in 0..4 {
            let n = *self.r.pick(&self.d.ints) as usize;
            let n = n.wrapping_add(self.r.below(3)).wrapping_sub(1);
            if n <= cap { return n }
        }
        self.r.below(cap + 1).min(6)
    }

    pub fn ch(&mut self) -> char {
        match self.r.below(12) {
            0..=3 => (b'a' + self.r.below(26) as u8) as char,
            4 => (b' ' + self.r.below(95) as u8) as char,
            5..=6 => *self.r.pick(SPECIAL),
            7 => if self.d.chars.is_empty() { 'd' } else {
                let c = *self.r.pick(&self.d.chars);
                match self.r.below(3) { 0 => c, 1 => char::from_u32(c as u32 + 1).unwrap_or(c), _ => char::from_u32((c as u32).wrapping_sub(1)).unwrap_or(c) }
            },
            8 => self.any(0x20),
            9 => self.any(0x800),
            10 => self.any(0x10000),
            _ => self.any(0x110000),
        }
    }
    pub fn any(&mut self, below: u32) -> char {
        loop { if let Some(c) = char::from_u32(self.r.below(below as usize) as u32) { return c } }
    }

    pub fn string(&mut self, cap: usize) -> String {
        match self.r.below(20) {
            0 => String::new(),
            1..=5 => { let n = self.size(cap); (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect() }
            6..=10 => { let n = self.size(cap); (0..n).map(|_| self.ch()).collect() }
            11 => { let n = self.r.range(1, 6).min(cap.max(1)); (0..n).map(|_| *self.r.pick(SPECIAL)).collect() }
            12 => { // one special character somewhere in a run
                let n = self.size(cap);
                let a = if n == 0 { 0 } else { self.r.below(n) };
                let f = if self.r.chance(1, 2) { 'a' } else { self.ch() };
                let mut s: String = std::iter::repeat(f).take(a).collect();
                s.push(self.ch());
                s.extend(std::iter::repeat(f).take(n - a));
                s
            }
            13 => if self.d.strs.is_empty() { "k".into() } else {
                let mut s = self.r.pick(&self.d.strs).clone();
                match self.r.below(4) { 0 => s.push(self.ch()), 1 => s.insert(0, self.ch()), _ => () }
                s
            },
            14 => (*self.r.pick(&["[", "]", "{", "}", ",", ":", "\"", "\\", "[\"", "\\\"", "null", "true", "false", "0", "-1", "1e5", "[]", "{}", "{\"a\": 1}", "[1, 2]", "\\u0041", "//", "/*", "\\\\", "a,b", "a:b", "]}"])).into(),
            15 => (*self.r.pick(&["#", "#0", "#1", "\\#", ".", "..", "a.b", "\\", "\\.", "a\\", "\\\\", "a.", ".a", "#a", "a#0", " ", "#-1", "\\a", "a\\.b", "#00", "__proto__", "0", "1"])).into(),
            16 => { let n = self.r.range(1, 8); (0..n).map(|_| self.any(0x110000)).collect() }
            17 => { let n = self.r.range(1, 4); (0..n).map(|_| { let mut c = self.any(0x110000); while (c as u32) < 0x10000 { c = self.any(0x110000) } c }).collect() }
            18 => self.number_text(),
            _ => { let c = self.ch(); let n = self.size(cap); std::iter::repeat(c).take(n).collect() }
        }
    }

    /// a key: from a small pool (so that duplicates and hits happen) or any string
    pub fn key(&mut self) -> String {
        match self.r.below(10) {
            0..=5 => (*self.r.pick(&["a", "b", "c", "k", "x", "name", "id", "", "A", "aa", "ab"])).into(),
            6 => format!("k{}", self.r.below(20)),
            _ => self.string(40),
        }
    }

    pub fn num(&mut self) -> f64 {
        let f = match self.r.below(16) {
            0..=3 => self.r.below(20) as f64,
            4 => self.r.below(100000) as f64 / *self.r.pick(&[1.0, 2.0, 10.0, 100.0, 1000.0]),
            5 => { let k = self.r.below(64); (1u64 << k) as f64 + self.r.below(3) as f64 - 1.0 }
            6 => f64::from_bits(self.r.next()),
            7 => { let e = self.r.range(0x3ff - 60, 0x3ff + 70) as u64; f64::from_bits((self.r.next() >> 12) | (e << 52)) }
            8 => f64::from_bits(self.r.next() >> self.r.range(12, 60)), // subnormal
            9 => *self.r.pick(&[0.0, 1.0, 0.1, 0.5, 1.5, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e21, 1e22, 1e23, 9007199254740991.0, 9007199254740992.0, 9007199254740993.0,
                4294967295.0, 4294967296.0, 2147483647.0, 2147483648.0, 1e15, 1e16, 1e17, 1e-5, 1e-6, 1e-7, 123456789012345680.0, 0.30000000000000004, f64::EPSILON, 1e300, 1e-300, 18446744073709551615.0, 9223372036854775807.0]),
            10 => { let m = self.r.below(1 << 20) as f64; m * 10f64.powi(self.r.below(640) as i32 - 330) }
            11 => if self.d.ints.is_empty() { 3.0 } else { (*self.r.pick(&self.d.ints)) as f64 + self.r.below(3) as f64 - 1.0 },
            12 => if self.d.floats.is_empty() { 0.25 } else { let f: f64 = self.r.pick(&self.d.floats).parse().unwrap(); *self.r.pick(&[f, f * 2.0, f / 2.0, f64::from_bits(f.to_bits().wrapping_add(1)), f64::from_bits(f.to_bits().wrapping_sub(1))]) },
            13 => (self.r.next() >> self.r.below(64)) as f64,
            14 => 10f64.powi(self.r.below(40) as i32),
            _ => (self.r.next() >> self.r.range(11, 63)) as f64 / 1000.0,
        };
        let f = if f.is_finite() { f } else { 7.0 };
        if self.r.chance(1, 3) { -f } else { f }
    }
    /// also NaN and infinities
    pub fn any_num(&mut self) -> f64 {
        if self.r.chance(1, 12) { *self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]) } else { self.num() }
    }

    pub fn number_text(&mut self) -> String {
        let mut s = String::new();
        if self.r.chance(1, 3) { s.push('-') }
        match self.r.below(12) {
            0..=5 => {
                let n = self.size(60).max(1);
                for i in 0..n {
                    let c = b'0' + self.r.below(10) as u8;
                    if i == 0 && c == b'0' && n > 1 { s.push('7') } else { s.push(c as char) }
                }
                if self.r.chance(1, 2) {
                    s.push('.');
                    let n = self.size(60).max(1);
                    let zeros = self.r.chance(1, 6);
                    for _ in 0..n { s.push(if zeros { '0' } else { (b'0' + self.r.below(10) as u8) as char }) }
                }
                if self.r.chance(1, 3) {
                    s.push(*self.r.pick(&['e', 'E']));
                    s.push_str(*self.r.pick(&["", "+", "-"]));
                    if self.r.chance(1, 8) { s.push_str("00") }
                    let e = match self.r.below(6) { 0 => self.r.below(400), 1 => self.r.below(5), 2 => self.const_size(400), 3 => 0, _ => self.r.below(40) };
                    s.push_str(&e.to_string());
                }
            }
            6 => { s.push_str("0."); for _ in 0..self.size(400) { s.push('0') } for _ in 0..self.size(30).max(1) { s.push((b'0' + self.r.below(10) as u8) as char) } }
            7 => { // halfway between two doubles, exactly or just off
                let bits = match self.r.below(4) { 0 => self.r.next() & 0x7fff_ffff_ffff_ffff, 1 => self.r.next() >> 12, 2 => ((self.r.range(1020, 1090) as u64) << 52) | (self.r.next() >> 12), _ => self.num().abs().to_bits() };
                let bits = if bits >= 0x7ff0_0000_0000_0000 { 0x7fef_ffff_ffff_ffff } else { bits };
                let t = crate::bignum::exact_mid(bits);
                let (m, e) = match t.find('e') { Some(i) => (t[..i].to_string(), t[i..].to_string()), None => (t, String::new()) };
                s.push_str(&m);
                if self.r.chance(1, 2) {
                    // digits after the last place: exact, above
                    s.push('.');
                    s.push_str(*self.r.pick(&["0", "000000000000000000000000000001", "5"]));
                }
                s.push_str(&e);
            }
            8 => { s.push_str(&format!("{:e}", self.num().abs())) }
            9 => { s.push_str(&format!("{}", self.num().abs())) }
            10 => { s.push('1'); for _ in 0..self.size(330) { s.push('0') } if self.r.chance(1, 2) { s.push_str(&format!("e-{}", self.r.below(340))) } }
            _ => { // near the limits
                s.push_str(*self.r.pick(&["1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "179769313486231570000e289", "2.2250738585072014e-308", "2.2250738585072011e-308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
                    "1e308", "1e-324", "1e-400", "0e999999", "0.0e-999999", "0e99999999999999999999", "1e-99999999999999999999", "9007199254740993", "9007199254740992.5", "0.1e1", "100000000000000000000000e-22", "3e-324", "0.000001e314", "123456789e300",
                    "1.7976931348623158079e308", "1.797693134862315807937e308"]));
            }
        }
        s
    }

    fn leaf(&mut self, cap: usize) -> V {
        match self.r.below(10) {
            0 => V::Null,
            1 => V::Bool(true),
            2 => V::Bool(false),
            3..=5 => V::Num(self.num()),
            _ => V::Str(self.string(cap)),
        }
    }

    pub fn value(&mut self, depth: usize, budget: &mut usize) -> V {
        if *budget == 0 { return V::Null }
        *budget -= 1;
        if depth == 0 || self.r.chance(1, 3) {
            let cap = *budget + 8;
            return self.leaf(cap);
        }
        let n = self.size(*budget);
        if self.r.chance(1, 2) {
            let mut a = Vec::new();
            for _ in 0..n { if *budget == 0 { break } a.push(self.value(depth - 1, budget)) }
            V::Arr(a)
        } else {
            let mut m = Vec::new();
            for _ in 0..n { if *budget == 0 { break } let k = self.key(); m.push((k, self.value(depth - 1, budget))) }
            V::Obj(m)
        }
    }

    /// a document of one of several shapes
    pub fn doc(&mut self) -> V { self.doc_sized(300) }
    pub fn doc_sized(&mut self, cap: usize) -> V {
        let cap = lim(cap);
        match self.r.below(20) {
            0..=10 => { let mut b = self.r.range(3, 40.min(cap.max(3))); let d = self.r.range(1, 5); self.container(d, &mut b) }
            11..=12 => { let mut b = cap; let d = self.r.range(1, 8); self.container(d, &mut b) }
            13 => { let mut b = 12; let d = self.r.range(0, 3); self.value(d, &mut b) }
            14 => { // wide array
                let n = self.size(cap);
                let proto = self.leaf(12);
                let vary = self.r.chance(1, 2);
                V::Arr((0..n).map(|i| if vary { V::Num(i as f64) } else { proto.clone() }).collect())
            }
            15 => { // many keys
                let n = self.size(cap);
                V::Obj((0..n).map(|i| (format!("k{}", i), V::Num(i as f64))).collect())
            }
            16 => { // many duplicates of few keys
                let n = self.size(cap);
                let keys: Vec<String> = (0..self.r.range(1, 4)).map(|_| self.key()).collect();
                V::Obj((0..n).map(|i| (self.r.pick(&keys).clone(), V::Num(i as f64))).collect())
            }
            17 => { // deep chain
                let n = self.size(cap.min(120));
                let mut v = self.leaf(10);
                for i in 0..n {
                    let side = self.r.chance(1, 4);
                    v = if self.r.chance(1, 2) {
                        if side { V::Arr(vec![V::Num(i as f64), v]) } else { V::Arr(vec![v]) }
                    } else {
                        let k = self.key();
                        if side { V::Obj(vec![(k.clone(), V::Num(i as f64)), (k, v)]) } else { V::Obj(vec![(k, v)]) }
                    };
                }
                v
            }
            18 => { let n = self.r.range(0, 6); V::Arr((0..n).map(|_| V::Str(self.string(cap))).collect()) }
            _ => { let n = self.r.range(0, 6); V::Obj((0..n).map(|_| { let k = self.string(cap); let mut b = 6; (k, self.value(2, &mut b)) }).collect()) }
        }
    }
    pub fn container(&mut self, depth: usize, budget: &mut usize) -> V {
        loop {
            let save = *budget;
            let v = self.value(depth, budget);
            if matches!(v, V::Arr(_) | V::Obj(_)) || self.r.chance(1, 12) { return v }
            *budget = save;
        }
    }

    // ---- texts ----

    fn ws(&mut self, style: usize, out: &mut String) {
        match style {
            0 => (),
            1 => if self.r.chance(1, 3) { out.push(' ') },
            2 => for _ in 0..self.r.below(4) { out.push(*self.r.pick(&[' ', '\t', '\n', '\r'])) },
            3 => if self.r.chance(1, 20) { let n = self.size(300); let c = *self.r.pick(&[' ', '\t', '\n', '\r']); for _ in 0..n { out.push(c) } },
            _ => out.push_str(*self.r.pick(&["", " ", "\n", "\r\n", "\t"])),
        }
    }

    pub fn render(&mut self, v: &V) -> String {
        let ws = self.r.below(5);
        let esc = self.r.below(5);
        let mut s = String::new();
        self.ws(ws, &mut s);
        self.render_to(v, ws, esc, &mut s);
        self.ws(ws, &mut s);
        s
    }
    fn render_to(&mut self, v: &V, ws: usize, esc: usize, out: &mut String) {
        match v {
            V::Null => out.push_str("null"),
            V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            V::Num(f) => self.render_num(*f, out),
            V::Str(s) => self.render_str(s, esc, out),
            V::Arr(a) => {
                out.push('[');
                if a.is_empty() { self.ws(ws, out) }
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { out.push(',') }
                    self.ws(ws, out);
                    self.render_to(x, ws, esc, out);
                    self.ws(ws, out);
                }
                out.push(']');
            }
            V::Obj(m) => {
                out.push('{');
                if m.is_empty() { self.ws(ws, out) }
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 { out.push(',') }
                    self.ws(ws, out);
                    self.render_str(k, esc, out);
                    self.ws(ws, out);
                    out.push(':');
                    self.ws(ws, out);
                    self.render_to(x, ws, esc, out);
                    self.ws(ws, out);
                }
                out.push('}');
            }
        }
    }
    pub fn render_num(&mut self, f: f64, out: &mut String) {
        let plain = format!("{}", f);
        if plain.len() < 60 && self.r.chance(2, 3) {
            out.push_str(&plain);
            if self.r.chance(1, 8) { out.push_str(if plain.contains('.') { "000" } else { ".0" }) }
            if self.r.chance(1, 12) { out.push_str(*self.r.pick(&["e0", "E+0", "e-0", "E00"])) }
            return;
        }
        let e = format!("{:e}", f); // d.ddde-X
        let (m, x) = e.split_at(e.find('e').unwrap());
        let x: i64 = x[1..].parse().unwrap();
        match self.r.below(4) {
            0 => out.push_str(&e),
            1 => out.push_str(&format!("{}E{}{}", m, if x < 0 { "-" } else { "+" }, x.abs())),
            2 => { // all digits before the exponent
                let frac = m.split('.').nth(1).map_or(0, |s| s.len() as i64);
                let (sg, d) = if let Some(r) = m.strip_prefix('-') { ("-", r) } else { ("", m) };
                let d = d.replace('.', "");
                let d = d.trim_start_matches('0');
                let d = if d.is_empty() { "0" } else { d };
                out.push_str(&format!("{}{}e{}", sg, d, x - frac));
            }
            _ => out.push_str(&format!("{}{}e{}", m, if m.contains('.') { "00" } else { ".00" }, x)),
        }
    }
    pub fn render_str(&mut self, s: &str, esc: usize, out: &mut String) {
        out.push('"');
        for c in s.chars() { self.render_char(c, esc, out) }
        out.push('"');
    }
    fn u(&mut self, u: u32, out: &mut String) {
        let h = match self.r.below(3) {
            0 => format!("{:04x}", u),
            1 => format!("{:04X}", u),
            _ => format!("{:04x}", u).chars().map(|c| if self.r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        };
        out.push_str("\\u");
        out.push_str(&h);
    }
    pub fn render_char(&mut self, c: char, esc: usize, out: &mut String) {
        let short = match c { '"' => "\\\"", '\\' => "\\\\", '/' => "\\/", '\u{8}' => "\\b", '\u{c}' => "\\f", '\n' => "\\n", '\r' => "\\r", '\t' => "\\t", _ => "" };
        let must = c < ' ' || c == '"' || c == '\\';
        let how = match esc { 0 => 0, 1 => 2, 2 => self.r.below(3), 3 => if self.r.chance(1, 6) { 2 } else { 0 }, _ => 1 };
        if how == 0 && !must { out.push(c); return }
        if how <= 1 && !short.is_empty() { out.push_str(short); return }
        if how == 1 && !must { out.push(c); return }
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) { self.u(*u as u32, out) }
    }

    /// one to three small edits of a text
    pub fn mutate(&mut self, t: &str) -> String {
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..*self.r.pick(&[1, 1, 1, 2, 3]) {
            let n = c.len();
            let i = if n == 0 { 0 } else { self.r.below(n) };
            match self.r.below(12) {
                0 | 1 => if n > 0 { c.remove(i); },
                2 | 3 => { let x = self.structural(); c.insert(i.min(c.len()), x) }
                4 => if n > 0 { c[i] = self.structural() },
                5 => if n > 0 { c.truncate(i) },
                6 => if n > 0 { let x = c[i]; c.insert(i, x) },
                7 => if n > 1 { let j = self.r.below(n); c.swap(i, j) },
                8 => if n > 0 { // duplicate or drop a stretch
                    let l = self.r.range(1, 6).min(n - i);
                    if self.r.chance(1, 2) { let s: Vec<char> = c[i..i + l].to_vec(); for (k, x) in s.into_iter().enumerate() { c.insert(i + k, x) } } else { c.drain(i..i + l); }
                },
                9 => { // insert a token
                    let tok = *self.r.pick(&["null", "true", "false", "0", "-", "1.5", "\"\"", "\"a\"", "[]", "{}", ",", ":", ",,", "::", "\"a\":1", "\\u", "\\ud800", "\\udc00", "\\u00g0", "\\x", "//", "/**/", "\u{feff}", "\u{a0}", "\u{b}", "\u{c}", "'a'", "NaN", "01", "1.", ".5", "+1", "1e", "0x1", "\n", "  "]);
                    for (k, x) in tok.chars().enumerate() { c.insert((i + k).min(c.len()), x) }
                }
                10 => { // at a structural place
                    let places: Vec<usize> = (0..n).filter(|&k| "[]{},:\"\\".contains(c[k])).collect();
                    if !places.is_empty() {
                        let k = *self.r.pick(&places);
                        match self.r.below(4) {
                            0 => { c.remove(k); }
                            1 => { let x = c[k]; c.insert(k, x) }
                            2 => c[k] = *self.r.pick(&['[', ']', '{', '}', ',', ':', '"', '\\', ' ']),
                            _ => { let x = self.structural(); c.insert(k + self.r.below(2), x) }
                        }
                    }
                }
                _ => { let x = self.ch(); c.insert(i.min(c.len()), x) }
            }
        }
        c.into_iter().collect()
    }
    fn structural(&mut self) -> char {
        match self.r.below(4) {
            0..=1 => *self.r.pick(&['[', ']', '{', '}', ',', ':', '"', '\\']),
            2 => *self.r.pick(&[' ', '\t', '\n', '\r', '0', '1', '-', '+', '.', 'e', 'E', 'n', 't', 'f', 'u', 'l', '/', '\'']),
            _ => self.ch(),
        }
    }

    // ---- paths ----

    /// a path into the document: follows it for a while, then perhaps leaves it
    pub fn path(&mut self, v: &V) -> Vec<Step> {
        let want = self.r.range(1, 6);
        let stray = self.r.below(4); // 0: never, else sometimes
        let mut p = Vec::new();
        let mut cur = Some(v);
        while p.len() < want {
            let off = stray > 0 && self.r.chance(1, 6);
            let s = match cur {
                Some(V::Obj(m)) if !m.is_empty() && !off => Step::K(self.r.pick(m).0.clone()),
                Some(V::Arr(a)) if !a.is_empty() && !off => Step::I(self.r.below(a.len())),
                Some(V::Obj(m)) if self.r.chance(2, 3) => Step::K(if m.is_empty() || self.r.chance(1, 2) { self.key() } else {
                    // a neighbour of an existing key
                    let mut k = self.r.pick(m).0.clone();
                    if self.r.chance(1, 2) { k.push(self.ch()) } else { k.pop(); }
                    k
                }),
                Some(V::Arr(a)) if self.r.chance(2, 3) => Step::I(a.len() + if self.r.chance(1, 2) { 0 } else { self.size(50) }),
                None | Some(_) => {
                    if !p.is_empty() && self.r.chance(1, 2) && stray < 2 { break }
                    self.stray_step()
                }
            };
            cur = cur.and_then(|c| c.step(&s).ok());
            p.push(s);
        }
        p
    }
    pub fn stray_step(&mut self) -> Step {
        if self.r.chance(1, 2) { Step::K(self.key()) } else { Step::I(self.size(60)) }
    }

    /// is there a spelling of this path as a string?
    pub fn spellable(p: &[Step]) -> bool {
        if p.len() == 1 && p[0] == Step::K(String::new()) { return false }
        p.iter().enumerate().all(|(i, s)| match s { Step::K(k) => i + 1 == p.len() || !k.ends_with('\\'), _ => true })
    }
    pub fn spell(p: &[Step]) -> String {
        let mut out = String::new();
        for (i, s) in p.iter().enumerate() {
            if i > 0 { out.push('.') }
            match s {
                Step::I(n) => out.push_str(&format!("#{}", n)),
                Step::K(k) => {
                    if k.starts_with('#') || k.starts_with('\\') { out.push('\\') }
                    for c in k.chars() { if c == '.' { out.push('\\') } out.push(c) }
                }
            }
        }
        out
    }
}
