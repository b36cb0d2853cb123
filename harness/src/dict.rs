//! Constants harvested from the library's sources when the check runs: numbers, strings and
//! characters that the code treats specially are used as lengths, counts, indices, code points,
//! number values and string contents. Only steers generation; no verdict depends on it.
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct Dict { pub ints: Vec<u64>, pub strs: Vec<String>, pub floats: Vec<String>, pub chars: Vec<char> }

fn files(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = match std::fs::read_dir(d) { Ok(r) => r.flatten().map(|e| e.path()).collect(), Err(_) => return };
    v.sort();
    for p in v {
        if p.is_dir() { files(&p, out) } else if p.extension().map_or(false, |e| e == "rs") { out.push(p) }
    }
}

pub fn harvest(root: &str) -> Dict {
    let mut fs = Vec::new();
    files(&Path::new(root).join("src"), &mut fs);
    let mut d = Dict::default();
    for f in fs {
        if let Ok(s) = std::fs::read_to_string(&f) {
            // the test module only repeats what the library's own tests use
            let s = match s.find("#[cfg(test)]") { Some(i) => s[..i].to_string(), None => s };
            scan(&s, &mut d);
        }
    }
    d.ints.sort(); d.ints.dedup();
    d.strs.sort(); d.strs.dedup();
    d.floats.sort(); d.floats.dedup();
    d.chars.sort(); d.chars.dedup();
    d.ints.truncate(400); d.strs.truncate(400); d.floats.truncate(100); d.chars.truncate(400);
    d
}

fn unescape(it: &mut std::iter::Peekable<std::str::Chars>) -> Option<char> {
    match it.next()? {
        'n' => Some('\n'), 't' => Some('\t'), 'r' => Some('\r'), '0' => Some('\0'),
        'x' => {
            let h: String = [it.next()?, it.next()?].iter().collect();
            u32::from_str_radix(&h, 16).ok().and_then(char::from_u32)
        }
        'u' => {
            if it.next()? != '{' { return None }
            let mut h = String::new();
            loop { match it.next()? { '}' => break, '_' => (), c => h.push(c) } }
            u32::from_str_radix(&h, 16).ok().and_then(char::from_u32)
        }
        c => Some(c),
    }
}

fn scan(s: &str, d: &mut Dict) {
    let mut it = s.chars().peekable();
    let mut prev_ident = false;
    let mut last: Option<u64> = None; // for a * b and a << b
    let mut op: Option<char> = None;
    while let Some(c) = it.next() {
        match c {
            '/' if it.peek() == Some(&'/') => { while let Some(c) = it.next() { if c == '\n' { break } } last = None; }
            '"' => {
                let mut t = String::new();
                let mut ok = true;
                loop {
                    match it.next() {
                        None => return,
                        Some('"') => break,
                        Some('\\') => match unescape(&mut it) { Some(c) => t.push(c), None => ok = false },
                        Some(c) => t.push(c),
                    }
                }
                // messages with placeholders are not data
                if ok && !t.is_empty() && t.chars().count() <= 64 && !t.contains("{}") { d.strs.push(t) }
                prev_ident = false; last = None;
            }
            '\'' => {
                let mut look = it.clone();
                let ch = match look.next() { Some('\\') => unescape(&mut look), o => o };
                if let (Some(ch), Some('\'')) = (ch, look.next()) { d.chars.push(ch); it = look; }
                prev_ident = false; last = None;
            }
            '0'..='9' if !prev_ident => {
                let mut t = String::new();
                t.push(c);
                let mut float = false;
                while let Some(&n) = it.peek() {
                    if n.is_ascii_alphanumeric() || n == '_' { t.push(n); it.next(); }
                    else if n == '.' && !float {
                        let mut l = it.clone();
                        l.next();
                        if l.peek().map_or(false, |c| c.is_ascii_digit()) { float = true; t.push('.'); it.next(); } else { break }
                    } else if (n == '-' || n == '+') && (t.ends_with('e') || t.ends_with('E')) && !t.starts_with("0x") { t.push(n); it.next(); }
                    else { break }
                }
                let t = t.replace('_', "");
                let v = if let Some(h) = t.strip_prefix("0x") { num(h, 16) }
                    else if let Some(h) = t.strip_prefix("0b") { num(h, 2) }
                    else if let Some(h) = t.strip_prefix("0o") { num(h, 8) }
                    else { num(&t, 10) };
                if let Some(v) = v {
                    if !float {
                        d.ints.push(v);
                        if let Ok(ch) = u32::try_from(v) { if let Some(ch) = char::from_u32(ch) { if v > 32 { d.chars.push(ch) } } }
                        if let (Some(a), Some(o)) = (last, op) {
                            let r = match o {
                                '*' => a.checked_mul(v), '+' => a.checked_add(v), '-' => a.checked_sub(v), '/' => a.checked_div(v),
                                '<' if v < 64 => a.checked_shl(v as u32), '^' => None, _ => None,
                            };
                            if let Some(r) = r { d.ints.push(r); last = Some(r); } else { last = Some(v) }
                        } else { last = Some(v) }
                        op = None;
                        prev_ident = false;
                        continue;
                    }
                }
                let f: String = t.trim_end_matches("f64").trim_end_matches("f32").to_string();
                if let Ok(x) = f.parse::<f64>() { if x.is_finite() { d.floats.push(format!("{:e}", x)) } }
                prev_ident = false; last = None;
            }
            c if c.is_alphanumeric() || c == '_' => { prev_ident = true; last = None; }
            '*' | '+' | '-' | '/' => { op = Some(c); prev_ident = false; }
            '<' => { op = if it.peek() == Some(&'<') { it.next(); Some('<') } else { None }; prev_ident = false; if op.is_none() { last = None } }
            c if c.is_whitespace() => prev_ident = false,
            _ => { prev_ident = false; last = None; op = None; }
        }
    }
}

fn num(t: &str, radix: u32) -> Option<u64> {
    let end = if radix == 16 { t.find(|c: char| c == 'u' || c == 'i') } else { t.find(|c: char| !c.is_digit(radix)) };
    let (n, suf) = match end { Some(i) => t.split_at(i), None => (t, "") };
    if n.is_empty() { return None }
    if !(suf.is_empty() || suf.starts_with('u') || suf.starts_with('i')) { return None }
    u64::from_str_radix(n, radix).ok()
}
