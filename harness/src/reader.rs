//! Independent strict reader of RFC 8259: iterative, over bytes, no recursion and no shared code
//! with the library. Says of a text whether it is grammatical and what it denotes.
use crate::model::V;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RErr {
    /// not in the grammar
    Syntax(usize),
    /// grammatical, but a number rounds beyond the largest finite double
    Overflow,
    /// grammatical, but a surrogate escape is not part of a high-low pair
    Surrogate,
}

enum Frame { Arr(Vec<V>), Obj(Vec<(String, V)>, String) }

struct R<'a> { s: &'a [u8], t: &'a str, i: usize, soft: Option<RErr>, nums: Option<&'a mut Vec<(usize, usize)>> }

/// reads a whole text
pub fn read(t: &str) -> Result<V, RErr> { read_impl(t, None) }

/// also reports where the number tokens are
pub fn read_numbers(t: &str) -> (Result<V, RErr>, Vec<(usize, usize)>) {
    let mut v = Vec::new();
    let r = read_impl(t, Some(&mut v));
    (r, v)
}

fn read_impl<'a>(t: &'a str, nums: Option<&'a mut Vec<(usize, usize)>>) -> Result<V, RErr> {
    let mut r = R { s: t.as_bytes(), t, i: 0, soft: None, nums };
    let v = r.document()?;
    match r.soft { Some(e) => Err(e), None => Ok(v) }
}

impl<'a> R<'a> {
    fn err<T>(&self) -> Result<T, RErr> { Err(RErr::Syntax(self.i)) }
    fn peek(&self) -> Option<u8> { self.s.get(self.i).copied() }
    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.peek() { self.i += 1 }
    }

    fn document(&mut self) -> Result<V, RErr> {
        let mut stack: Vec<Frame> = Vec::new();
        let mut v: V;
        'value: loop {
            // a value is expected
            self.ws();
            match self.peek() {
                Some(b'[') => {
                    self.i += 1;
                    self.ws();
                    if self.peek() == Some(b']') {
                        self.i += 1;
                        v = V::Arr(Vec::new());
                    } else {
                        stack.push(Frame::Arr(Vec::new()));
                        continue 'value;
                    }
                }
                Some(b'{') => {
                    self.i += 1;
                    self.ws();
                    if self.peek() == Some(b'}') {
                        self.i += 1;
                        v = V::Obj(Vec::new());
                    } else {
                        let k = self.key()?;
                        stack.push(Frame::Obj(Vec::new(), k));
                        continue 'value;
                    }
                }
                Some(b'"') => v = V::Str(self.string()?),
                Some(b'-' | b'0'..=b'9') => v = self.number()?,
                Some(b't') => { self.word("true")?; v = V::Bool(true) }
                Some(b'f') => { self.word("false")?; v = V::Bool(false) }
                Some(b'n') => { self.word("null")?; v = V::Null }
                _ => return self.err(),
            }
            // a value is complete
            loop {
                self.ws();
                match stack.pop() {
                    None => {
                        if self.i != self.s.len() { return self.err() }
                        return Ok(v);
                    }
                    Some(Frame::Arr(mut a)) => {
                        a.push(v);
                        match self.peek() {
                            Some(b',') => { self.i += 1; stack.push(Frame::Arr(a)); continue 'value }
                            Some(b']') => { self.i += 1; v = V::Arr(a) }
                            _ => return self.err(),
                        }
                    }
                    Some(Frame::Obj(mut m, k)) => {
                        m.push((k, v));
                        match self.peek() {
                            Some(b',') => {
                                self.i += 1;
                                self.ws();
                                let k = self.key()?;
                                stack.push(Frame::Obj(m, k));
                                continue 'value;
                            }
                            Some(b'}') => { self.i += 1; v = V::Obj(m) }
                            _ => return self.err(),
                        }
                    }
                }
            }
        }
    }

    fn key(&mut self) -> Result<String, RErr> {
        if self.peek() != Some(b'"') { return self.err() }
        let k = self.string()?;
        self.ws();
        if self.peek() != Some(b':') { return self.err() }
        self.i += 1;
        Ok(k)
    }

    fn word(&mut self, w: &str) -> Result<(), RErr> {
        if self.s[self.i..].starts_with(w.as_bytes()) { self.i += w.len(); Ok(()) } else { self.err() }
    }

    fn hex4(&mut self) -> Result<u32, RErr> {
        let mut u = 0;
        for _ in 0..4 {
            let d = match self.peek() {
                Some(b @ b'0'..=b'9') => b - b'0',
                Some(b @ b'a'..=b'f') => b - b'a' + 10,
                Some(b @ b'A'..=b'F') => b - b'A' + 10,
                _ => return self.err(),
            };
            u = u * 16 + d as u32;
            self.i += 1;
        }
        Ok(u)
    }

    fn string(&mut self) -> Result<String, RErr> {
        self.i += 1;
        let mut out = String::new();
        let mut units: Vec<u16> = Vec::new(); // pending \u units
        let mut run = self.i;
        loop {
            let b = match self.peek() { Some(b) => b, None => return self.err() };
            if b == b'\\' && self.s.get(self.i + 1) == Some(&b'u') {
                if run < self.i { self.flush(&mut units, &mut out); out.push_str(&self.t[run..self.i]); }
                self.i += 2;
                units.push(self.hex4()? as u16);
                run = self.i;
                continue;
            }
            match b {
                b'"' => {
                    self.flush_before(&mut units, &mut out, run);
                    self.i += 1;
                    return Ok(out);
                }
                b'\\' => {
                    self.flush_before(&mut units, &mut out, run);
                    let c = match self.s.get(self.i + 1) {
                        Some(b'"') => '"', Some(b'\\') => '\\', Some(b'/') => '/', Some(b'b') => '\u{8}',
                        Some(b'f') => '\u{c}', Some(b'n') => '\n', Some(b'r') => '\r', Some(b't') => '\t',
                        _ => return self.err(),
                    };
                    out.push(c);
                    self.i += 2;
                    run = self.i;
                }
                0..=0x1f => return self.err(),
                _ => self.i += 1,
            }
        }
    }
    fn flush_before(&mut self, units: &mut Vec<u16>, out: &mut String, run: usize) {
        self.flush(units, out);
        out.push_str(&self.t[run..self.i]);
    }
    fn flush(&mut self, units: &mut Vec<u16>, out: &mut String) {
        for r in char::decode_utf16(units.drain(..)) {
            match r { Ok(c) => out.push(c), Err(_) => self.soft = self.soft.or(Some(RErr::Surrogate)) }
        }
    }

    fn digits(&mut self) -> Result<(), RErr> {
        if !matches!(self.peek(), Some(b'0'..=b'9')) { return self.err() }
        while let Some(b'0'..=b'9') = self.peek() { self.i += 1 }
        Ok(())
    }

    fn number(&mut self) -> Result<V, RErr> {
        let start = self.i;
        if self.peek() == Some(b'-') { self.i += 1 }
        match self.peek() {
            Some(b'0') => self.i += 1,
            Some(b'1'..=b'9') => self.digits()?,
            _ => return self.err(),
        }
        if self.peek() == Some(b'.') { self.i += 1; self.digits()? }
        if let Some(b'e' | b'E') = self.peek() {
            self.i += 1;
            if let Some(b'+' | b'-') = self.peek() { self.i += 1 }
            self.digits()?;
        }
        if let Some(n) = self.nums.as_mut() { n.push((start, self.i)) }
        let f: f64 = self.t[start..self.i].parse().unwrap();
        if !f.is_finite() { self.soft = self.soft.or(Some(RErr::Overflow)) }
        Ok(V::Num(f))
    }
}
