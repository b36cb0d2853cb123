//! Exact decimal to double conversion with big integers, as the oracle for numbers.
use std::cmp::Ordering;

#[derive(Clone)]
struct Big(Vec<u32>); // little endian

impl Big {
    fn from(n: u64) -> Big {
        let mut b = Big(vec![n as u32, (n >> 32) as u32]);
        b.trim();
        b
    }
    fn trim(&mut self) { while self.0.last() == Some(&0) { self.0.pop(); } }
    fn mul_add(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for d in self.0.iter_mut() {
            let t = *d as u64 * m as u64 + c;
            *d = t as u32;
            c = t >> 32;
        }
        if c > 0 { self.0.push(c as u32) }
    }
    fn mul_pow10(&mut self, mut e: usize) {
        while e >= 9 { self.mul_add(1_000_000_000, 0); e -= 9 }
        while e > 0 { self.mul_add(10, 0); e -= 1 }
    }
    fn shl(&mut self, n: usize) {
        if self.0.is_empty() { return }
        let (w, b) = (n / 32, n % 32);
        if b > 0 {
            let mut c = 0u32;
            for d in self.0.iter_mut() {
                let t = (*d << b) | c;
                c = *d >> (32 - b);
                *d = t;
            }
            if c > 0 { self.0.push(c) }
        }
        let mut v = vec![0; w];
        v.extend_from_slice(&self.0);
        self.0 = v;
    }
    fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    fn is_zero(&self) -> bool { self.0.is_empty() }
}

/// text of a JSON number -> (negative, digits without leading zeros, decimal exponent of the last digit)
fn split(t: &str) -> (bool, Vec<u8>, i64) {
    let (neg, t) = match t.strip_prefix('-') { Some(r) => (true, r), None => (false, t) };
    let (mant, exp) = match t.find(|c| c == 'e' || c == 'E') {
        Some(i) => {
            let (neg_e, d) = match t.as_bytes()[i + 1] {
                b'-' => (true, &t[i + 2..]),
                b'+' => (false, &t[i + 2..]),
                _ => (false, &t[i + 1..]),
            };
            let mut e: i64 = 0;
            for b in d.bytes() { e = (e * 10 + (b - b'0') as i64).min(1_000_000_000_000); }
            (&t[..i], if neg_e { -e } else { e })
        }
        None => (t, 0),
    };
    let mut digits: Vec<u8> = Vec::new();
    let mut e = exp;
    let mut frac = false;
    for b in mant.bytes() {
        if b == b'.' { frac = true; continue }
        if frac { e -= 1 }
        digits.push(b - b'0');
    }
    let lead = digits.iter().take_while(|d| **d == 0).count();
    digits.drain(..lead);
    while digits.last() == Some(&0) { digits.pop(); e += 1 }
    (neg, digits, e)
}

/// the double nearest to the decimal number, ties to even; infinite when it rounds beyond the largest finite one
pub fn nearest(t: &str) -> f64 {
    let (neg, digits, e) = split(t);
    let sign = |f: f64| if neg { -f } else { f };
    if digits.is_empty() { return sign(0.0) }
    let mag = digits.len() as i64 + e; // value < 10^mag, >= 10^(mag-1)
    if mag > 400 { return sign(f64::INFINITY) }
    if mag < -400 { return sign(0.0) }
    // value = num / den
    let mut num = Big(Vec::new());
    for &d in &digits { num.mul_add(10, d as u32); }
    num.trim();
    let mut den = Big::from(1);
    if e >= 0 { num.mul_pow10(e as usize) } else { den.mul_pow10((-e) as usize) }
    // binary search on the bits: the largest finite double (or zero) <= value
    let (mut lo, mut hi) = (0u64, 0x7ff0_0000_0000_0000u64); // lo <= value < hi (hi = infinity acts as 2^1024)
    if cmp_double(&num, &den, hi) != Ordering::Less { return sign(f64::INFINITY) }
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if cmp_double(&num, &den, mid) == Ordering::Less { hi = mid } else { lo = mid }
    }
    // compare with the midpoint of lo and hi
    let bits = match cmp_mid(&num, &den, lo) {
        Ordering::Less => lo,
        Ordering::Greater => hi,
        Ordering::Equal => if lo & 1 == 0 { lo } else { hi },
    };
    sign(f64::from_bits(bits))
}

/// mantissa and exponent: value = m * 2^e; also for the bits of infinity (2^1024)
fn parts(bits: u64) -> (u64, i64) {
    let ex = (bits >> 52) as i64;
    let fr = bits & ((1 << 52) - 1);
    if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) }
}
fn cmp_scaled(num: &Big, den: &Big, m: u64, e: i64) -> Ordering {
    // num/den <=> m * 2^e
    let mut r = den.clone();
    let mut t = Big(Vec::new());
    // r = den * m
    let (mlo, mhi) = (m as u32, (m >> 32) as u32);
    let mut a = r.clone();
    a.mul_add(mlo, 0);
    if mhi != 0 {
        r.mul_add(mhi, 0);
        r.shl(32);
        t = r;
    }
    let mut sum = add(&a, &t);
    sum.trim();
    let mut n = num.clone();
    if e >= 0 { sum.shl(e as usize) } else { n.shl((-e) as usize) }
    n.trim();
    if sum.is_zero() { return if n.is_zero() { Ordering::Equal } else { Ordering::Greater } }
    n.cmp(&sum)
}
fn add(a: &Big, b: &Big) -> Big {
    let mut v = Vec::with_capacity(a.0.len().max(b.0.len()) + 1);
    let mut c = 0u64;
    for i in 0..a.0.len().max(b.0.len()) {
        let t = *a.0.get(i).unwrap_or(&0) as u64 + *b.0.get(i).unwrap_or(&0) as u64 + c;
        v.push(t as u32);
        c = t >> 32;
    }
    if c > 0 { v.push(c as u32) }
    Big(v)
}
fn cmp_double(num: &Big, den: &Big, bits: u64) -> Ordering {
    let (m, e) = parts(bits);
    cmp_scaled(num, den, m, e)
}
fn cmp_mid(num: &Big, den: &Big, bits: u64) -> Ordering {
    let (m, e) = parts(bits);
    cmp_scaled(num, den, 2 * m + 1, e - 1)
}

/// exact decimal expansion of a finite double's midpoint to the next one: digits and exponent text, for halfway cases
pub fn exact_mid(bits: u64) -> String {
    let (m, e) = parts(bits);
    exact(2 * m + 1, e - 1)
}
/// exact decimal text of m * 2^e
pub fn exact(m: u64, e: i64) -> String {
    let mut b = Big::from(m);
    let mut e10 = 0;
    if e >= 0 { b.shl(e as usize) } else {
        // m * 2^e = m * 5^-e * 10^e
        for _ in 0..-e { b.mul_add(5, 0) }
        e10 = e;
    }
    let mut digits = Vec::new();
    while !b.is_zero() {
        let mut r = 0u64;
        for d in b.0.iter_mut().rev() {
            let t = (r << 32) | *d as u64;
            *d = (t / 10) as u32;
            r = t % 10;
        }
        b.trim();
        digits.push(b'0' + r as u8);
    }
    digits.reverse();
    let s = String::from_utf8(digits).unwrap();
    if e10 == 0 { s } else { format!("{}e{}", s, e10) }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn agrees_with_std() {
        let mut r = crate::rng::Rng::new(1);
        for _ in 0..20000 {
            let f = f64::from_bits(r.next() & 0x7fff_ffff_ffff_ffff);
            if !f.is_finite() { continue }
            for t in [format!("{:e}", f), format!("{}", f), exact_mid(f.to_bits())] {
                let want: f64 = t.parse().unwrap();
                assert_eq!(nearest(&t).to_bits(), want.to_bits(), "{}", t);
            }
        }
        assert!(nearest("1e309").is_infinite());
        assert!(nearest(&exact((1 << 54) - 1, 970)).is_infinite());
        assert_eq!(nearest(&exact((1 << 54) - 2, 970)), f64::MAX);
    }
}
