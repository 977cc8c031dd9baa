//! Enumeration helpers: everything is an index into a finite product space.

/// Number of strings of length 0..=max over k symbols.
pub fn strings_upto(k: usize, max: usize) -> usize {
    let mut t = 0usize;
    let mut p = 1usize;
    for _ in 0..=max {
        t += p;
        p *= k;
    }
    t
}

/// The i-th string (shortest first) over symbols 0..k.
pub fn string_at(k: usize, mut i: usize) -> Vec<usize> {
    let mut len = 0;
    let mut p = 1usize;
    while i >= p {
        i -= p;
        p *= k;
        len += 1;
    }
    let mut v = vec![0; len];
    for j in (0..len).rev() {
        v[j] = i % k;
        i /= k;
    }
    v
}

/// Mixed radix decomposition.
pub struct Digits(pub usize);
impl Digits {
    pub fn take(&mut self, radix: usize) -> usize {
        let r = self.0 % radix;
        self.0 /= radix;
        r
    }
}

/// All k-combinations (indices ascending) of 0..n.
pub fn combinations(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            rec(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(n, k, 0, &mut vec![], &mut out);
    out
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}

/// Sizes where a limit is likely to hide: every small number, and around powers of two and round numbers.
pub fn ladder(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    for p in 5..30 {
        let n = 1usize << p;
        v.extend([n - 1, n, n + 1, n + n / 2]);
    }
    let mut n = 50;
    while n <= max {
        v.extend([n, n + 1, 2 * n, 2 * n + 1]);
        n *= if n.to_string().starts_with('5') { 2 } else { 5 };
    }
    v.retain(|&n| n <= max);
    // around every number in the code
    for &n in crate::dict::numbers().iter().filter(|&&n| n <= max.saturating_mul(4).min(2_000_000)) {
        v.extend([n.saturating_sub(1), n, n + 1]);
    }
    v.sort();
    v.dedup();
    v
}
