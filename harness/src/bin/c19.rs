//! C19: possibly-UTF-8 strings never lose bytes or lie about their encoding.
use mc::gen::*;
use mc::*;
use rustful::context::{MaybeUtf8, MaybeUtf8Owned, MaybeUtf8Slice};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

/// Well-formed UTF-8 by the byte table of the Unicode standard (independent of std).
fn valid(b: &[u8]) -> bool {
    let mut i = 0;
    let c = |i: usize, lo: u8, hi: u8| b.get(i).map_or(false, |&x| lo <= x && x <= hi);
    while i < b.len() {
        i += match b[i] {
            0..=0x7f => 1,
            0xc2..=0xdf if c(i + 1, 0x80, 0xbf) => 2,
            0xe0 if c(i + 1, 0xa0, 0xbf) && c(i + 2, 0x80, 0xbf) => 3,
            0xe1..=0xec | 0xee..=0xef if c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) => 3,
            0xed if c(i + 1, 0x80, 0x9f) && c(i + 2, 0x80, 0xbf) => 3,
            0xf0 if c(i + 1, 0x90, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            0xf1..=0xf3 if c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            0xf4 if c(i + 1, 0x80, 0x8f) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            _ => return false,
        };
    }
    true
}

fn encode(c: char) -> Vec<u8> {
    let n = c as u32;
    let t = |s: u32| (0x80 | ((n >> s) & 0x3f)) as u8;
    match n {
        0..=0x7f => vec![n as u8],
        0x80..=0x7ff => vec![(0xc0 | (n >> 6)) as u8, t(0)],
        0x800..=0xffff => vec![(0xe0 | (n >> 12)) as u8, t(6), t(0)],
        _ => vec![(0xf0 | (n >> 18)) as u8, t(12), t(6), t(0)],
    }
}

const CHARS: [char; 5] = ['a', '\u{e9}', '\u{20ac}', '\u{1f600}', '\0'];
const BYTES: [u8; 10] = [b'a', 0, 0x80, 0x82, 0xa9, 0xac, 0xc3, 0xe2, 0xf0, 0xff];
const STRS: [&str; 5] = ["", "a", "\u{e9}", "b\u{20ac}", "\u{1f600}\0"];
const FRAGS: [&[u8]; 18] = [
    b"",
    b"ab",
    b"\xc3\xa9",
    b"\xc3",
    b"\xa9",
    b"\xe2\x82\xac",
    b"\xe2\x82",
    b"\x82\xac",
    b"\xac",
    b"\xf0\x9f",
    b"\x98\x80",
    b"\xf0\x9f\x98\x80",
    b"\xff",
    b"\xed\xa0\x80",
    b"\xc0\x80",
    b"\xf4\x90\x80\x80",
    b"a\xffb",
    b"\xa9\xc3",
];
// what is done with a borrowed buffer
const BUFOPS: usize = 14;

fn nops() -> usize {
    CHARS.len() + BYTES.len() + STRS.len() + FRAGS.len() + BUFOPS
}

fn op(mut k: usize, m: &mut Vec<u8>, s: &mut MaybeUtf8Owned) -> String {
    if k < CHARS.len() {
        s.push_char(CHARS[k]);
        m.extend(encode(CHARS[k]));
        return format!("push_char({:?})", CHARS[k]);
    }
    k -= CHARS.len();
    if k < BYTES.len() {
        s.push_byte(BYTES[k]);
        m.push(BYTES[k]);
        return format!("push_byte({:#x})", BYTES[k]);
    }
    k -= BYTES.len();
    if k < STRS.len() {
        s.push_str(STRS[k]);
        m.extend_from_slice(STRS[k].as_bytes());
        return format!("push_str({:?})", STRS[k]);
    }
    k -= STRS.len();
    if k < FRAGS.len() {
        s.push_bytes(FRAGS[k]);
        m.extend_from_slice(FRAGS[k]);
        return format!("push_bytes({})", esc(FRAGS[k]));
    }
    k -= FRAGS.len();
    let mut b = s.as_buffer();
    assert_eq!(&b[..], &m[..], "the buffer doesn't start with the string's bytes");
    match k {
        0 => {}
        1 => {
            b.push_bytes(b"\xc3");
            b.push_bytes(b"\xa9");
            m.extend_from_slice(b"\xc3\xa9");
        }
        2 => {
            b.push_char('\u{20ac}');
            m.extend(encode('\u{20ac}'));
        }
        3 => {
            b.push_bytes(b"\xff");
            b.push_char('x');
            m.extend_from_slice(b"\xffx");
        }
        4 => {
            b.clear();
            m.clear();
        }
        5 => {
            b.pop();
            m.pop();
        }
        6 => {
            b.insert(0, 0xc3);
            m.insert(0, 0xc3);
        }
        7 => {
            b.reverse();
            m.reverse();
        }
        8 => {
            b.retain(|&c| c < 0x80);
            m.retain(|&c| c < 0x80);
        }
        9 => {
            *b = vec![0xe2, 0x82];
            *m = vec![0xe2, 0x82];
        }
        10 => {
            b.push_char('\0');
            b.push_char('\u{10ffff}');
            m.push(0);
            m.extend(encode('\u{10ffff}'));
        }
        11 => {
            if let Some(c) = b.first_mut() {
                *c ^= 0x80;
            }
            if let Some(c) = m.first_mut() {
                *c ^= 0x80;
            }
        }
        12 => {
            let old: Vec<u8> = std::mem::replace(&mut *b, vec![]);
            b.push_bytes(&old);
        }
        _ => {
            b.push(0xe2);
            b.push_bytes(b"");
            m.push(0xe2);
        }
    }
    assert_eq!(&b[..], &m[..], "the buffer differs from what was put into it");
    drop(b);
    format!("buffer#{}", k)
}

fn start(k: usize) -> (Vec<u8>, MaybeUtf8Owned, String) {
    match k {
        0 => (vec![], MaybeUtf8Owned::new(), "new".into()),
        1 => (b"h\xc3\xa9".to_vec(), "h\u{e9}".into(), "from(&str)".into()),
        2 => (b"h\xc3\xa9".to_vec(), "h\u{e9}".to_string().into(), "from(String)".into()),
        3 => (b"\xe2\x82".to_vec(), b"\xe2\x82".to_vec().into(), "from(invalid vec)".into()),
        4 => (b"ok".to_vec(), b"ok".to_vec().into(), "from(valid vec)".into()),
        5 => (b"\xff\xf0\x9f\x98".to_vec(), b"\xff\xf0\x9f\x98".to_vec().into(), "from(invalid vec)".into()),
        _ => (vec![], vec![].into(), "from(empty vec)".into()),
    }
}

fn same(m: &[u8], s: &MaybeUtf8Owned) -> Result<(), String> {
    if s.as_bytes() != m {
        return Err(format!("holds {} instead of {}", esc(s.as_bytes()), esc(m)));
    }
    let ok = valid(m);
    if s.is_utf8() != ok {
        return Err(format!("is_utf8 is {} for {}", s.is_utf8(), esc(m)));
    }
    let t = if ok { Some(std::str::from_utf8(m).unwrap()) } else { None };
    if s.as_utf8() != t {
        return Err(format!("as_utf8 is {:?} for {}", s.as_utf8(), esc(m)));
    }
    match (s, ok) {
        (MaybeUtf8::Utf8(t), true) if t.as_bytes() == m => {}
        (MaybeUtf8::NotUtf8(t), false) if &t[..] == m => {}
        _ => return Err(format!("wrong variant for {}", esc(m))),
    }
    if s.as_utf8_lossy() != String::from_utf8_lossy(m) {
        return Err(format!("as_utf8_lossy is {:?} for {}", s.as_utf8_lossy(), esc(m)));
    }
    Ok(())
}

fn more(m: &[u8], s: MaybeUtf8Owned) -> Result<(), String> {
    let lossy = String::from_utf8_lossy(m).into_owned();
    let r: &[u8] = s.as_ref();
    let b: &[u8] = s.borrow();
    if r != m || b != m || &s[..] != m || s.len() != m.len() || s.is_empty() != m.is_empty() {
        return Err(format!("as_ref, borrow or deref differ for {}", esc(m)));
    }
    {
        let sl: MaybeUtf8Slice = s.as_slice();
        if sl.as_bytes() != m || sl.is_utf8() != s.is_utf8() || sl.as_utf8() != s.as_utf8() || sl.as_utf8_lossy() != lossy {
            return Err(format!("the slice differs for {}", esc(m)));
        }
        let back: Vec<u8> = sl.clone().into();
        let text: String = sl.into();
        if back != m || text != lossy {
            return Err(format!("conversions of the slice of {}: {} and {:?}", esc(m), esc(&back), text));
        }
    }
    let c = s.clone();
    same(m, &c)?;
    let v: Vec<u8> = c.into();
    if v != m {
        return Err(format!("into Vec gives {} for {}", esc(&v), esc(m)));
    }
    let again: MaybeUtf8Owned = v.into();
    same(m, &again)?;
    let t: String = s.into();
    if t != lossy {
        return Err(format!("into String gives {:?} for {}", t, esc(m)));
    }
    Ok(())
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn write_u8(&mut self, i: u8) {
        self.0.extend_from_slice(&[1, i])
    }
    fn write_usize(&mut self, i: usize) {
        self.0.push(8);
        self.0.extend_from_slice(&i.to_le_bytes())
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn hashed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}

/// All the ways in which a value with these bytes can come about.
fn values(b: &[u8]) -> Vec<MaybeUtf8Owned> {
    let mut v: Vec<MaybeUtf8Owned> = vec![b.to_vec().into()];
    let mut s = MaybeUtf8Owned::new();
    for &c in b {
        s.push_byte(c);
    }
    v.push(s);
    let mut s: MaybeUtf8Owned = b"\xff".to_vec().into();
    {
        let mut buf = s.as_buffer();
        buf.clear();
        buf.push_bytes(b);
    }
    v.push(s);
    v
}

macro_rules! rel {
    ($errs:ident, $want:expr, $a:expr, $b:expr, $what:expr) => {{
        let w: Ordering = $want;
        let (a, b) = (&$a, &$b);
        if (a == b) != (w == Ordering::Equal) || (a != b) != (w != Ordering::Equal) {
            $errs.push(format!("{}: eq is {}", $what, a == b));
        }
        if a.partial_cmp(b) != Some(w) {
            $errs.push(format!("{}: partial_cmp is {:?}", $what, a.partial_cmp(b)));
        }
        if (a < b) != (w == Ordering::Less) || (a <= b) != (w != Ordering::Greater) || (a > b) != (w == Ordering::Greater) || (a >= b) != (w != Ordering::Less) {
            $errs.push(format!("{}: an operator disagrees", $what));
        }
    }};
}

fn relate(x: &[u8], y: &[u8]) -> Vec<String> {
    let mut e: Vec<String> = vec![];
    let w = x.cmp(y);
    for (i, a) in values(x).iter().enumerate() {
        for (j, b) in values(y).iter().enumerate() {
            if i > 0 && j > 0 {
                continue;
            }
            rel!(e, w, *a, *b, "owned-owned");
            if a.cmp(b) != w {
                e.push(format!("cmp is {:?}", a.cmp(b)));
            }
            let (sa, sb): (MaybeUtf8Slice, MaybeUtf8Slice) = (a.as_slice(), b.as_slice());
            rel!(e, w, *a, sb, "owned-slice");
            rel!(e, w, sa, *b, "slice-owned");
            rel!(e, w, sa, sb, "slice-slice");
            if sa.cmp(&sb) != w {
                e.push(format!("slice cmp is {:?}", sa.cmp(&sb)));
            }
            if (hashed(a) == hashed(b)) != (w == Ordering::Equal) || hashed(&sa) != hashed(a) || hashed(&sb) != hashed(b) {
                e.push("hashes disagree".into());
            }
            if hashed(a) != hashed(x) || hashed(b) != hashed(y) {
                e.push("the hash is not the hash of the bytes".into());
            }
        }
        // against every other type, in both directions
        let yv = y.to_vec();
        rel!(e, w, *a, yv, "owned-Vec");
        rel!(e, w.reverse(), yv, *a, "Vec-owned");
        rel!(e, w, *a, y, "owned-&[u8]");
        rel!(e, w.reverse(), y, *a, "&[u8]-owned");
        rel!(e, w, *a, *y, "owned-[u8]");
        rel!(e, w.reverse(), *y, *a, "[u8]-owned");
        let s: MaybeUtf8Slice = a.as_slice();
        rel!(e, w, s, yv, "slice-Vec");
        rel!(e, w.reverse(), yv, s, "Vec-slice");
        rel!(e, w.reverse(), y, s, "&[u8]-slice");
        rel!(e, w.reverse(), *y, s, "[u8]-slice");
        if let Ok(t) = std::str::from_utf8(y) {
            let st = t.to_string();
            let cow: Cow<str> = Cow::Borrowed(t);
            let cow2: Cow<str> = Cow::Owned(st.clone());
            rel!(e, w, *a, st, "owned-String");
            rel!(e, w.reverse(), st, *a, "String-owned");
            rel!(e, w, *a, t, "owned-&str");
            rel!(e, w.reverse(), t, *a, "&str-owned");
            rel!(e, w, *a, *t, "owned-str");
            rel!(e, w.reverse(), *t, *a, "str-owned");
            rel!(e, w.reverse(), cow, *a, "Cow-owned");
            rel!(e, w.reverse(), cow2, *a, "Cow-owned");
            rel!(e, w.reverse(), st, s, "String-slice");
            rel!(e, w.reverse(), t, s, "&str-slice");
            rel!(e, w.reverse(), *t, s, "str-slice");
            rel!(e, w.reverse(), cow, s, "Cow-slice");
        }
    }
    e
}

fn main() {
    check_main(
        "C19",
        Level::ModelChecking,
        "every sequence of constructions, pushes and buffer edits up to a depth over fragments of valid, truncated and invalid UTF-8, every character, every short byte string, and every pair of short byte strings in every comparison, against plain byte vectors",
        |ctx| {
            ctx.assume("the enum's variants are not constructed by hand with the wrong contents, and a Buffer is dropped, not forgotten");
            let n = nops();
            let depth = ctx.pick(3, 4);
            let total = strings_upto(n, depth);
            ctx.par("operations", total * 7, |i, sh| {
                let (mut m, mut s, mut name) = start(i % 7);
                let ops = string_at(n, i / 7);
                sh.trans(ops.len() as u64);
                sh.trace();
                let r = catch(|| {
                    let quiet = ops.len() > 2;
                    for &k in &ops {
                        let t = op(k, &mut m, &mut s);
                        if !quiet {
                            name.push_str(", ");
                            name.push_str(&t);
                        }
                        same(&m, &s)?;
                    }
                    let key = (m.clone(), s.is_utf8());
                    more(&m, s)?;
                    Ok(key)
                })
                .and_then(|r: Result<_, String>| r);
                match r {
                    Ok(k) => {
                        sh.state(&k);
                    }
                    Err(e) => sh.violation(format!("operations:{}", norm(e.split(" for ").next().unwrap().split(" instead").next().unwrap()).split('\\').next().unwrap()), format!("start {} {} ops {:?}: {}", i % 7, name, ops, e)),
                }
                sh.sample(|| name);
            });
            // every character, pushed onto valid and invalid strings and into buffers
            ctx.par("characters", 0x110000, |i, sh| {
                let c = match std::char::from_u32(i as u32) {
                    Some(c) => c,
                    None => return,
                };
                sh.add_states(1);
                sh.trans(3);
                sh.trace();
                let bytes = encode(c);
                let r = catch(|| {
                    for base in [&b"x"[..], b"\xc3"] {
                        let mut s: MaybeUtf8Owned = base.to_vec().into();
                        s.push_char(c);
                        let mut m = base.to_vec();
                        m.extend_from_slice(&bytes);
                        same(&m, &s)?;
                        s.as_buffer().push_char(c);
                        m.extend_from_slice(&bytes);
                        same(&m, &s)?;
                    }
                    let mut s = MaybeUtf8Owned::new();
                    for &b in &bytes {
                        s.push_byte(b);
                    }
                    same(&bytes, &s)
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation("characters", format!("{:?}: {}", c, e));
                }
            });
            // every byte string of length up to 2 (3), in one piece and byte by byte
            let len = ctx.pick(2, 3);
            ctx.par("byte-strings", strings_upto(256, len), |i, sh| {
                let b: Vec<u8> = string_at(256, i).iter().map(|&c| c as u8).collect();
                sh.add_states(1);
                sh.trans(1 + b.len() as u64);
                sh.trace();
                let r = catch(|| {
                    for s in values(&b) {
                        same(&b, &s)?;
                        more(&b, s)?;
                    }
                    Ok(())
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation("byte-strings", format!("{}: {}", esc(&b), e));
                }
            });
            // four byte sequences, over the bytes at the edges of the table
            let edge: [u8; 20] = [0, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xec, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5];
            let len = ctx.pick(4, 5);
            ctx.par("edge-strings", strings_upto(edge.len(), len), |i, sh| {
                let b: Vec<u8> = string_at(edge.len(), i).iter().map(|&c| edge[c]).collect();
                sh.add_states(1);
                sh.trans(1 + b.len() as u64);
                sh.trace();
                let r = catch(|| {
                    for s in values(&b) {
                        same(&b, &s)?;
                    }
                    Ok(())
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation("edge-strings", format!("{}: {}", esc(&b), e));
                }
            });
            let alpha: [u8; 6] = [b'a', b'b', 0, 0xc3, 0xa9, 0xff];
            let len = ctx.pick(3, 4);
            let n = strings_upto(alpha.len(), len);
            ctx.par("comparisons", n * n, |i, sh| {
                let x: Vec<u8> = string_at(alpha.len(), i % n).iter().map(|&k| alpha[k]).collect();
                let y: Vec<u8> = string_at(alpha.len(), i / n).iter().map(|&k| alpha[k]).collect();
                sh.add_states(1);
                sh.trans(1);
                sh.trace();
                match catch(|| relate(&x, &y)) {
                    Ok(es) => {
                        for e in es {
                            sh.violation(format!("comparison:{}", e), format!("{} and {}: {}", esc(&x), esc(&y), e));
                        }
                    }
                    Err(p) => sh.violation("comparison:panic", format!("{} and {}: {}", esc(&x), esc(&y), p)),
                }
            });
            // any length in front of and behind what happens
            let lens = ladder(ctx.pick(3000, 20_000));
            let units: [&[u8]; 4] = [b"a", b"\xc3\xa9", b"\xe2\x82\xac", b"\xff"];
            ctx.par("lengths", lens.len() * units.len() * n, |i, sh| {
                let mut d = Digits(i);
                let (k, u, len) = (d.take(n), units[d.take(units.len())], lens[d.take(lens.len())]);
                sh.add_states(1);
                sh.trans(3);
                sh.trace();
                let r = catch(|| {
                    let base = u.repeat(len);
                    for (j, mut s) in values(&base).into_iter().enumerate() {
                        if j == 1 && len > 300 {
                            continue;
                        }
                        let mut m = base.clone();
                        op(k, &mut m, &mut s);
                        same(&m, &s)?;
                        s.push_bytes(b"\xa9");
                        m.push(0xa9);
                        same(&m, &s)?;
                        s.push_bytes(&base);
                        m.extend_from_slice(&base);
                        same(&m, &s)?;
                        s.as_buffer().retain(|&c| c < 0x80);
                        m.retain(|&c| c < 0x80);
                        same(&m, &s)?;
                        op((k * 7 + len) % n, &mut m, &mut s);
                        same(&m, &s)?;
                        if j == 0 {
                            more(&m, s)?;
                        }
                    }
                    Ok(())
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("lengths:{}", norm(e.split(" for ").next().unwrap().split(" instead").next().unwrap()).split('\\').next().unwrap()), format!("{} times {}, then operation {}: {}", len, esc(u), k, &e[..e.len().min(300)]));
                }
            });
            // the same operation any number of times, then another
            let counts = ladder(ctx.pick(300, 1200));
            ctx.par("series", counts.len() * n * 7, |i, sh| {
                let mut d = Digits(i);
                let (k, st, times) = (d.take(n), d.take(7), counts[d.take(counts.len())]);
                let (mut m, mut s, name) = start(st);
                sh.add_states(1);
                sh.trans(times as u64 + 1);
                sh.trace();
                let r = catch(|| {
                    for _ in 0..times {
                        op(k, &mut m, &mut s);
                    }
                    same(&m, &s)?;
                    op((k * 11 + times) % n, &mut m, &mut s);
                    same(&m, &s)?;
                    more(&m, s)
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("series:{}", norm(e.split(" for ").next().unwrap().split(" instead").next().unwrap()).split('\\').next().unwrap()), format!("{}, {} times operation {}: {}", name, times, k, &e[..e.len().min(300)]));
                }
            });
            // long strings that differ in one place or in length
            ctx.par("long-comparisons", lens.len() * units.len(), |i, sh| {
                let (len, u) = (lens[i / units.len()], units[i % units.len()]);
                let base = u.repeat(len);
                let mut others = vec![base.clone(), [&base[..], b"a"].concat(), [&base[..], b"\xff"].concat(), [b"a", &base[..]].concat()];
                for at in [0, 7, 8, 15, 16, 31, 32, 255, 256, base.len() / 2, base.len().max(2) - 2, base.len().max(1) - 1] {
                    if at < base.len() {
                        for x in [1u8, 0x80, 0xff] {
                            let mut o = base.clone();
                            o[at] ^= x;
                            others.push(o);
                        }
                    }
                }
                for o in &others {
                    sh.add_states(1);
                    sh.trans(1);
                    sh.trace();
                    match catch(|| relate(&base, o)) {
                        Ok(es) => {
                            for e in es {
                                sh.violation(format!("comparison:{}", e), format!("{} times {}, and one of {} bytes: {}", len, esc(u), o.len(), e));
                            }
                        }
                        Err(p) => sh.violation("comparison:panic", format!("{} bytes: {}", base.len(), p)),
                    }
                }
            });
            // what the code mentions, in every state, under every operation, and compared
            let words = dict::forms();
            let ops = nops();
            ctx.par("words", words.len() * (ops + 1), |i, sh| {
                let (w, k) = (&words[i / (ops + 1)], i % (ops + 1));
                sh.add_states(1);
                sh.trans(2);
                sh.trace();
                let r = catch(|| {
                    for mut s in values(w) {
                        let mut m = w.clone();
                        same(&m, &s)?;
                        if k < ops {
                            op(k, &mut m, &mut s);
                            same(&m, &s)?;
                        }
                        s.push_bytes(w);
                        m.extend_from_slice(w);
                        same(&m, &s)?;
                        more(&m, s)?;
                    }
                    // and by every way of adding them to something
                    let (mut m, mut s, _) = start(k % 7);
                    if k < ops {
                        op(k, &mut m, &mut s);
                    }
                    if let Ok(t) = std::str::from_utf8(w) {
                        s.push_str(t);
                        m.extend_from_slice(w);
                        same(&m, &s)?;
                    }
                    s.as_buffer().push_bytes(w);
                    m.extend_from_slice(w);
                    same(&m, &s)?;
                    more(&m, s)
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation("words", format!("{} and operation {}: {}", esc(w), k, &e[..e.len().min(300)]));
                }
            });
            ctx.par("word-comparisons", words.len(), |i, sh| {
                let w = &words[i];
                let mut others: Vec<Vec<u8>> = dict::words().to_vec();
                others.extend([w.clone(), w.to_ascii_uppercase(), w.to_ascii_lowercase(), w[..w.len() - 1].to_vec(), [&w[..], b"\0"].concat(), [&w[..], b"\xff"].concat(), [&w[..], b" "].concat(), vec![]]);
                for o in &others {
                    sh.add_states(1);
                    sh.trans(1);
                    sh.trace();
                    match catch(|| relate(w, o)) {
                        Ok(es) => {
                            for e in es {
                                sh.violation(format!("comparison:{}", e), format!("{} and {}: {}", esc(w), esc(o), e));
                            }
                        }
                        Err(p) => sh.violation("comparison:panic", format!("{} and {}: {}", esc(w), esc(o), p)),
                    }
                }
            });
            // as map keys: looked up by bytes
            ctx.seq("map-keys", 1, |_, sh| {
                let all: Vec<Vec<u8>> = (0..strings_upto(6, 3)).map(|i| string_at(6, i).iter().map(|&k| alpha[k]).collect()).collect();
                let mut h: HashMap<MaybeUtf8Owned, usize> = HashMap::new();
                let mut t: BTreeMap<MaybeUtf8Owned, usize> = BTreeMap::new();
                for (i, b) in all.iter().enumerate() {
                    h.insert(values(b)[i % 3].clone(), i);
                    t.insert(values(b)[i % 3].clone(), i);
                }
                for (i, b) in all.iter().enumerate() {
                    sh.add_states(1);
                    sh.trans(2);
                    sh.trace();
                    if h.get(&b[..]) != Some(&i) || t.get(&b[..]) != Some(&i) {
                        sh.violation("map-keys", format!("{} is not found by its bytes", esc(b)));
                    }
                }
                if h.len() != all.len() || t.len() != all.len() {
                    sh.violation("map-keys", "keys were confused");
                }
                let order: Vec<Vec<u8>> = t.keys().map(|k| k.to_vec()).collect();
                let mut want = all.clone();
                want.sort();
                if order != want {
                    sh.violation("map-keys", "keys are out of order");
                }
            });
        },
    )
}
