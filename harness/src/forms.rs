//! Reference decoding of percent escapes, form strings and request targets.
use std::collections::BTreeMap;

fn hex(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}

/// Percent escapes decoded once; invalid ones stay as they are.
pub fn pct(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' && i + 2 < s.len() {
            if let (Some(a), Some(b)) = (hex(s[i + 1]), hex(s[i + 2])) {
                out.push(a * 16 + b);
                i += 3;
                continue;
            }
        }
        out.push(s[i]);
        i += 1;
    }
    out
}

fn field(s: &[u8]) -> Vec<u8> {
    let s: Vec<u8> = s.iter().map(|&c| if c == b'+' { b' ' } else { c }).collect();
    pct(&s)
}

/// A form-encoded string as a map: the last occurrence of a name wins.
pub fn form(s: &[u8]) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut m = BTreeMap::new();
    for piece in s.split(|&c| c == b'&') {
        let mut it = piece.split(|&c| c == b'=');
        let name = it.next().unwrap_or(b"");
        let value = it.next().unwrap_or(b"");
        m.insert(field(name), field(value));
    }
    m
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Target {
    pub path: Vec<u8>,
    pub query: BTreeMap<Vec<u8>, Vec<u8>>,
    pub fragment: Option<Vec<u8>>,
}

/// Path, query and fragment of an origin-form target.
pub fn origin(t: &[u8]) -> Target {
    let (rest, fragment) = match t.iter().position(|&c| c == b'#') {
        Some(i) => (&t[..i], Some(pct(&t[i + 1..]))),
        None => (t, None),
    };
    let (path, query) = match rest.iter().position(|&c| c == b'?') {
        Some(i) => (&rest[..i], form(&rest[i + 1..])),
        None => (rest, BTreeMap::new()),
    };
    let mut path = pct(path);
    if path.is_empty() {
        path.push(b'/');
    }
    Target { path, query, fragment }
}
