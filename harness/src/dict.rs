//! What the code under test mentions: the numbers and texts in its source choose further inputs
//! (sizes around every number, and every text by itself and inside of others), so that what only
//! shows for one particular value is within the bounds of the spaces. They only add to what is
//! explored and never decide what is right.
use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Punct(char),
    Number(u128),
    Text(Vec<u8>),
}

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut e: Vec<PathBuf> = fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    e.sort();
    for p in e {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

fn ident(c: u8) -> bool {
    c == b'_' || c.is_ascii_alphanumeric() || c >= 0x80
}

/// The text of a literal that starts at `i` with the quote, and where it ends.
fn quoted(s: &[u8], i: usize, quote: u8) -> (Vec<u8>, usize) {
    let mut v = vec![];
    let mut i = i + 1;
    while i < s.len() && s[i] != quote {
        if s[i] != b'\\' {
            v.push(s[i]);
            i += 1;
            continue;
        }
        i += 1;
        match s.get(i) {
            Some(b'n') => v.push(b'\n'),
            Some(b'r') => v.push(b'\r'),
            Some(b't') => v.push(b'\t'),
            Some(b'0') => v.push(0),
            Some(b'x') => {
                let h = s.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                v.extend(h);
                i += 2;
            }
            Some(b'u') => {
                let end = s[i..].iter().position(|&c| c == b'}').map_or(s.len() - 1, |p| i + p);
                let h: String = s[i..end].iter().map(|&c| c as char).filter(|c| c.is_ascii_hexdigit()).collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(std::char::from_u32) {
                    v.extend(c.to_string().into_bytes());
                }
                i = end;
            }
            Some(b'\n') => {
                while i + 1 < s.len() && s[i + 1].is_ascii_whitespace() {
                    i += 1;
                }
            }
            Some(&c) => v.push(c),
            None => {}
        }
        i += 1;
    }
    (v, i + 1)
}

fn tokens(s: &[u8]) -> Vec<Tok> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let rest = &s[i..];
        if rest.starts_with(b"//") {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if rest.starts_with(b"/*") {
            let mut depth = 0;
            while i < s.len() {
                if s[i..].starts_with(b"/*") {
                    depth += 1;
                    i += 2;
                } else if s[i..].starts_with(b"*/") {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if c == b'"' {
            let (v, e) = quoted(s, i, b'"');
            out.push(Tok::Text(v));
            i = e;
        } else if c == b'\'' {
            // a character, or a lifetime
            let escaped = rest.get(1) == Some(&b'\\');
            let len = rest.get(1).map_or(1, |&c| if c < 0x80 { 1 } else if c < 0xe0 { 2 } else if c < 0xf0 { 3 } else { 4 });
            if escaped || rest.get(1 + len) == Some(&b'\'') {
                let (v, e) = if rest.starts_with(b"'\\''") { (b"'".to_vec(), i + 4) } else { quoted(s, i, b'\'') };
                out.push(Tok::Text(v));
                i = e;
            } else {
                i += 1;
                while i < s.len() && ident(s[i]) {
                    i += 1;
                }
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while i < s.len() && ident(s[i]) {
                i += 1;
            }
            let t: String = s[start..i].iter().filter(|&&c| c != b'_').map(|&c| c as char).collect();
            let (radix, t) = match t.get(..2) {
                Some("0x") => (16, t[2..].to_string()),
                Some("0o") => (8, t[2..].to_string()),
                Some("0b") => (2, t[2..].to_string()),
                _ => (10, t),
            };
            let t = t.split(|c| c == 'u' || c == 'i').next().unwrap_or("");
            if let Ok(n) = u128::from_str_radix(t, radix) {
                out.push(Tok::Number(n));
            }
        } else if ident(c) {
            let start = i;
            while i < s.len() && ident(s[i]) {
                i += 1;
            }
            let w = &s[start..i];
            let hashes = s[i..].iter().take_while(|&&c| c == b'#').count();
            if (w == b"r" || w == b"br") && s.get(i + hashes) == Some(&b'"') {
                let end: Vec<u8> = std::iter::once(b'"').chain(std::iter::repeat(b'#').take(hashes)).collect();
                let from = i + hashes + 1;
                let to = s[from..].windows(end.len()).position(|x| x == &end[..]).map_or(s.len(), |p| from + p);
                out.push(Tok::Text(s[from..to].to_vec()));
                i = (to + end.len()).min(s.len());
            } else if w == b"b" && s.get(i).map_or(false, |&c| c == b'"' || c == b'\'') {
                // the literal follows
                if s[i] == b'\'' {
                    let (v, e) = if s[i..].starts_with(b"'\\''") { (b"'".to_vec(), i + 4) } else { quoted(s, i, b'\'') };
                    out.push(Tok::Text(v));
                    i = e;
                }
            } else {
                out.push(Tok::Word(String::from_utf8_lossy(w).into_owned()));
            }
        } else {
            if !c.is_ascii_whitespace() {
                out.push(Tok::Punct(c as char));
            }
            i += 1;
        }
    }
    out
}

/// Without tests.
fn code(t: Vec<Tok>) -> Vec<Tok> {
    let mut out = vec![];
    let mut i = 0;
    let is = |k: usize, w: &str| matches!(t.get(k), Some(Tok::Word(x)) if x == w);
    let p = |k: usize, c: char| t.get(k) == Some(&Tok::Punct(c));
    while i < t.len() {
        let cfg_test = p(i, '#') && p(i + 1, '[') && is(i + 2, "cfg") && p(i + 3, '(') && is(i + 4, "test") && p(i + 5, ')') && p(i + 6, ']') && is(i + 7, "mod");
        let test = p(i, '#') && p(i + 1, '[') && is(i + 2, "test") && p(i + 3, ']');
        if cfg_test || test {
            while i < t.len() && !p(i, '{') && !p(i, ';') {
                i += 1;
            }
            let mut depth = 0;
            while i < t.len() {
                depth += p(i, '{') as i32 - p(i, '}') as i32;
                i += 1;
                if depth == 0 {
                    break;
                }
            }
        } else {
            out.push(t[i].clone());
            i += 1;
        }
    }
    out
}

fn all() -> &'static (Vec<usize>, Vec<Vec<u8>>) {
    static ALL: OnceLock<(Vec<usize>, Vec<Vec<u8>>)> = OnceLock::new();
    ALL.get_or_init(|| {
        let repo = std::env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into());
        let mut list = vec![];
        files(&Path::new(&repo).join("src"), &mut list);
        let (mut numbers, mut words) = (BTreeSet::new(), BTreeSet::new());
        let mut number = |n: u128| {
            if n <= usize::MAX as u128 {
                numbers.insert(n as usize);
            }
        };
        for f in list {
            let t = code(tokens(&fs::read(&f).unwrap_or_default()));
            for (i, x) in t.iter().enumerate() {
                match *x {
                    Tok::Number(n) => {
                        number(n);
                        // 64 * 1024, 1 << 20
                        let (mut k, mut v) = (i, n);
                        loop {
                            if let (Some(Tok::Punct('*')), Some(&Tok::Number(m))) = (t.get(k + 1), t.get(k + 2)) {
                                v = v.saturating_mul(m);
                                k += 2;
                            } else if let (Some(Tok::Punct('<')), Some(Tok::Punct('<')), Some(&Tok::Number(m))) = (t.get(k + 1), t.get(k + 2), t.get(k + 3)) {
                                v = if m < 64 { v << m } else { v };
                                k += 3;
                            } else {
                                break;
                            }
                            number(v);
                        }
                    }
                    Tok::Text(ref s) if !s.is_empty() && s.len() <= 64 => {
                        words.insert(s.clone());
                        if !s.contains(&b' ') {
                            words.extend(s.split(|&c| c == b'/').filter(|p| !p.is_empty()).map(|p| p.to_vec()));
                        }
                    }
                    _ => {}
                }
            }
        }
        (numbers.into_iter().collect(), words.into_iter().collect())
    })
}

/// Every number in the code.
pub fn numbers() -> &'static [usize] {
    &all().0
}
/// Every text in the code, and the parts of paths.
pub fn words() -> &'static [Vec<u8>] {
    &all().1
}
/// Each by itself, at the beginning, at the end and in the middle of others.
pub fn forms() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = words().iter().flat_map(|w| vec![w.clone(), [w, &b"q"[..]].concat(), [b"q", &w[..]].concat(), [b"q", &w[..], b"q"].concat()]).collect();
    v.sort();
    v.dedup();
    v
}
/// Those that are text.
pub fn texts() -> Vec<String> {
    forms().into_iter().filter_map(|w| String::from_utf8(w).ok()).collect()
}
/// Those that can be the name of a header or a method.
pub fn names() -> Vec<String> {
    texts().into_iter().filter(|w| w.bytes().all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c))).collect()
}
/// Those that can be the value of a header.
pub fn values() -> Vec<String> {
    texts().into_iter().filter(|w| w.bytes().all(|c| c >= b' ' && c < 0x7f) && w.trim() == w).collect()
}
/// Lines of the head of a request: what clients usually send, and what the code mentions.
pub fn heads() -> Vec<String> {
    const USUAL: &[(&str, &[&str])] = &[
        ("Accept", &["text/html;q=0.5, */*", "application/json", "image/png;q=0", "*/*;q=0"]),
        ("Accept-Charset", &["utf-8", "iso-8859-1"]),
        ("Accept-Encoding", &["gzip, deflate", "identity;q=0", "*"]),
        ("Accept-Language", &["sv, en;q=0.5"]),
        ("Access-Control-Request-Headers", &["x-a"]),
        ("Access-Control-Request-Method", &["PUT"]),
        ("Authorization", &["Basic QTpC", "Bearer x"]),
        ("Cache-Control", &["no-cache", "no-store", "only-if-cached", "max-age=0"]),
        ("Connection", &["close", "keep-alive", "x-a"]),
        ("Content-Encoding", &["gzip"]),
        ("Content-Language", &["sv"]),
        ("Content-MD5", &["Q2hlY2sgSW50ZWdyaXR5IQ=="]),
        ("Content-Type", &["text/plain", "application/json; charset=utf-8", "application/x-www-form-urlencoded", "multipart/form-data; boundary=b", "multipart/form-data"]),
        ("Cookie", &["a=b; c=d"]),
        ("Date", &["Sun, 06 Nov 1994 08:49:37 GMT"]),
        ("DNT", &["1"]),
        ("Forwarded", &["for=1.2.3.4;host=other;proto=https"]),
        ("From", &["a@b"]),
        ("If-Match", &["*", "\"x\""]),
        ("If-Modified-Since", &["Sun, 06 Nov 1994 08:49:37 GMT", "Sun, 06 Nov 2094 08:49:37 GMT"]),
        ("If-None-Match", &["*", "\"x\""]),
        ("If-Range", &["\"x\"", "Sun, 06 Nov 2094 08:49:37 GMT"]),
        ("If-Unmodified-Since", &["Sun, 06 Nov 1994 08:49:37 GMT"]),
        ("Keep-Alive", &["timeout=5, max=1"]),
        ("Last-Event-ID", &["1"]),
        ("Max-Forwards", &["0"]),
        ("Origin", &["http://other", "null"]),
        ("Pragma", &["no-cache"]),
        ("Prefer", &["return=minimal", "respond-async"]),
        ("Proxy-Authorization", &["Basic QTpC"]),
        ("Proxy-Connection", &["keep-alive", "close"]),
        ("Range", &["bytes=0-0", "bytes=1-", "bytes=-1", "bytes=0-99999", "lines=1"]),
        ("Referer", &["/other", "http://other/"]),
        ("Sec-Fetch-Mode", &["navigate"]),
        ("TE", &["trailers, chunked", "chunked"]),
        ("Trailer", &["x-a"]),
        ("Upgrade", &["websocket", "h2c"]),
        ("Upgrade-Insecure-Requests", &["1"]),
        ("User-Agent", &["Mozilla/5.0 (compatible; MSIE 6.0)", "curl/8", "bot"]),
        ("Via", &["1.0 other"]),
        ("Warning", &["199 - x"]),
        ("X-Forwarded-For", &["1.2.3.4"]),
        ("X-Forwarded-Host", &["other:1"]),
        ("X-Forwarded-Proto", &["https"]),
        ("X-HTTP-Method-Override", &["PUT", "HEAD"]),
        ("X-Method-Override", &["DELETE"]),
        ("X-Original-URL", &["/other"]),
        ("X-Requested-With", &["XMLHttpRequest"]),
        ("X-Rewrite-URL", &["/other"]),
    ];
    let mut v = vec![String::new()];
    for &(n, vs) in USUAL {
        v.extend(vs.iter().map(|x| format!("{}: {}\r\n", n, x)));
    }
    let framing = |n: &str| ["host", "content-length", "transfer-encoding", "expect", "connection", "content-type"].contains(&&n.to_ascii_lowercase()[..]);
    let values: Vec<&str> = words().iter().filter_map(|w| std::str::from_utf8(w).ok()).filter(|w| w.bytes().all(|c| c > b' ' && c < 0x7f)).collect();
    for n in names() {
        if !framing(&n) {
            v.push(format!("{}: 1\r\n", n));
        }
    }
    // as a value, of names that could mean something and of the other words
    for w in &values {
        for n in ["X-A", "Accept", "User-Agent", "Cookie", "Origin", "Upgrade", "Referer", "Authorization"] {
            v.push(format!("{}: {}\r\n", n, w));
        }
        for n in &values {
            if !framing(n) && w != n && n.bytes().any(|c| c.is_ascii_alphabetic()) && names().iter().any(|x| x == n) {
                v.push(format!("{}: {}\r\n", n, w));
            }
        }
    }
    v
}
/// Percent-encoded, for a place within a request target.
pub fn encoded(w: &[u8]) -> String {
    w.iter().map(|&c| if c.is_ascii_alphanumeric() || b"-._~".contains(&c) { (c as char).to_string() } else { format!("%{:02X}", c) }).collect()
}
/// Those that can be part of a host name.
pub fn hosts() -> Vec<String> {
    let fine = |w: &String| w.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || b"-.".contains(&c)) && !w.contains("..") && w.starts_with(|c: char| c.is_ascii_lowercase()) && w.ends_with(|c: char| c.is_ascii_lowercase());
    texts().into_iter().filter(fine).filter(|w| !w.starts_with("xn--")).collect()
}
/// Other methods than the registered ones.
pub fn methods() -> Vec<String> {
    names().into_iter().filter(|n| !["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH"].contains(&&n[..])).collect()
}
