//! C07: form strings decode by one rule, in queries and bodies alike.
use mc::forms::form;
use mc::gen::*;
use mc::routes::{show, sorted};
use mc::wire::MemIn;
use mc::*;
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response};
use std::cell::RefCell;
use std::collections::BTreeMap;

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
thread_local!(static GOT: RefCell<Vec<Result<Vec<(Vec<u8>, Vec<u8>)>, String>>> = const { RefCell::new(vec![]) });

struct Probe {
    body: bool,
}
impl Handler for Probe {
    fn handle(&self, mut c: Context, _r: Response) {
        let v = if self.body { c.body.read_query_body().map(|p| sorted(&p)).map_err(|e| e.to_string()) } else { Ok(sorted(&c.query)) };
        GOT.with(|g| g.borrow_mut().push(v));
    }
}

struct Rig {
    query: ServerInstance<Probe>,
    body: ServerInstance<Probe>,
}
fn rig() -> Rig {
    Rig { query: srv::instance(Probe { body: false }), body: srv::instance(Probe { body: true }) }
}

fn run(i: &ServerInstance<Probe>, rd: MemIn) -> (Vec<Result<Vec<(Vec<u8>, Vec<u8>)>, String>>, wire::Served) {
    GOT.with(|g| g.borrow_mut().clear());
    let (_, s) = srv::talk_with(i, rd, true);
    (GOT.with(|g| std::mem::take(&mut *g.borrow_mut())), s)
}

fn map_text(m: &Map) -> String {
    m.iter().map(|(k, v)| format!("{:?}={:?}", show(k), show(v))).collect::<Vec<_>>().join(" ")
}

fn judge(sh: &mut Shard, how: &str, s: &[u8], want: &Map, got: Vec<Result<Vec<(Vec<u8>, Vec<u8>)>, String>>, served: &wire::Served) {
    sh.trans(1);
    sh.trace();
    let text = |g: String| format!("{} of {:?}\nexpected {}\ngot      {}", how, show(s), map_text(want), g);
    match got.as_slice() {
        [Ok(v)] => {
            let m: Map = v.iter().cloned().collect();
            if m != *want || m.len() != v.len() {
                sh.violation(format!("{}:parameters", how), text(map_text(&m)));
            }
        }
        o => sh.violation(format!("{}:handler", how), text(format!("{:?}, {:?}", o, served))),
    }
}

fn body(sh: &mut Shard, r: &Rig, s: &[u8]) {
    let want = form(s);
    sh.state(&want);
    let mut req = format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", s.len()).into_bytes();
    req.extend_from_slice(s);
    let (got, served) = run(&r.body, MemIn::new(req));
    judge(sh, "body", s, &want, got, &served);
}

fn chunked(sh: &mut Shard, r: &Rig, s: &[u8]) {
    let want = form(s);
    let mut req = b"POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec();
    for c in s.chunks(2) {
        req.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
        req.extend_from_slice(c);
        req.extend_from_slice(b"\r\n");
    }
    req.extend_from_slice(b"0\r\n\r\n");
    let (got, served) = run(&r.body, MemIn::new(req));
    judge(sh, "chunked-body", s, &want, got, &served);
}

fn queries(sh: &mut Shard, r: &Rig, s: &[u8]) {
    if s.iter().any(|c| b"# \r\n\t".contains(c)) {
        return;
    }
    let want = form(s);
    for (how, pre) in [("origin-query", "/?"), ("absolute-query", "http://h/?"), ("absolute-query-path", "http://h:8/p/q?")] {
        let mut req = format!("GET {}", pre).into_bytes();
        req.extend_from_slice(s);
        req.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
        let (got, served) = run(&r.query, MemIn::new(req));
        if served.requests == 0 {
            sh.note("target not accepted by the HTTP parser", 1);
            continue;
        }
        judge(sh, how, s, &want, got, &served);
    }
}

fn all(sh: &mut Shard, r: &Rig, s: &[u8]) {
    body(sh, r, s);
    queries(sh, r, s);
    chunked(sh, r, s);
    if s.len() > 3 {
        sh.sample(|| format!("{:?} -> {}", show(s), map_text(&form(s))));
    }
}

fn main() {
    check_main(
        "C07",
        Level::ModelChecking,
        "every form string over the alphabets up to the bound, as body (plain and chunked) and as query in origin and absolute form; state = one decoded parameter map",
        |ctx| {
            ctx.assume("request targets the HTTP or URL parser itself rejects never reach the server");
            ctx.assume("a piece with several '=' has the second part as value, and an empty piece is the empty name with the empty value: the split rule taken literally");
            let chars = b"a=&+%2bF";
            let k = chars.len();
            ctx.par("delimiters", strings_upto(k, ctx.pick(6, 7)), |i, sh| {
                let r = rig();
                let s: Vec<u8> = string_at(k, i).iter().map(|&c| chars[c]).collect();
                all(sh, &r, &s);
            });
            let toks: Vec<&[u8]> = vec![
                b"=", b"&", b"+", b"%3D", b"%26", b"%2B", b"%25", b"%00", b"%ff", b"%FF", b"%fF", b"%c3%a5", "å".as_bytes(), b"\xff", b"\xc3", b"\xa5", b"\0", b"%", b"%2", b"%zz", b"%g0", b"%0g", b"% ", b"a",
                b"0", b"?", b"/", b";", b"\"", b"'", b"<", b"\\", b"^", b"|", b"~", b"%252B", b"#", b" ", b"\r\n", b"\n", b"\t", b"amp;", b"[]",
            ];
            let k = toks.len();
            ctx.par("tokens", strings_upto(k, ctx.pick(3, 4)), |i, sh| {
                let r = rig();
                let s: Vec<u8> = string_at(k, i).iter().flat_map(|&c| toks[c].iter().cloned()).collect();
                all(sh, &r, &s);
            });
            // every pair of bytes, plain and after a percent sign, as name and as value
            ctx.par("byte-pairs", 65536, |i, sh| {
                let r = rig();
                let (x, y) = ((i / 256) as u8, (i % 256) as u8);
                for s in [vec![x, y], vec![b'%', x, y], vec![b'n', b'=', b'%', x, y], vec![b'n', b'=', x, y], vec![b'n', x, b'=', y, b'v']] {
                    body(sh, &r, &s);
                    queries(sh, &r, &s);
                }
            });
            // the last occurrence wins: every list of pairs
            let names: [&[u8]; 5] = [b"a", b"b", b"", b"%61", b"A"];
            let values: [&[u8]; 4] = [b"1", b"", b"%ff", b"+"];
            let k = names.len() * values.len();
            ctx.par("occurrences", strings_upto(k, ctx.pick(3, 4)), |i, sh| {
                let r = rig();
                let s: Vec<u8> = string_at(k, i).iter().map(|&p| [names[p % 5], b"=", values[p / 5]].concat()).collect::<Vec<_>>().join(&b'&');
                all(sh, &r, &s);
            });
            // what the code mentions: as name and value, plain and encoded
            let words = dict::forms();
            let plain = |w: &[u8]| w.iter().all(|c| !b"&=%+# ".contains(c) && *c > b' ');
            ctx.par("words", words.len() * words.len(), |i, sh| {
                let r = rig();
                let (n, v) = (&words[i / words.len()], &words[i % words.len()]);
                let (en, ev) = (dict::encoded(n), dict::encoded(v));
                all(sh, &r, format!("{}={}&x=1", en, ev).as_bytes());
                if i % words.len() == 0 {
                    for s in [format!("{}", en), format!("x=1&{}", en), format!("{}=", en), format!("={}", en), format!("{0}=1&{0}=2", en), format!("x={}", en)] {
                        all(sh, &r, s.as_bytes());
                    }
                }
                if plain(n) && plain(v) {
                    all(sh, &r, &[&n[..], b"=", v, b"&x=1"].concat());
                }
            });
            let lines = dict::heads();
            ctx.par("heads", lines.len() * 2, |i, sh| {
                let (h, m) = (&lines[i / 2], ["POST", "GET"][i % 2]);
                for s in [&b"a=1&a=%ff&b=+"[..], b"", b"a=b=c"] {
                    let r = rig();
                    let (got, served) = run(&r.body, MemIn::new([format!("{} /?z=1 HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n{}\r\n", m, s.len(), h).as_bytes(), s].concat()));
                    if served.requests > 0 {
                        judge(sh, "body", s, &form(s), got, &served);
                    }
                    let (got, served) = run(&r.query, MemIn::new([format!("{} /?", m).as_bytes(), s, format!(" HTTP/1.1\r\nHost: h\r\n{}\r\n", h).as_bytes()].concat()));
                    if served.requests > 0 {
                        judge(sh, "origin-query", s, &form(s), got, &served);
                    }
                }
            });
            // in every kind of request
            let ms = ["POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH", "CONNECT", "PURGE", "get"];
            let heads = [
                "", "Content-Type: application/x-www-form-urlencoded\r\n", "Content-Type: application/x-www-form-urlencoded; charset=ISO-8859-1\r\n", "Content-Type: text/plain\r\n", "Content-Type: multipart/form-data; boundary=b\r\n",
                "Content-Type: bad\r\n", "Connection: close\r\n", "Content-Encoding: identity\r\n", "Cookie: a=9; b=9\r\n",
            ];
            let strings: [&[u8]; 12] = [b"", b"a=1", b"a=1&a=2", b"+=%2B", b"a", b"=", b"&", b"%ff=%", b"a=b=c", b"a=1&b=\xff&c", b"a=1\r\n", b"a=%c3%a5&\xe5"];
            ctx.par("requests", ms.len() * 2 * heads.len() * 4 * strings.len(), |i, sh| {
                let mut d = Digits(i);
                let (m, v, h, framing, s) = (ms[d.take(ms.len())], d.take(2), heads[d.take(heads.len())], d.take(4), strings[d.take(strings.len())]);
                let (want, none) = (form(s), form(b""));
                sh.state(&(m, v, h, framing, s));
                let r = rig();
                let start = |t: &str| format!("{} {} HTTP/1.{}\r\nHost: h\r\n{}", m, t, v, h).into_bytes();
                let (how, want, got) = match framing {
                    0 => ("body", want, run(&r.body, MemIn::new([&start("/?a=5")[..], format!("Content-Length: {}\r\n\r\n", s.len()).as_bytes(), s].concat()))),
                    1 => {
                        let pieces: Vec<u8> = s.iter().flat_map(|c| [b"1\r\n", &[*c][..], b"\r\n"].concat()).collect();
                        ("chunked-body", want, run(&r.body, MemIn::new([&start("/?a=5")[..], b"Transfer-Encoding: chunked\r\n\r\n", &pieces, b"0\r\n\r\n"].concat())))
                    }
                    2 => ("body", none, run(&r.body, MemIn::new([&start("/?a=5")[..], b"\r\n"].concat()))),
                    _ => {
                        if s.iter().any(|c| b"# \r\n\t".contains(c)) {
                            return;
                        }
                        let t = format!("/?{}", unsafe { std::str::from_utf8_unchecked(s) });
                        // the body is no part of the query
                        ("origin-query", want, run(&r.query, MemIn::new([&start(&t)[..], b"Content-Length: 7\r\n\r\na=8&z=8"].concat())))
                    }
                };
                if got.1.requests == 0 {
                    sh.note("request not accepted by the HTTP parser", 1);
                    return;
                }
                judge(sh, how, s, &want, got.0, &got.1);
            });
            // many parameters, long names and values
            let lens = ladder(ctx.pick(3000, 40000));
            ctx.par("sizes", lens.len() * 6, |i, sh| {
                let mut d = Digits(i);
                let (n, shape) = (lens[d.take(lens.len())], d.take(6));
                let s = match shape {
                    0 => (0..n).map(|j| format!("p{}={}", j, j)).collect::<Vec<_>>().join("&"),
                    1 => (0..n).map(|j| format!("p={}", j)).collect::<Vec<_>>().join("&"),
                    2 => format!("a={}&b=2", "%41+".repeat(n)),
                    3 => format!("{}=1&{}x=2", "n".repeat(n), "n".repeat(n)),
                    4 => format!("a=1{}b=2", "&".repeat(n)),
                    _ => format!("a{}1&b=2", "=".repeat(n)),
                };
                let r = rig();
                all(sh, &r, s.as_bytes());
            });
            // long values around buffer sizes, arriving in two pieces
            let sizes: Vec<usize> = [64usize, 1024, 4096, 8192, 16384, 32768, 65536].iter().flat_map(|&n| (n - 6..n + 6).collect::<Vec<_>>()).collect();
            let tails: [&[u8]; 5] = [b"", b"+", b"%41", b"&b=2", b"%"];
            ctx.par("long", sizes.len() * tails.len() * 3, |i, sh| {
                let mut d = Digits(i);
                let (n, t, part) = (sizes[d.take(sizes.len())], tails[d.take(tails.len())], d.take(3));
                let r = rig();
                let mut s = b"a=".to_vec();
                s.extend((0..n).map(|j| b"abcdefghijk"[j % 11]));
                s.extend_from_slice(t);
                let head = format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", s.len()).into_bytes();
                let cut = match part {
                    0 => head.len() + n,
                    1 => head.len() + n + 3,
                    _ => head.len(),
                };
                let want = form(&s);
                sh.state(&want);
                let req = [&head[..], &s].concat();
                let (got, served) = run(&r.body, MemIn::new(req).cuts(vec![cut]));
                let short: Vec<u8> = s[..s.len().min(12)].to_vec();
                let ok = got.len() == 1 && got[0].as_ref().map(|v| v.iter().cloned().collect::<Map>() == want).unwrap_or(false);
                sh.trans(1);
                sh.trace();
                if !ok {
                    sh.violation("long-body", format!("a body of {} bytes starting {:?} and ending {:?}: {} results, {:?}", s.len(), show(&short), show(t), got.len(), served));
                }
            });
        },
    )
}
