//! C08: a handler reads exactly its request's body, however it arrives.
use mc::forms::form;
use mc::gen::*;
use mc::routes::sorted;
use mc::wire::{Closed, End, MemIn};
use mc::*;
use multipart::server::Multipart;
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response};
use std::cell::RefCell;
use std::io::{self, Read};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Read(usize),
    ToEnd,
    Query,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Order {
    /// read, answer, let go of the context
    ReadFirst,
    /// read, let go of the context, answer
    DropFirst,
    /// answer, then read
    AnswerFirst,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
struct Seen {
    path: Vec<u8>,
    got: Vec<u8>,
    eof: bool,
    err: Option<String>,
    after_eof: bool, // data or an error came after the end was reported
    query: bool,
    /// What the rest of the body was read as.
    params: Vec<(Vec<u8>, Vec<u8>)>,
}

thread_local! {
    static PROG: RefCell<(Vec<Op>, Order)> = const { RefCell::new((vec![], Order::ReadFirst)) };
    static SEEN: RefCell<Vec<Seen>> = const { RefCell::new(vec![]) };
}

struct Reader;
fn perform(c: &mut Context, prog: &[Op], seen: &mut Seen) {
    for op in prog {
        match *op {
            Op::Read(n) => {
                let mut buf = vec![0xEE; n];
                match c.body.read(&mut buf) {
                    Ok(0) if n > 0 => seen.eof = true,
                    Ok(k) => {
                        if seen.eof && k > 0 {
                            seen.after_eof = true;
                        }
                        if k > n {
                            seen.err = Some("more than asked for".into());
                            return;
                        }
                        seen.got.extend_from_slice(&buf[..k]);
                    }
                    Err(e) => {
                        if seen.eof {
                            seen.after_eof = true;
                        }
                        seen.err = Some(e.to_string());
                        return;
                    }
                }
            }
            Op::ToEnd => {
                let n = seen.got.len();
                match c.body.read_to_end(&mut seen.got) {
                    Ok(_) => {
                        if seen.eof && seen.got.len() > n {
                            seen.after_eof = true;
                        }
                        seen.eof = true
                    }
                    Err(e) => {
                        seen.err = Some(e.to_string());
                        return;
                    }
                }
            }
            Op::Query => {
                seen.query = true;
                match c.body.read_query_body() {
                    Ok(p) => {
                        if !seen.eof || seen.params.is_empty() {
                            seen.params = sorted(&p);
                        }
                        seen.eof = true
                    }
                    Err(e) => {
                        seen.err = Some(e.to_string());
                        return;
                    }
                }
            }
        }
    }
}
impl Handler for Reader {
    fn handle(&self, mut c: Context, r: Response) {
        let mut seen = Seen { path: c.uri_path.as_path().map(|p| p[..].to_vec()).unwrap_or_default(), ..Seen::default() };
        let first = SEEN.with(|s| s.borrow().is_empty());
        let (prog, order) = if first { PROG.with(|p| p.borrow().clone()) } else { (vec![Op::ToEnd], Order::ReadFirst) };
        match order {
            Order::ReadFirst => {
                perform(&mut c, &prog, &mut seen);
                SEEN.with(|s| s.borrow_mut().push(seen));
                r.send("ok");
            }
            Order::DropFirst => {
                perform(&mut c, &prog, &mut seen);
                SEEN.with(|s| s.borrow_mut().push(seen));
                drop(c);
                r.send("ok");
            }
            Order::AnswerFirst => {
                r.send("ok");
                perform(&mut c, &prog, &mut seen);
                SEEN.with(|s| s.borrow_mut().push(seen));
            }
        }
    }
}

/// A body and how it is framed on the wire.
#[derive(Clone, Debug)]
struct Framed {
    name: String,
    head: String,
    wire: Vec<u8>,
    body: Vec<u8>,
    /// Bytes of `wire` needed before the body counts as complete.
    needs: usize,
}
fn sized(b: &[u8]) -> Framed {
    Framed { name: format!("length {}", b.len()), head: format!("Content-Length: {}\r\n", b.len()), wire: b.to_vec(), body: b.to_vec(), needs: b.len() }
}
fn chunked(b: &[u8], split: &[usize], style: usize) -> Framed {
    let mut w = vec![];
    let mut at = 0;
    for &n in split {
        let size = match style {
            1 => format!("{:04X}", n),
            2 => format!("{:x};ext=\"1\"", n),
            3 => format!("{:x} ", n),
            _ => format!("{:x}", n),
        };
        w.extend_from_slice(size.as_bytes());
        w.extend_from_slice(b"\r\n");
        w.extend_from_slice(&b[at..at + n]);
        w.extend_from_slice(b"\r\n");
        at += n;
    }
    assert_eq!(at, b.len());
    w.extend_from_slice(b"0\r\n\r\n");
    let needs = w.len();
    Framed { name: format!("chunks {:?} style {}", split, style), head: "Transfer-Encoding: chunked\r\n".into(), wire: w, body: b.to_vec(), needs }
}

fn framings(deep: bool) -> Vec<Framed> {
    let req = b"GET /evil HTTP/1.1\r\nHost: e\r\n\r\n";
    let mut v = vec![sized(b""), sized(b"x"), sized(b"xy"), sized(b"a=1&b"), sized(b"\r\n"), sized(b"\r\n\r\nGET / "), sized(&req[..]), sized(b"0\r\n\r\n"), sized(&[0, 255, 128, 10])];
    // every composition of a small body
    let max = if deep { 5 } else { 4 };
    for n in 0..=max {
        let b = &b"p\r\n0q"[..n];
        let comps = if n == 0 { 1 } else { 1 << (n - 1) };
        for c in 0..comps {
            let mut split = vec![];
            if n > 0 {
                let mut run = 1;
                for i in 0..n - 1 {
                    if c >> i & 1 == 1 {
                        split.push(run);
                        run = 1;
                    } else {
                        run += 1;
                    }
                }
                split.push(run);
            }
            v.push(chunked(b, &split, (n + c) % 4));
        }
    }
    v.push(chunked(&req[..], &[req.len()], 0));
    v.push(chunked(&req[..], &[10, 6, req.len() - 16], 1));
    v.push(chunked(b"abcdefghijklmnopq", &[16, 1], 1));
    v
}

fn input(f: &Framed, method: &str, extra: &str) -> (Vec<u8>, usize, usize) {
    let mut w = format!("{} /one HTTP/1.1\r\nHost: h\r\n{}{}\r\n", method, f.head, extra).into_bytes();
    let a = w.len();
    w.extend_from_slice(&f.wire);
    let b = w.len();
    (w, a, b)
}
const SECOND: &[u8] = b"POST /two HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nsecGET /three HTTP/1.1\r\nHost: h\r\n\r\n";

fn programs(max: usize) -> Vec<Vec<Op>> {
    let ops = [Op::Read(0), Op::Read(1), Op::Read(3), Op::Read(64), Op::ToEnd, Op::Query];
    (0..strings_upto(ops.len(), max)).map(|i| string_at(ops.len(), i).into_iter().map(|j| ops[j]).collect()).collect()
}

/// The rest of the body, read as a query.
fn query_ok(body: &[u8], seen: &Seen) -> bool {
    seen.params == form(&body[seen.got.len()..]).into_iter().collect::<Vec<_>>()
}

/// What the first handler saw against the body it should have.
fn judge_read(sh: &mut Shard, what: &str, f: &Framed, complete: bool, seen: &Seen, d: &dyn Fn() -> String) {
    let mut bad = |k: &str| sh.violation(format!("{}:{}", what, k), format!("{}\nbody {:?}, handler saw {:?}", d(), esc(&f.body), seen));
    if seen.path != b"/one" {
        bad("path");
    }
    if !f.body.starts_with(&seen.got) {
        bad("bytes");
    }
    if seen.after_eof {
        bad("data after the end");
    }
    if complete {
        if seen.err.is_some() {
            bad("error");
        }
        if seen.eof && !seen.query && seen.got != f.body {
            bad("early end");
        }
        if seen.query && seen.err.is_none() && !query_ok(&f.body, seen) {
            bad("read as a query");
        }
    } else if seen.eof {
        bad("cut body reported as complete");
    }
}

fn exchange(sh: &mut Shard, inst: &ServerInstance<Reader>, f: &Framed, prog: &[Op], order: Order, mut rd: MemIn, d: &dyn Fn() -> String) {
    PROG.with(|p| *p.borrow_mut() = (prog.to_vec(), order));
    SEEN.with(|s| s.borrow_mut().clear());
    rd.data.extend_from_slice(SECOND);
    let (out, served) = srv::talk_with(inst, rd, true);
    sh.trans(1);
    sh.trace();
    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    if let Closed::Panic(ref p) = served.closed {
        sh.violation(format!("panic:{}", norm(p)), d());
        return;
    }
    if seen.is_empty() {
        sh.violation("not called", d());
        return;
    }
    judge_read(sh, "read", f, true, &seen[0], d);
    let rest = [
        Seen { path: b"/two".to_vec(), got: b"sec".to_vec(), eof: true, ..Seen::default() },
        Seen { path: b"/three".to_vec(), eof: true, ..Seen::default() },
    ];
    if seen[1..] != rest[..] {
        sh.violation("next requests", format!("{}\nafter the first request handlers saw {:?}", d(), &seen[1..]));
    } else if let Err(e) = wire::parse_all(&out, &[false; 3]) {
        sh.violation("responses", format!("{}\n{}", d(), e));
    }
}

// ------------------------------------------------------------------------------- multipart

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Part {
    name: String,
    file: Option<String>,
    ty: Option<String>,
    data: Vec<u8>,
}
fn multipart_body(parts: &[Part], boundary: &str) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"{}\"", boundary, p.name).as_bytes());
        if let Some(ref f) = p.file {
            v.extend_from_slice(format!("; filename=\"{}\"", f).as_bytes());
        }
        v.extend_from_slice(b"\r\n");
        if let Some(ref t) = p.ty {
            v.extend_from_slice(format!("Content-Type: {}\r\n", t).as_bytes());
        }
        v.extend_from_slice(b"\r\n");
        v.extend_from_slice(&p.data);
        v.extend_from_slice(b"\r\n");
    }
    v.extend_from_slice(format!("--{}--\r\n", boundary).as_bytes());
    v
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Parts {
    offered: bool,
    parts: Vec<Part>,
    err: Option<String>,
}
/// How a handler goes through the parts: stop after so many, reading so much of each.
#[derive(Clone, Copy, Debug)]
struct Greed {
    parts: usize,
    bytes: usize,
}
thread_local! {
    static PARTS: RefCell<Vec<Parts>> = const { RefCell::new(vec![]) };
    static GREED: RefCell<Greed> = const { RefCell::new(Greed { parts: 99, bytes: 9999999 }) };
}
fn collect<B: Read>(m: &mut Multipart<B>, greed: Greed, out: &mut Parts) {
    while out.parts.len() < greed.parts {
        match m.read_entry() {
            Ok(Some(mut e)) => {
                let mut data = vec![];
                let r = (&mut e.data).take(greed.bytes as u64).read_to_end(&mut data);
                out.parts.push(Part { name: e.headers.name.to_string(), file: e.headers.filename.clone(), ty: e.headers.content_type.as_ref().map(|m| m.to_string()), data });
                if let Err(e) = r {
                    out.err = Some(e.to_string());
                    return;
                }
            }
            Ok(None) => return,
            Err(e) => {
                out.err = Some(e.to_string());
                return;
            }
        }
    }
}
struct Form;
impl Handler for Form {
    fn handle(&self, mut c: Context, r: Response) {
        let mut out = Parts::default();
        if let Some(mut m) = c.body.as_multipart() {
            out.offered = true;
            collect(&mut m, GREED.with(|g| *g.borrow()), &mut out);
        }
        PARTS.with(|p| p.borrow_mut().push(out));
        r.send("ok");
    }
}

struct Whole<'a>(&'a [u8], &'a str);
impl<'a> multipart::server::HttpRequest for Whole<'a> {
    type Body = &'a [u8];
    fn body(self) -> &'a [u8] {
        self.0
    }
    fn multipart_boundary(&self) -> Option<&str> {
        Some(self.1)
    }
}
/// The parts according to the multipart parser itself, on the whole body.
fn reference(body: &[u8], boundary: &str) -> Parts {
    let mut out = Parts { offered: true, ..Parts::default() };
    if let Ok(mut m) = Multipart::from_request(Whole(body, boundary)) {
        collect(&mut m, Greed { parts: 99, bytes: usize::MAX >> 1 }, &mut out);
    }
    out
}

thread_local! {
    static SIPS: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) };
}
/// Reads so many bytes, or all of it.
struct Sip(usize);
impl Handler for Sip {
    fn handle(&self, mut c: Context, _r: Response) {
        let mut v = vec![];
        if self.0 == usize::MAX {
            let _ = c.body.read_to_end(&mut v);
        } else {
            v = vec![0; self.0];
            let n = c.body.read(&mut v).unwrap_or(0);
            v.truncate(n);
        }
        SIPS.with(|s| s.borrow_mut().push(v));
    }
}

fn main() {
    check_main(
        "C08",
        Level::ModelChecking,
        "every framing of small bodies x every handler reading program up to a depth x every way of cutting the input (one and two cuts, every truncation), followed by two more requests; state = one (framing, program) or (parts, boundary)",
        |ctx| {
            ctx.assume("reads of the transport are not interrupted by signals inside chunk framing (the transport layer's own chunk reader does not resume there)");
            ctx.assume("a read timeout during a body is not configured by the server, so reads fail only for good");
            ctx.assume("malformed chunk framing is answered by the transport layer and not part of the property");
            let fs = framings(ctx.thorough);
            let progs = programs(ctx.pick(3, 4));
            let orders = [Order::ReadFirst, Order::DropFirst, Order::AnswerFirst];
            // 1. every program on every framing, one cut anywhere
            ctx.par("one-cut", fs.len() * progs.len() * orders.len(), |i, sh| {
                let mut d = Digits(i);
                let (f, p, o) = (&fs[d.take(fs.len())], &progs[d.take(progs.len())], orders[d.take(3)]);
                let inst = srv::instance(Reader);
                let (w, a, b) = input(f, "POST", "");
                sh.state(&(i % fs.len(), p));
                if p.len() == 2 {
                    sh.sample(|| format!("{:?} read by {:?} {:?}", esc(&w), p, o));
                }
                let first = if p.len() > 2 { a.saturating_sub(1) } else { 0 };
                for cut in first..=b + SECOND.len() {
                    let cuts = if cut == first { vec![] } else { vec![cut] };
                    let dd = || format!("{} read by {:?} ({:?}), cut at {} of {:?}", f.name, p, o, cut, esc(&w));
                    exchange(sh, &inst, f, p, o, MemIn::new(w.clone()).cuts(cuts), &dd);
                    if cut > b + 2 && p.len() > 2 {
                        break;
                    }
                }
                // byte by byte
                let dd = || format!("{} read by {:?} ({:?}), one byte at a time: {:?}", f.name, p, o, esc(&w));
                exchange(sh, &inst, f, p, o, MemIn::new(w.clone()).cuts((1..b + SECOND.len()).collect()), &dd);
            });
            // 2. two cuts anywhere around the body
            let few: Vec<Vec<Op>> = vec![vec![], vec![Op::ToEnd], vec![Op::Read(1)], vec![Op::Read(3), Op::Read(1)], vec![Op::Read(1), Op::ToEnd, Op::Read(1)], vec![Op::Query], vec![Op::Read(64)]];
            ctx.par("two-cuts", fs.len() * few.len() * 3, |i, sh| {
                let mut d = Digits(i);
                let (f, p, o) = (&fs[d.take(fs.len())], &few[d.take(few.len())], orders[d.take(3)]);
                let inst = srv::instance(Reader);
                let (w, a, b) = input(f, "PUT", "");
                for x in a - 3..=b {
                    for y in x + 1..=b + 6 {
                        let dd = || format!("{} read by {:?} ({:?}), cut at {} and {} of {:?}", f.name, p, o, x, y, esc(&w));
                        exchange(sh, &inst, f, p, o, MemIn::new(w.clone()).cuts(vec![x, y]), &dd);
                    }
                }
            });
            // 3. the peer stops or breaks at every point
            ctx.par("truncated", fs.len() * progs.len() * orders.len(), |i, sh| {
                let mut d = Digits(i);
                let (f, p, o) = (&fs[d.take(fs.len())], &progs[d.take(progs.len())], orders[d.take(3)]);
                let inst = srv::instance(Reader);
                let (w, a, _) = input(f, "POST", "");
                for n in a..a + f.needs {
                    for end in [End::Eof, End::Err(io::ErrorKind::ConnectionReset), End::Err(io::ErrorKind::WouldBlock), End::Err(io::ErrorKind::UnexpectedEof), End::Err(io::ErrorKind::TimedOut), End::Err(io::ErrorKind::BrokenPipe), End::Err(io::ErrorKind::Other)] {
                        PROG.with(|q| *q.borrow_mut() = (p.clone(), o));
                        SEEN.with(|s| s.borrow_mut().clear());
                        let mut rd = MemIn::new(&w[..n]);
                        rd.end = end;
                        let (out, served) = srv::talk_with(&inst, rd, true);
                        sh.trans(1);
                        sh.trace();
                        let dd = || format!("{} read by {:?} ({:?}), input ends ({:?}) after {} bytes of the body: {:?}", f.name, p, o, end, n - a, esc(&w[..n]));
                        if let Closed::Panic(ref m) = served.closed {
                            sh.violation(format!("truncated:panic:{}", norm(m)), format!("{}\n{}", dd(), m));
                            continue;
                        }
                        let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
                        if seen.len() != 1 {
                            sh.violation("truncated:calls", format!("{}\nhandlers saw {:?}", dd(), seen));
                            continue;
                        }
                        judge_read(sh, "truncated", f, false, &seen[0], &dd);
                        if let Err(e) = wire::parse_all(&out, &[false]) {
                            sh.violation("truncated:response", format!("{}\n{}", dd(), e));
                        }
                    }
                }
            });
            // 4. methods, expectations, versions
            let methods = ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PURGE"];
            let extras = ["", "Expect: 100-continue\r\n", "Content-Type: application/x-www-form-urlencoded\r\n", "Content-Type: multipart/form-data\r\n", "Content-Type: multipart/form-data; boundary=b\r\n", "Connection: keep-alive\r\n"];
            ctx.par("methods", fs.len() * methods.len() * extras.len() * few.len(), |i, sh| {
                let mut d = Digits(i);
                let (f, m, e, p) = (&fs[d.take(fs.len())], methods[d.take(methods.len())], extras[d.take(extras.len())], &few[d.take(few.len())]);
                let inst = srv::instance(Reader);
                let (w, _, _) = input(f, m, e);
                PROG.with(|q| *q.borrow_mut() = (p.clone(), Order::ReadFirst));
                SEEN.with(|s| s.borrow_mut().clear());
                let (out, served) = srv::talk_with(&inst, MemIn::new([&w[..], SECOND].concat()), true);
                sh.trans(1);
                sh.trace();
                let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
                let dd = || format!("{:?} read by {:?}", esc(&w), p);
                if seen.len() != 3 || seen[1].got != b"sec" || seen[2].path != b"/three" {
                    sh.violation("methods:next requests", format!("{}\nhandlers saw {:?}, {:?}", dd(), seen, served));
                    return;
                }
                judge_read(sh, "methods", f, true, &seen[0], &dd);
                let out = if e.starts_with("Expect") { out.strip_prefix(b"HTTP/1.1 100 Continue\r\n\r\n").map(|o| o.to_vec()).unwrap_or(out) } else { out };
                if let Err(e) = wire::parse_all(&out, &[false; 3]) {
                    sh.violation("methods:responses", format!("{}\n{}", dd(), e));
                }
            });
            // 4b. other lines of the head, and other methods
            let lines: Vec<String> = dict::heads().into_iter().filter(|l| !l.starts_with("Connection: close") && !l.starts_with("Connection: x-a")).collect();
            let mut names: Vec<String> = methods.iter().map(|m| m.to_string()).collect();
            let usual = names.len();
            names.extend(dict::methods());
            ctx.par("heads", lines.len() * usual + names.len() * 60, |i, sh| {
                let (line, m) = if i < lines.len() * usual { (&lines[i / usual], &names[i % usual]) } else { (&lines[(i - lines.len() * usual) % 60], &names[(i - lines.len() * usual) / 60]) };
                let inst = srv::instance(Reader);
                for f in [&fs[0], &fs[3], &chunked(b"a=1&b=2", &[3, 4], 0)] {
                    for p in [&few[1], &few[2], &few[5]] {
                        for o in orders {
                            let (w, _, b) = input(f, m, line);
                            sh.state(&(line, m, &f.name));
                            let dd = || format!("{:?} read by {:?} {:?}", esc(&w), p, o);
                            exchange(sh, &inst, f, p, o, MemIn::new(w.clone()).cuts(vec![b]), &dd);
                        }
                    }
                }
            });
            // 4c. bodies made of what the code mentions
            let words = dict::forms();
            let types = ["", "Content-Type: text/plain\r\n", "Content-Type: application/x-www-form-urlencoded\r\n", "Content-Type: application/json\r\n"];
            ctx.par("words", words.len() * types.len(), |i, sh| {
                let (word, ty) = (&words[i / types.len()], types[i % types.len()]);
                let inst = srv::instance(Reader);
                for body in [word.clone(), [&word[..], b"=", &word[..]].concat(), [b"a=1&", &word[..], b"\r\n"].concat(), [&word[..], b"\r\n\r\n", &word[..]].concat()] {
                    let n = body.len();
                    for f in [sized(&body), chunked(&body, &[n], 0), chunked(&body, &[1, n - 1][..if n > 1 { 2 } else { 1 }], 2)] {
                        for p in &few {
                            for o in orders {
                                let (w, a, b) = input(&f, "POST", ty);
                                sh.state(&(&body, &f.name));
                                let dd = || format!("{:?} read by {:?} {:?}", esc(&w), p, o);
                                exchange(sh, &inst, &f, p, o, MemIn::new(w.clone()).cuts(vec![a, a + 1, b]), &dd);
                            }
                        }
                    }
                }
            });
            // 4d. parts made of them
            ctx.par("part words", words.len() * 4, |i, sh| {
                let (word, how) = (&words[i / 4], i % 4);
                let text = String::from_utf8_lossy(word).into_owned();
                let plain = text.bytes().all(|c| c >= b' ' && c < 0x7f && c != b'"' && c != b'\\' && c != b';') && text.trim() == text;
                let mut part = Part { name: "n".into(), file: None, ty: None, data: b"v".to_vec() };
                match how {
                    0 => part.data = word.clone(),
                    1 if plain => part.name = text,
                    2 if plain => part.file = Some(text),
                    3 => part.data = [b"\r\n", &word[..], b"\r\n"].concat(),
                    _ => return,
                }
                let other = Part { name: "m".into(), file: Some("f".into()), ty: Some("text/plain".into()), data: b"w".to_vec() };
                for parts in [vec![part.clone()], vec![part.clone(), other.clone()], vec![other.clone(), part.clone()], vec![part.clone(), part.clone()]] {
                    let body = multipart_body(&parts, "B0");
                    if parts.iter().any(|p| p.data.windows(4).any(|w| w == b"--B0")) {
                        continue;
                    }
                    let refr = reference(&body, "B0");
                    sh.state(&(&parts, "words"));
                    if refr.err.is_some() || refr.parts != parts {
                        sh.note("parser itself does not yield the parts as sent", 1);
                    }
                    for f in [sized(&body), chunked(&body, &[1, 5, body.len() - 6], 0)] {
                        let (w, _, _) = input(&f, "POST", "Content-Type: multipart/form-data; boundary=B0\r\n");
                        PARTS.with(|p| p.borrow_mut().clear());
                        GREED.with(|g| *g.borrow_mut() = Greed { parts: 99, bytes: usize::MAX >> 1 });
                        let inst = srv::instance(Form);
                        let _ = srv::talk_with(&inst, MemIn::new([&w[..], SECOND].concat()), true);
                        sh.trans(1);
                        sh.trace();
                        let got = PARTS.with(|p| std::mem::take(&mut *p.borrow_mut()));
                        if got.len() != 3 || got[0] != refr {
                            sh.violation("multipart:words", format!("{:?}: expected {:?}\ngot {:?}", esc(&w), refr, got));
                        }
                    }
                }
            });
            // 5. bodies larger than the buffers
            let sizes: Vec<usize> = [4096usize, 8192, 12288, 16384, 32768, 65536, 131072, 262144, 1048576].iter().flat_map(|&n| if n > 131072 { vec![n + 60] } else { vec![n - 60, n - 2, n - 1, n, n + 1, n + 60] }).collect();
            ctx.par("large", sizes.len() * few.len() * 3 * 3, |i, sh| {
                let mut d = Digits(i);
                let (n, p, o, style) = (sizes[d.take(sizes.len())], &few[d.take(few.len())], orders[d.take(3)], d.take(3));
                let body: Vec<u8> = (0..n).map(|j| (j % 251) as u8).collect();
                let f = match style {
                    0 => sized(&body),
                    1 => chunked(&body, &[n], 0),
                    _ => chunked(&body, &[1000, n - 2000, 1000], 2),
                };
                let inst = srv::instance(Reader);
                let (w, a, b) = input(&f, "POST", "");
                for cuts in [vec![], vec![a], vec![a + n / 2], vec![b], vec![a + 1, a + 4096, a + 4097, b - 1], (1..b).step_by(1460).collect(), (1..b).step_by(100).collect()] {
                    PROG.with(|q| *q.borrow_mut() = (p.clone(), o));
                    let dd = || format!("a body of {} bytes ({}) read by {:?} {:?}, {} cuts", n, if style == 0 { "length" } else { "chunked" }, p, o, cuts.len());
                    SEEN.with(|s| s.borrow_mut().clear());
                    let (_, served) = srv::talk_with(&inst, MemIn::new([&w[..], SECOND].concat()).cuts(cuts.clone()), true);
                    sh.trans(1);
                    sh.trace();
                    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
                    let ok = seen.len() == 3
                        && body.starts_with(&seen[0].got)
                        && seen[0].err.is_none()
                        && (!seen[0].eof || seen[0].query || seen[0].got.len() == n)
                        && !seen[0].after_eof
                        && (!seen[0].query || query_ok(&body, &seen[0]))
                        && seen[1].got == b"sec"
                        && seen[2].path == b"/three";
                    if !ok {
                        sh.violation("large", format!("{}\n{} handler calls, first got {} bytes, {:?}", dd(), seen.len(), seen.first().map(|s| s.got.len()).unwrap_or(0), served));
                    }
                }
            });
            // far larger, which is left unread in different amounts
            let mut huge: Vec<usize> = vec![3 << 20, (8 << 20) + 1, (16 << 20) + 100, (33 << 20) + 7];
            if ctx.thorough {
                huge.push((70 << 20) + 1);
            }
            huge.extend(dict::numbers().iter().filter(|&&n| n > 3000 && n <= 64 << 20).flat_map(|&n| vec![n - 1, n + 1, n + 5000]));
            huge.sort();
            huge.dedup();
            ctx.par("huge", huge.len() * 3 * 2, |i, sh| {
                let mut d = Digits(i);
                let (n, amount, style) = (huge[d.take(huge.len())], d.take(3), d.take(2));
                let body: Vec<u8> = (0..n).map(|j| (j % 251) as u8).collect();
                let f = if style == 0 { sized(&body) } else { chunked(&body, &[1, n / 2, n - n / 2 - 1], 0) };
                let (w, _, _) = input(&f, "POST", "");
                drop(f);
                let inst = srv::instance(Sip([0, 1, usize::MAX][amount]));
                SIPS.with(|s| s.borrow_mut().clear());
                let (_, served) = srv::talk_with(&inst, MemIn::new([&w[..], SECOND].concat()), true);
                sh.trans(1);
                sh.trace();
                sh.add_states(1);
                let got = SIPS.with(|s| std::mem::take(&mut *s.borrow_mut()));
                let ok = got.len() == 3 && match amount {
                    0 => got[0].is_empty(),
                    1 => got[0] == body[..1],
                    _ => got[0] == body,
                } && (got[1].is_empty() && amount == 0 || amount > 0 && b"sec".starts_with(&got[1]) && !got[1].is_empty());
                if !ok {
                    sh.violation("huge", format!("a body of {} bytes ({}), of which {} are read: the handler ran {} times and read {:?} bytes, {:?}", n, style, ["none", "one", "all"][amount], got.len(), got.iter().map(|g| g.len()).collect::<Vec<_>>(), served));
                }
            });
            // 6. interruptions while reading bodies of known length
            ctx.par("interrupted", fs.len() * progs.len(), |i, sh| {
                let mut d = Digits(i);
                let (f, p) = (&fs[d.take(fs.len())], &progs[d.take(progs.len())]);
                if f.head.starts_with("Transfer") || p.iter().any(|o| matches!(o, Op::Read(_))) {
                    return;
                }
                let inst = srv::instance(Reader);
                let (w, a, b) = input(f, "POST", "");
                for x in a..b {
                    let mut rd = MemIn::new(w.clone()).cuts((a..=b).collect());
                    rd.interrupts = vec![x];
                    let dd = || format!("{} read by {:?}, interrupted at {} of {:?}", f.name, p, x, esc(&w));
                    exchange(sh, &inst, f, p, Order::ReadFirst, rd, &dd);
                }
            });
            // 7. when multipart access is offered
            let types: Vec<(&str, bool)> = vec![
                ("multipart/form-data; boundary=B", true), ("multipart/form-data; boundary=utf-8", true), ("multipart/form-data; x=y; boundary=B", true), ("multipart/form-data;boundary=B", true), ("multipart/form-data; boundary=\"B\"", true), ("multipart/form-data; charset=utf-8; boundary=B", true),
                ("multipart/form-data; boundary=B; charset=utf-8", true), ("Multipart/Form-Data; Boundary=B", true), ("multipart/form-data", false), ("multipart/form-data; charset=utf-8", false),
                ("multipart/form-data; x=B", false), ("multipart/mixed; boundary=B", false), ("multipart/form-datas; boundary=B", false), ("text/plain; boundary=B", false), ("text/form-data; boundary=B", false),
                ("application/x-www-form-urlencoded", false), ("application/x-www-form-urlencoded; boundary=B", false), ("application/octet-stream", false), ("multipart/*; boundary=B", false), ("*/*; boundary=B", false), ("", false),
            ];
            ctx.par("offered", (types.len() + 1) * 2 * methods.len(), |i, sh| {
                let mut d = Digits(i);
                let (t, te, m) = (d.take(types.len() + 1), d.take(2), methods[d.take(methods.len())]);
                let (ty, want) = if t < types.len() { types[t] } else { ("", false) };
                let parts = vec![Part { name: "n".into(), file: None, ty: None, data: b"v".to_vec() }];
                let body = multipart_body(&parts, if ty.ends_with("boundary=utf-8") { "utf-8" } else { "B" });
                let f = if te == 0 { sized(&body) } else { chunked(&body, &[7, body.len() - 7], 0) };
                let header = if t < types.len() { format!("Content-Type: {}\r\n", ty) } else { String::new() };
                let (w, _, _) = input(&f, m, &header);
                let inst = srv::instance(Form);
                PARTS.with(|p| p.borrow_mut().clear());
                GREED.with(|g| *g.borrow_mut() = Greed { parts: 99, bytes: usize::MAX >> 1 });
                let _ = srv::talk(&inst, &w);
                sh.trans(1);
                sh.trace();
                sh.state(&(t, te));
                let got = PARTS.with(|p| std::mem::take(&mut *p.borrow_mut()));
                let exp = if want { Parts { offered: true, parts, err: None } } else { Parts::default() };
                if got != vec![exp] {
                    sh.violation("multipart:offered", format!("{} with content type {:?}: {:?}", m, header, got));
                }
            });
            // 7b. boundaries of every shape and length
            let chars = ["b", "B", "-", "_", ".", "+", " ", "=", "/", ":", ",", "'", "(", ")", "?", "0"];
            let shapes: Vec<String> = {
                let mut v: Vec<String> = (0..strings_upto(chars.len(), ctx.pick(2, 3))).map(|i| string_at(chars.len(), i).iter().map(|&c| chars[c]).collect()).collect();
                for n in 1..=ctx.pick(100, 300) {
                    v.push("b".repeat(n));
                    v.push(format!("{}b", "-".repeat(n)));
                    v.push(format!("b{}", "-".repeat(n)));
                    v.push((0..n).map(|j| b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[j * 7 % 62] as char).collect());
                }
                v.extend(["utf-8", "UTF-8", "Utf-8", "boundary", "charset", "multipart", "form-data", "a b c", "----x----", "x--y--z"].iter().map(|s| s.to_string()));
                v
            };
            ctx.par("boundaries", shapes.len() * 6, |i, sh| {
                let bo = &shapes[i / 6][..];
                let how = i % 6;
                let token = !bo.is_empty() && bo.bytes().all(|c| c.is_ascii_alphanumeric() || b"-_.+".contains(&c));
                if how < 3 && !token {
                    return;
                }
                // what precedes and follows the parameter
                let (pre, post) = [("", ""), ("x=y; ", ""), ("", "; charset=utf-8")][how % 3];
                let value = if how < 3 { bo.to_string() } else { format!("\"{}\"", bo) };
                let ty = format!("multipart/form-data; {}boundary={}{}", pre, value, post);
                // what the type library makes of it
                let seen = match ty.parse::<rustful::mime::Mime>() {
                    Ok(m) => m.get_param("boundary").map(|v| v.as_str().to_string()),
                    Err(_) => None,
                };
                let parts = vec![Part { name: "n".into(), file: None, ty: None, data: b"v--\r\nw".to_vec() }, Part { name: "m".into(), file: None, ty: None, data: b"".to_vec() }];
                let body = multipart_body(&parts, bo);
                let exp = match seen {
                    Some(ref s) => reference(&body, s),
                    None => Parts::default(),
                };
                if seen.as_ref().map_or(true, |s| s != bo) {
                    sh.note("the type library reads another boundary", 1);
                } else if exp.err.is_some() || exp.parts != parts {
                    sh.note("parser itself does not yield the parts as sent", 1);
                }
                sh.state(&(bo, how));
                let f = if how % 2 == 0 { sized(&body) } else { chunked(&body, &[1, 5, body.len() - 6], 0) };
                let (w, _, _) = input(&f, "POST", &format!("Content-Type: {}\r\n", ty));
                PARTS.with(|p| p.borrow_mut().clear());
                GREED.with(|g| *g.borrow_mut() = Greed { parts: 99, bytes: usize::MAX >> 1 });
                let inst = srv::instance(Form);
                let _ = srv::talk(&inst, &w);
                sh.trans(1);
                sh.trace();
                let got = PARTS.with(|p| std::mem::take(&mut *p.borrow_mut()));
                if got != vec![exp.clone()] {
                    sh.violation("multipart:boundary", format!("{:?}: expected {:?}\ngot {:?}", esc(&w), exp, got));
                }
            });
            // 8. parts as sent, for every cut
            let datas: Vec<&[u8]> = vec![b"", b"v", b"\r\n", b"a\r\nb", b"--", b"--B", b"-", b"\r\n--", b"\xff\x00", b"B--\r\n", b"\r\n\r\n", b"x\r\n-", b"GET / HTTP/1.1\r\n\r\n"];
            let heads: Vec<(&str, Option<&str>, Option<&str>)> = vec![("n", None, None), ("n", Some("f.txt"), Some("text/plain")), ("a b", Some("x"), Some("application/octet-stream")), ("n", None, Some("text/plain"))];
            let kinds = datas.len() * heads.len();
            let boundaries = ["X--Y", "----WebKitFormBoundary7MA4YWxkTrZu0gW", "b", "utf-8"];
            let lists = strings_upto(kinds, ctx.pick(1, 2)) + ctx.pick(kinds, 0);
            ctx.par("parts", lists * boundaries.len(), |i, sh| {
                let mut d = Digits(i);
                let (l, bo) = (d.take(lists), boundaries[d.take(boundaries.len())]);
                let mut ix = if l < strings_upto(kinds, 1) || sh.thorough() { string_at(kinds, l) } else { vec![l - strings_upto(kinds, 1), 1] };
                if ix.len() == 2 && !sh.thorough() {
                    ix.push(5);
                }
                let parts: Vec<Part> = ix
                    .iter()
                    .map(|&k| {
                        let (n, f, t) = heads[k % heads.len()];
                        Part { name: n.into(), file: f.map(|s| s.into()), ty: t.map(|s| s.into()), data: datas[k / heads.len()].to_vec() }
                    })
                    .collect();
                let body = multipart_body(&parts, bo);
                if parts.iter().any(|p| p.data.windows(bo.len() + 2).any(|w| w == format!("--{}", bo).as_bytes())) || parts.is_empty() {
                    return;
                }
                let refr = reference(&body, bo);
                sh.state(&(&parts, bo));
                if refr.err.is_some() || refr.parts != parts {
                    // a limitation of the third-party parser, whatever feeds it
                    sh.note("parser itself does not yield the parts as sent", 1);
                }
                sh.sample(|| format!("{:?}", esc(&body)));
                for style in 0..2 {
                    let f = if style == 0 { sized(&body) } else { chunked(&body, &[1, 5, body.len() - 6], 0) };
                    let (w, a, b) = input(&f, "POST", &format!("Content-Type: multipart/form-data; boundary={}\r\n", bo));
                    let inst = srv::instance(Form);
                    for cut in a..=b {
                        PARTS.with(|p| p.borrow_mut().clear());
                        GREED.with(|g| *g.borrow_mut() = Greed { parts: 99, bytes: usize::MAX >> 1 });
                        let (_, served) = srv::talk_with(&inst, MemIn::new([&w[..], SECOND].concat()).cuts(vec![cut]), true);
                        sh.trans(1);
                        sh.trace();
                        let got = PARTS.with(|p| std::mem::take(&mut *p.borrow_mut()));
                        if got.len() != 3 || got[0] != refr {
                            sh.violation("multipart:parts", format!("{:?} cut at {}: expected {:?}\ngot {:?} {:?}", esc(&w), cut, refr, got, served));
                            return;
                        }
                    }
                    // leaving parts unread
                    for (np, nb) in [(0, 0), (1, 0), (1, 1), (2, 1)] {
                        PARTS.with(|p| p.borrow_mut().clear());
                        GREED.with(|g| *g.borrow_mut() = Greed { parts: np, bytes: nb });
                        let (out, _) = srv::talk_with(&inst, MemIn::new([&w[..], SECOND].concat()), true);
                        sh.trans(1);
                        sh.trace();
                        let n = PARTS.with(|p| std::mem::take(&mut *p.borrow_mut())).len();
                        if n != 3 || wire::parse_all(&out, &[false; 3]).is_err() {
                            sh.violation("multipart:left unread", format!("{:?} after {} parts of {} bytes: {} requests handled", esc(&w), np, nb, n));
                        }
                    }
                }
            });
        },
    )
}
