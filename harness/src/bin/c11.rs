//! C11: every request gets exactly one well-formed response.
use mc::gen::*;
use mc::wire::{Closed, Framing};
use mc::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::{Connection, ContentLength, ContentType, Date, Encoding, Headers, Server, TransferEncoding};
use rustful::response::Data;
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response, StatusCode};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Pre {
    Status(u16),
    LenTyped(u64),
    LenRaw(&'static str),
    LenTwice,
    Chunked,
    GzipChunked,
    TransferRaw(&'static str),
    Close,
    X(&'static str),
    XTwo,
    XRemove,
    Type,
    NoType,
    NoDate,
    NoServer,
    Name,
    /// this many headers
    Many(usize),
    /// a value of this length
    Long(usize),
    Named(&'static str, &'static str),
}
const PRES: [Pre; 21] = [
    Pre::Status(404), Pre::Status(204), Pre::Status(304), Pre::Status(500), Pre::Status(299), Pre::LenTyped(5), Pre::LenTyped(0), Pre::LenRaw("7"), Pre::LenTwice, Pre::Chunked, Pre::GzipChunked,
    Pre::TransferRaw("chunked"), Pre::TransferRaw("identity"), Pre::Close, Pre::X("v"), Pre::XTwo, Pre::XRemove, Pre::Type, Pre::NoType, Pre::NoDate, Pre::NoServer,
];
/// How the response is finished.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fin {
    Drop,
    DropContextFirst,
    Send(&'static [u8]),
    SendText(&'static str),
    SendBig(usize),
    /// pieces, how it ends: 0 drop, 1 end(), 2 panic, 3 through io::Write with flushes
    Stream(&'static [&'static str], u8),
    StreamBig(usize),
    /// so many pieces of this size: 0 and 1 streamed, 2 raw, ended or dropped
    Pieces(usize, usize, u8),
    /// announced length, pieces, how it ends: 0 drop, 1 end(), 2 single writes through io::Write
    Raw(u64, &'static [&'static str], u8),
    Panic,
    PanicAfterSend,
}
const FINS: &[Fin] = &[
    Fin::Drop,
    Fin::DropContextFirst,
    Fin::Send(b""),
    Fin::Send(b"x"),
    Fin::Send(b"\r\n0\r\n\r\nHTTP/1.1 200 OK\r\n\r\n\xff\x00"),
    Fin::SendText("hello"),
    Fin::SendBig(9999),
    Fin::SendBig(70000),
    Fin::Stream(&[], 0),
    Fin::Stream(&[], 1),
    Fin::Stream(&[""], 1),
    Fin::Stream(&["ab"], 0),
    Fin::Stream(&["ab", "", "c"], 0),
    Fin::Stream(&["", "a", "\r\n0\r\n\r\n", ""], 1),
    Fin::Stream(&["0123456789abcdefg", "x"], 1),
    Fin::Stream(&["ab", "cd"], 2),
    Fin::Stream(&[], 2),
    Fin::Stream(&["ab", "", "cde"], 3),
    Fin::StreamBig(9000),
    Fin::Raw(0, &[], 1),
    Fin::Raw(0, &[""], 0),
    Fin::Raw(3, &["abc"], 0),
    Fin::Raw(3, &["a", "", "bc"], 1),
    Fin::Raw(4, &["ab", "cd"], 2),
    Fin::Raw(2, &["ab", "excess"], 0),
    Fin::Raw(2, &["a", "bexcess"], 1),
    Fin::Panic,
    Fin::PanicAfterSend,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Filt {
    Pass,
    /// changes status and headers, among them the framing ones
    Headers,
    /// adds content around
    Content,
    /// swallows all content
    Swallow,
    Abort(u8),
    Silent(u8),
    Panic(u8),
}
const FILTS: [Filt; 13] = [
    Filt::Pass, Filt::Headers, Filt::Content, Filt::Swallow, Filt::Abort(0), Filt::Abort(1), Filt::Abort(2), Filt::Silent(0), Filt::Silent(1), Filt::Silent(2), Filt::Panic(0), Filt::Panic(1), Filt::Panic(2),
];

/// Another method and another line in the head of the request.
thread_local!(static OTHER: RefCell<(Option<String>, String)> = RefCell::new((None, String::new())));
thread_local!(static PROG: RefCell<(Vec<Pre>, Fin)> = const { RefCell::new((vec![], Fin::Drop)) });

fn big(n: usize) -> Vec<u8> {
    (0..n).map(|i| b"abcdefghijklmnopqrstuvw\r\n"[i % 25]).collect()
}

impl ResponseFilter for Filt {
    fn begin(&self, _: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        match *self {
            Filt::Headers => {
                h.set_raw("x-f", vec![b"f".to_vec()]);
                h.set(ContentLength(3));
                h.set(TransferEncoding(vec![Encoding::Gzip]));
                (StatusCode::NonAuthoritativeInformation, ResponseAction::next(None::<&str>))
            }
            Filt::Content => (s, ResponseAction::next(Some("<"))),
            Filt::Abort(0) => (s, ResponseAction::abort("b".into())),
            Filt::Silent(0) => (s, ResponseAction::silent_abort()),
            Filt::Panic(0) => panic!("scripted filter panic"),
            _ => (s, ResponseAction::next(None::<&str>)),
        }
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        match *self {
            Filt::Swallow => ResponseAction::next(None::<&str>),
            Filt::Abort(1) => ResponseAction::abort("w".into()),
            Filt::Silent(1) => ResponseAction::silent_abort(),
            Filt::Panic(1) if c.is_some() => panic!("scripted filter panic"),
            _ => ResponseAction::next(c),
        }
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        match *self {
            Filt::Content => ResponseAction::next(Some(">")),
            Filt::Abort(2) => ResponseAction::abort("e".into()),
            Filt::Silent(2) => ResponseAction::silent_abort(),
            Filt::Panic(2) => panic!("scripted filter panic"),
            _ => ResponseAction::next(None::<&str>),
        }
    }
}

struct H;
impl Handler for H {
    fn handle(&self, c: Context, mut r: Response) {
        if c.uri_path.as_path().map_or(false, |p| &p[..] == &b"/next"[..]) {
            return r.send("next");
        }
        let (pre, fin) = PROG.with(|p| p.borrow().clone());
        for p in &pre {
            match *p {
                Pre::Status(s) => r.set_status(StatusCode::from_u16(s)),
                Pre::LenTyped(n) => r.headers_mut().set(ContentLength(n)),
                Pre::LenRaw(s) => r.headers_mut().set_raw("Content-Length", vec![s.as_bytes().to_vec()]),
                Pre::LenTwice => r.headers_mut().set_raw("content-length", vec![b"1".to_vec(), b"2".to_vec()]),
                Pre::Chunked => r.headers_mut().set(TransferEncoding(vec![Encoding::Chunked])),
                Pre::GzipChunked => r.headers_mut().set(TransferEncoding(vec![Encoding::Gzip, Encoding::Chunked])),
                Pre::TransferRaw(s) => r.headers_mut().set_raw("Transfer-Encoding", vec![s.as_bytes().to_vec()]),
                Pre::Close => r.headers_mut().set(Connection::close()),
                Pre::X(s) => r.headers_mut().set_raw("x-h", vec![s.as_bytes().to_vec()]),
                Pre::XTwo => r.headers_mut().set_raw("X-H", vec![b"1".to_vec(), b"2".to_vec()]),
                Pre::XRemove => {
                    r.headers_mut().remove_raw("x-h");
                }
                Pre::Type => r.headers_mut().set(ContentType::json()),
                Pre::NoType => {
                    r.headers_mut().remove::<ContentType>();
                }
                Pre::NoDate => {
                    r.headers_mut().remove::<Date>();
                }
                Pre::NoServer => {
                    r.headers_mut().remove::<Server>();
                }
                Pre::Name => r.headers_mut().set(Server("other".into())),
                Pre::Many(n) => (0..n).for_each(|i| r.headers_mut().set_raw(format!("X-M-{}", i), vec![i.to_string().into_bytes()])),
                Pre::Long(n) => r.headers_mut().set_raw("x-h", vec![vec![b'v'; n]]),
                Pre::Named(n, v) => r.headers_mut().set_raw(n, vec![v.as_bytes().to_vec()]),
            }
        }
        match fin {
            Fin::Drop => {}
            Fin::DropContextFirst => {
                drop(c);
                drop(r);
            }
            Fin::Send(b) => r.send(b),
            Fin::SendText(s) => r.send_data(s),
            Fin::SendBig(n) => r.send(big(n)),
            Fin::Stream(ps, how) => {
                let mut ch = r.into_chunked();
                for (i, p) in ps.iter().enumerate() {
                    match how {
                        3 => {
                            let _ = ch.write_all(p.as_bytes());
                            let _ = ch.flush();
                        }
                        _ if i % 2 == 0 => ch.send(*p),
                        _ => {
                            let _ = ch.try_send(p.as_bytes());
                        }
                    }
                }
                match how {
                    1 => {
                        let _ = ch.end();
                    }
                    2 => panic!("scripted handler panic"),
                    _ => {}
                }
            }
            Fin::StreamBig(n) => {
                let mut ch = r.into_chunked();
                let _ = ch.write_all(&big(n));
                ch.send("");
                let _ = write!(ch, "{}-{}", 12, "x");
            }
            Fin::Pieces(n, size, 2) => {
                let all = big(n * size);
                let mut raw = unsafe { r.into_raw(all.len() as u64) };
                for i in 0..n {
                    let _ = raw.try_send(&all[i * size..(i + 1) * size]);
                }
                let _ = raw.end();
            }
            Fin::Pieces(n, size, how) => {
                let all = big(n * size);
                let mut ch = r.into_chunked();
                for i in 0..n {
                    let _ = ch.try_send(&all[i * size..(i + 1) * size]);
                }
                if how == 1 {
                    let _ = ch.end();
                }
            }
            Fin::Raw(n, ps, how) => {
                let mut raw = unsafe { r.into_raw(n) };
                for (i, p) in ps.iter().enumerate() {
                    if how == 2 {
                        let _ = raw.write(p.as_bytes());
                        let _ = raw.flush();
                    } else if i % 2 == 0 {
                        let _ = raw.try_send(*p);
                    } else {
                        raw.send(*p);
                    }
                }
                if how == 1 {
                    let _ = raw.end();
                }
            }
            Fin::Panic => panic!("scripted handler panic"),
            Fin::PanicAfterSend => {
                r.send("sent");
                panic!("scripted handler panic")
            }
        }
    }
}

const REQS: [(&str, &str, &str); 6] = [
    ("GET", "HTTP/1.1", ""),
    ("POST", "HTTP/1.1", "Content-Length: 4\r\n"),
    ("HEAD", "HTTP/1.1", ""),
    ("GET", "HTTP/1.0", ""),
    ("GET", "HTTP/1.0", "Connection: keep-alive\r\n"),
    ("DELETE", "HTTP/1.1", "Connection: close\r\n"),
];

struct Want {
    status: Option<u16>,
    headers: Option<BTreeMap<String, Vec<String>>>,
    body: Option<Vec<u8>>,
    /// content added by a filter that another one may or may not swallow
    around: Option<usize>,
    chunked: Option<bool>,
    /// None: whether the panicking filter is ever called depends on the other filters
    dies: Option<bool>,
    close: bool,
}

fn model(pre: &[Pre], fin: Fin, filts: &[Filt], req: usize) -> Want {
    let mut status = 200;
    let mut h: BTreeMap<String, Vec<String>> = BTreeMap::new();
    h.insert("date".into(), vec![String::new()]);
    h.insert("server".into(), vec!["mc".into()]);
    h.insert("content-type".into(), vec!["text/plain".into()]);
    // the transport layer never keeps HTTP/1.0 connections
    let close_req = REQS[req].2.contains("close") || REQS[req].1 == "HTTP/1.0";
    let mut close = close_req;
    for p in pre {
        match *p {
            Pre::Status(s) => status = s,
            Pre::Close => close = true,
            Pre::X(s) => {
                h.insert("x-h".into(), vec![s.into()]);
            }
            Pre::XTwo => {
                h.insert("x-h".into(), vec!["1".into(), "2".into()]);
            }
            Pre::XRemove => {
                h.remove("x-h");
            }
            Pre::Type => {
                h.insert("content-type".into(), vec!["application/json".into()]);
            }
            Pre::NoType => {
                h.remove("content-type");
            }
            Pre::NoServer => {
                h.remove("server");
            }
            Pre::Name => {
                h.insert("server".into(), vec!["other".into()]);
            }
            Pre::Many(n) => (0..n).for_each(|i| {
                h.insert(format!("x-m-{}", i), vec![i.to_string()]);
            }),
            Pre::Long(n) => {
                h.insert("x-h".into(), vec!["v".repeat(n)]);
            }
            Pre::Named(n, v) => {
                h.insert(n.to_ascii_lowercase(), vec![v.into()]);
            }
            _ => {}
        }
    }
    let raw = matches!(fin, Fin::Raw(..) | Fin::Pieces(_, _, 2));
    if let Fin::Panic = fin {
        status = 500;
    }
    let stream = !raw && matches!(fin, Fin::Stream(..) | Fin::StreamBig(_) | Fin::Pieces(..));
    let mut body: Vec<u8> = match fin {
        Fin::Send(b) => b.to_vec(),
        Fin::SendText(s) => s.as_bytes().to_vec(),
        Fin::SendBig(n) => big(n),
        Fin::Stream(ps, _) => ps.concat().into_bytes(),
        Fin::StreamBig(n) => [&big(n)[..], b"12-x"].concat(),
        Fin::Pieces(n, size, _) => big(n * size),
        Fin::Raw(n, ps, _) => ps.concat().into_bytes()[..n as usize].to_vec(),
        Fin::PanicAfterSend => b"sent".to_vec(),
        _ => vec![],
    };
    let mut dies = matches!(fin, Fin::Panic | Fin::PanicAfterSend | Fin::Stream(_, 2));
    let mut failed = false;
    let mut panicked = false;
    if !raw {
        for f in filts {
            match *f {
                Filt::Headers => {
                    status = 203;
                    h.insert("x-f".into(), vec!["f".into()]);
                }
                Filt::Content => body = [b"<", &body[..], b">"].concat(),
                Filt::Swallow | Filt::Silent(1) => body.clear(),
                Filt::Abort(_) => failed = true,
                Filt::Panic(1) if stream && matches!(fin, Fin::Stream(&[], _)) => {}
                Filt::Panic(_) => {
                    panicked = true;
                    dies = true
                }
                _ => {}
            }
        }
    }
    let empty = status == 204 || status == 304;
    let stops = |f: &Filt| matches!(*f, Filt::Swallow | Filt::Silent(_) | Filt::Abort(_));
    // an empty status has no body to add the filters' content to, so streaming ends at that
    let open = panicked && (filts.iter().any(stops) || empty);
    let contents = filts.iter().filter(|f| **f == Filt::Content).count();
    let unbegun = filts.iter().position(|f| *f == Filt::Silent(0)).map_or(false, |p| filts[p..].contains(&Filt::Headers));
    let failed = failed || (unbegun && !raw);
    let around = if contents > 0 && filts.iter().any(stops) { Some(contents) } else { None };
    Want {
        status: if failed || open { None } else if panicked { if stream { None } else { Some(500) } } else { Some(status) },
        headers: if failed || panicked { None } else { Some(h) },
        body: if failed || panicked { None } else if empty { Some(vec![]) } else { Some(body) },
        around,
        chunked: if failed || panicked || empty { None } else { Some(stream) },
        dies: if open { None } else { Some(dies) },
        close,
    }
}

fn run(sh: &mut Shard, inst: &ServerInstance<H>, pre: &[Pre], fin: Fin, filts: &[Filt], req: usize) {
    // one panic at a time: a second one while unwinding ends any program
    let handler_panics = matches!(fin, Fin::Panic | Fin::PanicAfterSend | Fin::Stream(_, 2));
    if handler_panics && filts.iter().any(|f| matches!(f, Filt::Panic(_))) || filts.iter().filter(|f| matches!(f, Filt::Panic(_))).count() > 1 {
        return;
    }
    if matches!(fin, Fin::Stream(..) | Fin::StreamBig(_)) && filts.contains(&Filt::Panic(1)) && filts.contains(&Filt::Content) {
        return; // ending the response while unwinding filters the last content, which panics again
    }
    PROG.with(|p| *p.borrow_mut() = (pre.to_vec(), fin));
    let (m, v, x) = REQS[req];
    let (other, line) = OTHER.with(|o| o.borrow().clone());
    let m = other.as_ref().map_or(m, |o| &o[..]);
    let body = if x.contains("Length") { "body" } else { "" };
    let input = format!("{} /p {}\r\nHost: h\r\n{}{}\r\n{}GET /next HTTP/1.1\r\nHost: h\r\n\r\n", m, v, x, line, body);
    let (out, served) = srv::talk(inst, input.as_bytes());
    sh.trans(1);
    sh.trace();
    let d = || format!("{} {} {:?} {:?}, handler {:?} {:?}, filters {:?}", m, v, x, line, pre, fin, filts);
    let w = model(pre, fin, filts, req);
    let head = m == "HEAD";
    let site = |k: &str| k.to_string();
    let panicked = matches!(served.closed, Closed::Panic(_)) && served.requests == 1;
    if w.dies.map_or(false, |d| panicked != d) {
        sh.violation(site("panic"), format!("{}\n{:?}", d(), served));
        return;
    }
    let show = || esc(&out[..out.len().min(600)]);
    let how = match fin {
        Fin::Stream(..) | Fin::StreamBig(_) | Fin::Pieces(_, _, 0) | Fin::Pieces(_, _, 1) => "stream",
        Fin::Raw(..) | Fin::Pieces(_, _, 2) => "raw",
        _ => "fixed",
    };
    let mut pos = 0;
    let mut res = wire::parse_response(&out, &mut pos, head);
    if head {
        // listed finding: a handler's content is sent in response to HEAD; check the rest of the
        // property with that body taken for what it is
        let mut p = 0;
        if let Ok(r) = wire::parse_response(&out, &mut p, false) {
            if p > pos {
                sh.violation(format!("head-body:{}", how), format!("{}\n{} body bytes in {:?}", d(), p - pos, show()));
                pos = p;
                res = Ok(r);
            }
        }
    }
    let mut ten = false;
    if v == "HTTP/1.0" && res.as_ref().err().map_or(false, |e| e == "Transfer-Encoding in an HTTP/1.0 response") && out.starts_with(b"HTTP/1.0") {
        // listed finding: chunks in a response to an HTTP/1.0 request
        let site = if how == "stream" { "stream" } else if filts.iter().any(|f| matches!(f, Filt::Abort(_))) { "aborted" } else if filts.iter().any(|f| matches!(f, Filt::Panic(_))) { "panicked" } else { "fixed" };
        sh.violation(format!("http10-chunked:{}", site), format!("{}\n{:?}", d(), show()));
        let mut patched = out.clone();
        patched[7] = b'1';
        pos = 0;
        res = wire::parse_response(&patched, &mut pos, false);
        ten = true;
    }
    let r = match res {
        Ok(r) => r,
        Err(e) => {
            // listed finding: nothing takes back what a filter did to the framing headers when a later one panics
            let hp = filts.iter().position(|f| *f == Filt::Headers).map_or(false, |p| filts[p..].iter().any(|f| matches!(f, Filt::Panic(_))));
            let k = if hp && panicked { "framing-before-filter-panic".to_string() } else { norm(&e) };
            sh.violation(site(&k), format!("{}\n{} in {:?}", d(), e, show()));
            return;
        }
    };
    let text = |t: String| format!("{}\n{}\nin {:?}", d(), t, esc(&out[..out.len().min(600)]));
    if r.version != v && !ten {
        sh.violation(site("version"), text(format!("answered in {}", r.version)));
    }
    if let Some(s) = w.status {
        if r.status != s {
            sh.violation(site("status"), text(format!("expected {}, got {}", s, r.status)));
            return;
        }
    }
    if let Some(b) = w.body {
        let b = if head && r.framing == Framing::None { vec![] } else { b };
        let same = r.body == b
            || w.around.map_or(false, |n| {
                let inner: Vec<u8> = b.iter().cloned().filter(|c| !b"<>".contains(c)).collect();
                let a = r.body.iter().take_while(|&&c| c == b'<').count();
                let e = r.body.iter().rev().take_while(|&&c| c == b'>').count();
                a <= n && e <= n && a + e <= r.body.len() && r.body[a..r.body.len() - e] == inner[..]
            });
        if !same {
            sh.violation(site("body"), text(format!("expected {} bytes {:?}, got {}", b.len(), esc(&b[..b.len().min(60)]), r.body.len())));
            return;
        }
        if let (Some(ch), false) = (w.chunked, r.framing == Framing::None) {
            let ok = match r.framing {
                Framing::Chunked => ch,
                Framing::Sized(_) => !ch,
                _ => false,
            };
            if !ok {
                sh.violation(site("framing"), text(format!("{:?}", r.framing)));
            }
        }
    }
    if let Some(h) = w.headers {
        let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (k, v) in &r.headers {
            let k = k.to_ascii_lowercase();
            if k == "content-length" || k == "transfer-encoding" || k == "connection" {
                continue;
            }
            got.entry(k.clone()).or_default().push(if k == "date" { String::new() } else { v.clone() });
        }
        if let Some(x) = got.get_mut("x-h") {
            // two values may also be sent in one line
            *x = x.iter().flat_map(|l| l.split(", ").map(|s| s.to_string())).collect();
        }
        if got != h {
            sh.violation(site("headers"), text(format!("expected {:?}\ngot {:?}", h, got)));
        }
    }
    if w.close && !r.closes() && v == "HTTP/1.1" {
        sh.violation(site("close"), text("no Connection: close".into()));
    }
    // exactly one: the next thing is the next response or the end
    let rest = &out[pos..];
    if panicked || w.close {
        if !rest.is_empty() {
            sh.violation(site("extra bytes"), text(format!("{} bytes after the response", rest.len())));
        }
        return;
    }
    match wire::parse_all(rest, &[false]) {
        Ok(v) if v[0].status == 200 || !filts.is_empty() => {}
        Ok(v) => sh.violation(site("next response"), text(format!("{:?}", v))),
        Err(_) if matches!(served.closed, Closed::Panic(_)) && filts.contains(&Filt::Headers) => {}
        Err(e) => sh.violation(site("next response"), text(e)),
    }
}

fn instance(filts: &[Filt]) -> ServerInstance<H> {
    let mut c = srv::config(H);
    for f in filts {
        c.response_filters.push(Box::new(*f));
    }
    c.build()
}

fn explore(ctx: &Ctx, name: &str, pres: usize, filts: usize, reqs: &'static [usize]) {
    let (a, b, c) = (strings_upto(PRES.len(), pres), strings_upto(FILTS.len(), filts), FINS.len());
    ctx.par(name, a * b, |i, sh| {
        let mut d = Digits(i);
        let pre: Vec<Pre> = string_at(PRES.len(), d.take(a)).iter().map(|&p| PRES[p]).collect();
        let fl: Vec<Filt> = string_at(FILTS.len(), d.take(b)).iter().map(|&f| FILTS[f]).collect();
        let inst = instance(&fl);
        sh.add_states(c as u64);
        for f in 0..c {
            for &r in reqs {
                run(sh, &inst, &pre, FINS[f], &fl, r);
            }
        }
        if pre.len() == 2 {
            sh.sample(|| format!("handler {:?} {:?}, filters {:?}", pre, FINS[3 + i % 20], fl));
        }
    });
}

fn main() {
    check_main(
        "C11",
        Level::ModelChecking,
        "every handler program (header and status operations up to a depth, then every way of finishing) x every list of response filters up to a bound x request kinds, with a second request pipelined behind; state = one (program, filter list)",
        |ctx| {
            ctx.assume("1xx is not a final status, and raw responses supply at least as many bytes as announced (the interface is marked unsafe for that reason)");
            ctx.assume("at most one panic per request");
            ctx.assume("when a filter aborts or panics, the status, headers and body are left open but the response must be complete and well-formed");
            explore(ctx, "plain", 2, 0, &[0, 1, 2, 3, 4, 5]);
            explore(ctx, "filtered", 1, 2, &[0, 1, 2, 3, 4, 5]);
            explore(ctx, "both", 2, 1, &[0, 3]);
            explore(ctx, "filters", 0, 3, &[0, 5]);
            // every size of body, and every number of pieces
            let sizes = ladder(ctx.pick(300_000, 3_000_000));
            let counts = ladder(ctx.pick(1500, 20_000));
            let mut fins: Vec<Fin> = sizes.iter().flat_map(|&n| vec![Fin::SendBig(n), Fin::StreamBig(n), Fin::Pieces(1, n, 0), Fin::Pieces(1, n, 2)]).collect();
            fins.extend(counts.iter().flat_map(|&n| [1, 3, 37].into_iter().flat_map(move |s| (0..3).map(move |how| Fin::Pieces(n, s, how)))));
            ctx.par("sizes", fins.len(), |i, sh| {
                sh.add_states(1);
                for fl in [&[][..], &[Filt::Pass], &[Filt::Content, Filt::Headers]] {
                    let inst = instance(fl);
                    for pre in [&[][..], &[Pre::LenTyped(5)]] {
                        run(sh, &inst, pre, fins[i], fl, 0);
                    }
                    run(sh, &inst, &[], fins[i], fl, 1);
                }
            });
            // every status
            ctx.par("statuses", 400 * FINS.len(), |i, sh| {
                let (s, fin) = (200 + (i / FINS.len()) as u16, FINS[i % FINS.len()]);
                sh.add_states(1);
                for fl in [&[][..], &[Filt::Pass], &[Filt::Content]] {
                    let inst = instance(fl);
                    for r in [0, 1, 5] {
                        run(sh, &inst, &[Pre::Status(s)], fin, fl, r);
                        run(sh, &inst, &[Pre::Status(500), Pre::X("v"), Pre::Status(s)], fin, fl, r);
                    }
                }
            });
            // any number of headers, and values of any length
            let counts = ladder(ctx.pick(400, 4000));
            let lens = ladder(ctx.pick(70_000, 1_000_000));
            ctx.par("headers", (counts.len() + lens.len()) * FINS.len(), |i, sh| {
                let (k, fin) = (i / FINS.len(), FINS[i % FINS.len()]);
                let pre = if k < counts.len() { Pre::Many(counts[k]) } else { Pre::Long(lens[k - counts.len()].max(1)) };
                sh.add_states(1);
                for fl in [&[][..], &[Filt::Headers]] {
                    let inst = instance(fl);
                    run(sh, &inst, &[pre], fin, fl, 0);
                    run(sh, &inst, &[Pre::XTwo, pre, Pre::Close], fin, fl, 1);
                }
            });
            // what the code mentions, as names and values of headers, as content, and in the request
            let plain = |n: &String| !["connection", "content-length", "transfer-encoding", "date", "server", "x-h", "x-f"].contains(&&n.to_ascii_lowercase()[..]);
            let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
            let names: Vec<&'static str> = dict::names().into_iter().filter(plain).chain(["Set-Cookie", "ETag", "Last-Modified", "Location", "Cache-Control", "Vary", "Content-Encoding", "Content-Range", "Content-MD5", "Upgrade", "Trailer", "Via", "Allow", "WWW-Authenticate", "Retry-After", "Link", "Expires"].iter().map(|s| s.to_string())).map(leak).collect();
            let values: Vec<&'static str> = dict::values().into_iter().filter(|v| !v.contains(", ")).map(leak).collect();
            let short: Vec<Fin> = FINS.iter().cloned().filter(|f| !matches!(f, Fin::SendBig(_) | Fin::StreamBig(_))).collect();
            let value_names = ["X-H", "Set-Cookie", "ETag", "Vary", "Content-Type", "Allow", "Location"];
            ctx.par("header-words", names.len() + values.len() * value_names.len(), |i, sh| {
                let pre = if i < names.len() { Pre::Named(names[i], "1") } else { Pre::Named(value_names[(i - names.len()) % value_names.len()], values[(i - names.len()) / value_names.len()]) };
                sh.add_states(1);
                for fl in [&[][..], &[Filt::Headers], &[Filt::Content]] {
                    let inst = instance(fl);
                    for &fin in &short {
                        run(sh, &inst, &[pre], fin, fl, 0);
                        run(sh, &inst, &[Pre::X("v"), pre, Pre::Status(404)], fin, fl, 5);
                    }
                }
            });
            let contents: Vec<&'static str> = dict::texts().into_iter().map(leak).collect();
            ctx.par("content-words", contents.len(), |i, sh| {
                let w = contents[i];
                let pieces: &'static [&'static str] = Box::leak(vec![w, "", w, "a"].into_boxed_slice());
                let n = pieces.iter().map(|p| p.len()).sum::<usize>() as u64;
                sh.add_states(1);
                for fl in [&[][..], &[Filt::Pass], &[Filt::Headers], &[Filt::Swallow]] {
                    let inst = instance(fl);
                    for pre in [&[][..], &[Pre::LenTyped(5)], &[Pre::Type]] {
                        for fin in [Fin::Send(w.as_bytes()), Fin::SendText(w), Fin::Stream(pieces, 0), Fin::Stream(pieces, 1), Fin::Stream(pieces, 3), Fin::Raw(n, pieces, 0), Fin::Raw(n, pieces, 1), Fin::Raw(n, pieces, 2)] {
                            run(sh, &inst, pre, fin, fl, 0);
                            run(sh, &inst, pre, fin, fl, 5);
                        }
                    }
                }
            });
            // those that ask for the connection to be closed are among the other requests
            let lines: Vec<String> = dict::heads().into_iter().filter(|l| !l.starts_with("Connection:")).collect();
            let methods = dict::methods();
            let few = [&[][..], &[Pre::Status(404), Pre::X("v")], &[Pre::LenTyped(5)], &[Pre::Status(204)], &[Pre::Close]];
            ctx.par("heads", (lines.len() + methods.len()) * few.len(), |i, sh| {
                let (k, pre) = (i / few.len(), few[i % few.len()]);
                let other = if k < lines.len() { (None, lines[k].clone()) } else { (Some(methods[k - lines.len()].clone()), String::new()) };
                OTHER.with(|o| *o.borrow_mut() = other);
                sh.add_states(1);
                for fl in [&[][..], &[Filt::Content]] {
                    let inst = instance(fl);
                    for &fin in &short {
                        for r in if k < lines.len() { &[0, 1, 3, 5][..] } else { &[0][..] } {
                            run(sh, &inst, pre, fin, fl, *r);
                        }
                    }
                }
                OTHER.with(|o| *o.borrow_mut() = (None, String::new()));
            });
            if ctx.thorough {
                explore(ctx, "programs", 4, 0, &[0]);
                explore(ctx, "programs-filtered", 3, 1, &[0, 2]);
                explore(ctx, "filters-deep", 1, 3, &[0, 3, 5]);
                explore(ctx, "filters-deepest", 0, 4, &[0]);
            }
        },
    )
}
