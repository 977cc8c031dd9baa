//! C23: every response carries the configured default headers, and handlers see the request.
use mc::gen::*;
use mc::srv;
use mc::wire::{self, Closed};
use mc::*;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::header::{ContentType, Date, Headers, HttpDate, Server as ServerHeader};
use rustful::mime::{Attr, Mime, SubLevel, TopLevel, Value};
use rustful::response::Data;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, DefaultRouter, Handler, HttpVersion, Method, Response, Server, StatusCode};
use std::cell::RefCell;
use std::fs;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// What is done to each of Date, Server and Content-Type: kept, replaced or removed.
fn digits3(i: usize) -> [usize; 3] {
    [i % 3, i / 3 % 3, i / 9 % 3]
}
const OLD: &str = "Sun, 06 Nov 1994 08:49:37 GMT";
fn change(how: [usize; 3], h: &mut Headers, by: &str) {
    match how[0] {
        1 => h.set_raw("Date", vec![OLD.as_bytes().to_vec()]),
        2 => {
            h.remove::<Date>();
        }
        _ => {}
    }
    match how[1] {
        1 => h.set(ServerHeader(format!("{}-server", by))),
        2 => {
            h.remove::<ServerHeader>();
        }
        _ => {}
    }
    match how[2] {
        1 => h.set(ContentType(Mime(TopLevel::Application, SubLevel::Ext(format!("x-{}", by)), vec![]))),
        2 => {
            h.remove::<ContentType>();
        }
        _ => {}
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct Plan {
    fin: usize,
    handler: [usize; 3],
    filter: Option<[usize; 3]>,
    early: bool,
}
thread_local! {
    static PLAN: RefCell<Plan> = const { RefCell::new(Plan { fin: 0, handler: [0; 3], filter: None, early: false }) };
    static SEEN: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    /// Another line of the request's head.
    static LINE: RefCell<String> = const { RefCell::new(String::new()) };
    static FILE: RefCell<String> = const { RefCell::new(String::new()) };
}

struct H;
impl Handler for H {
    fn handle(&self, c: Context, mut r: Response) {
        let p = PLAN.with(|p| *p.borrow());
        SEEN.with(|s| {
            s.borrow_mut().push(format!(
                "{} {:?} {:?} {}",
                r.status().to_u16(),
                r.headers().get::<ServerHeader>().map(|s| s.0.clone()),
                r.headers().get::<ContentType>().map(|c| c.0.to_string()),
                r.headers().get::<Date>().map_or(false, |d| {
                    let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64;
                    (d.0).0.to_timespec().sec - now <= 2 && now - (d.0).0.to_timespec().sec <= 60
                })
            ))
        });
        if p.early {
            r.set_status(StatusCode::Accepted);
        }
        change(p.handler, r.headers_mut(), "h");
        match p.fin {
            0 => {}
            1 => r.send("text"),
            2 => r.send(""),
            3 => r.send(vec![0u8; 3000]),
            4 => {
                let mut ch = r.into_chunked();
                ch.send("a");
                ch.send("b");
            }
            5 => {
                let _ = r.into_chunked().end();
            }
            6 => {
                let mut raw = unsafe { r.into_raw(3) };
                raw.send("raw");
            }
            7 => {
                let f = FILE.with(|f| f.borrow().clone());
                let _ = r.send_file_with_mime(f, |_| None).is_ok();
            }
            8 => {
                let _ = r.send_file_with_mime("/nonexistent/file", |_| None).map_err(|e| e.send_not_found("gone").is_ok());
            }
            9 => r.send(None::<&str>),
            10 => r.send(Err::<&str, &str>("failed")),
            11 => {
                drop(c);
                panic!("scripted handler panic")
            }
            12 => r.send(Ok::<&str, &str>("fine")),
            _ => {
                r.set_status(StatusCode::NoContent);
            }
        }
    }
}
const FINS: usize = 14;

struct CF(Option<StatusCode>);
impl ContextFilter for CF {
    fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction {
        match (self.0, c.headers.has::<rustful::header::Authorization<rustful::header::Basic>>()) {
            (Some(s), true) => ContextAction::abort(s),
            _ => ContextAction::next(),
        }
    }
}
struct RF;
impl ResponseFilter for RF {
    fn begin(&self, _: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        if let Some(how) = PLAN.with(|p| p.borrow().filter) {
            change(how, h, "f");
        }
        (s, ResponseAction::next(None::<&str>))
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::next(c)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(None::<&str>)
    }
}

const NAMES: [&str; 4] = ["mc", "rustful/1.0 (test) x", "", "a;b=c, d"];
fn types() -> Vec<(Mime, &'static str)> {
    vec![
        (Mime(TopLevel::Text, SubLevel::Plain, vec![]), "text/plain"),
        (Mime(TopLevel::Text, SubLevel::Html, vec![(Attr::Charset, Value::Utf8)]), "text/html; charset=utf-8"),
        (Mime(TopLevel::Ext("odd".into()), SubLevel::Ext("thing".into()), vec![]), "odd/thing"),
    ]
}
fn router() -> DefaultRouter<Option<H>> {
    let mut r = DefaultRouter::new();
    r.build().path("h").then().on_get(H);
    r.build().path("h").then().on_head(H);
    r.build().path("post").then().on_post(H);
    r
}

/// Requests: (text, which response the server is to give by itself, if the handler doesn't run)
const REQS: [(&str, Option<u16>); 10] = [
    ("GET /h HTTP/1.1\r\nHost: x\r\n\r\n", None),
    ("GET /h HTTP/1.0\r\n\r\n", None),
    ("GET http://other.example/h HTTP/1.1\r\nHost: x\r\n\r\n", None),
    ("GET /nowhere HTTP/1.1\r\nHost: x\r\n\r\n", Some(404)),
    ("DELETE /h HTTP/1.1\r\nHost: x\r\n\r\n", Some(405)),
    ("GET /post HTTP/1.1\r\nHost: x\r\n\r\n", Some(405)),
    ("OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n", Some(200)),
    ("CONNECT other.example:443 HTTP/1.1\r\nHost: x\r\n\r\n", Some(400)),
    ("GET /h HTTP/1.1\r\nHost: x\r\nAuthorization: Basic QTpC\r\n\r\n", Some(0)),
    ("OPTIONS * HTTP/1.1\r\nHost: x\r\nAuthorization: Basic QTpC\r\n\r\n", Some(0)),
];

fn parse_date(s: &str) -> Option<i64> {
    // IMF-fixdate, by hand
    let b = s.as_bytes();
    if b.len() != 29 || !s.ends_with(" GMT") || &s[3..5] != ", " {
        return None;
    }
    let n = |r: std::ops::Range<usize>| s.get(r).and_then(|t| t.parse::<i64>().ok());
    let mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"].iter().position(|m| *m == &s[8..11])? as i64 + 1;
    let (d, y, h, m, sec) = (n(5..7)?, n(12..16)?, n(17..19)?, n(20..22)?, n(23..25)?);
    let (yy, mm) = if mon <= 2 { (y - 1, mon + 9) } else { (y, mon - 3) };
    let era = yy / 400;
    let yoe = yy - era * 400;
    let doy = (153 * mm + 2) / 5 + d - 1;
    let days = era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][(days % 7) as usize];
    if wd != &s[..3] {
        return None;
    }
    Some(days * 86400 + h * 3600 + m * 60 + sec)
}

fn judge(sh: &mut Shard, out: &[u8], p: Plan, req: usize, name: &str, ty: &str, abort: u16, filtered: bool, label: &str) {
    let key = |k: &str| format!("{}:{}", label, k);
    let desc = || format!("request {:?} {:?}\nplan {:?} configured {:?} {:?} filter {}\nwire {:?}", REQS[req].0, LINE.with(|l| l.borrow().clone()), p, name, ty, filtered, esc(&out[..out.len().min(500)]));
    let r = match wire::parse_all(out, &[REQS[req].0.starts_with("HEAD")]) {
        Ok(mut v) => v.pop().unwrap(),
        Err(e) => return sh.violation(key("malformed"), format!("{}\n{}", e, desc())),
    };
    let handled = REQS[req].1.is_none();
    let mut server = Some(name.to_string());
    let mut kind = Some(ty.to_string());
    let mut old = false;
    let raw = handled && (p.fin == 6 || p.fin == 7);
    let mut step = |how: [usize; 3], by: &str, old: &mut bool| {
        match how[0] {
            1 => *old = true,
            2 => *old = false,
            _ => {}
        }
        match how[1] {
            1 => server = Some(format!("{}-server", by)),
            2 => server = None,
            _ => {}
        }
        match how[2] {
            1 => kind = Some(format!("application/x-{}", by)),
            2 => kind = None,
            _ => {}
        }
    };
    if handled {
        step(p.handler, "h", &mut old);
        if p.fin == 7 {
            step([0, 0, 1], "file", &mut old);
        }
    }
    if let (Some(f), true, false) = (p.filter, filtered, raw) {
        step(f, "f", &mut old);
    }
    if handled && p.fin == 7 && kind.as_deref() == Some("application/x-file") {
        kind = Some("application/octet-stream".into());
    }
    let status = match (REQS[req].1, p.fin) {
        (Some(0), _) => abort,
        (Some(s), _) => s,
        (None, 8) | (None, 9) => 404,
        (None, 10) | (None, 11) => 500,
        (None, 12) => 200,
        (None, 13) => 204,
        _ => {
            if p.early {
                202
            } else {
                200
            }
        }
    };
    if r.status != status {
        return sh.violation(key("status"), format!("{} instead of {}\n{}", r.status, status, desc()));
    }
    let all = |n: &str| r.all(n).iter().map(|s| s.to_string()).collect::<Vec<_>>();
    if all("server") != server.clone().into_iter().collect::<Vec<_>>() {
        return sh.violation(key("server"), format!("Server is {:?} instead of {:?}\n{}", all("server"), server, desc()));
    }
    if all("content-type") != kind.clone().into_iter().collect::<Vec<_>>() {
        return sh.violation(key("content-type"), format!("Content-Type is {:?} instead of {:?}\n{}", all("content-type"), kind, desc()));
    }
    let dates = all("date");
    let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64;
    let ok = dates.len() == 1
        && if old {
            dates[0] == OLD
        } else {
            parse_date(&dates[0]).map_or(false, |t| t <= now + 2 && t >= now - 60)
        };
    if !ok {
        return sh.violation(key("date"), format!("Date is {:?} at {}\n{}", dates, now, desc()));
    }
    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let want = format!("200 {:?} {:?} true", Some(name), Some(ty));
    if seen.len() != handled as usize || seen.iter().any(|s| *s != want) {
        sh.violation(key("handler-view"), format!("the handler saw {:?} instead of {:?}\n{}", seen, want, desc()));
    }
}

fn build(name: &str, ty: Mime, keep: usize, abort: Option<u16>, filtered: bool) -> ServerInstance<DefaultRouter<Option<H>>> {
    let mut cfg: Server<_> = srv::config(router());
    cfg.server = name.into();
    cfg.content_type = ty;
    cfg.keep_alive = match keep {
        0 => None,
        1 => Some(KeepAlive { timeout: Duration::from_secs(5), free_threads: 0 }),
        _ => Some(KeepAlive { timeout: Duration::from_secs(5), free_threads: 50 }),
    };
    cfg.context_filters.push(Box::new(CF(abort.map(StatusCode::from_u16))));
    if filtered {
        cfg.response_filters.push(Box::new(RF));
    }
    cfg.build()
}

fn run(sh: &mut Shard, inst: &ServerInstance<DefaultRouter<Option<H>>>, p: Plan, req: usize, name: &str, ty: &str, abort: u16, filtered: bool, label: &str) {
    if REQS[req].0.contains("HTTP/1.0") && (p.fin == 4 || p.fin == 5) {
        return; // chunks to a 1.0 client: a known finding of C11
    }
    PLAN.with(|q| *q.borrow_mut() = p);
    SEEN.with(|s| s.borrow_mut().clear());
    let text = LINE.with(|l| REQS[req].0.replacen("\r\n", &format!("\r\n{}", l.borrow()), 1));
    let (out, served) = srv::talk(inst, text.as_bytes());
    sh.add_states(1);
    sh.trans(1);
    sh.trace();
    match (&served.closed, p.fin, REQS[req].1) {
        (Closed::Panic(_), 11, None) => {}
        (Closed::Panic(m), _, _) => return sh.violation(format!("{}:panic", label), format!("{}: {:?} {:?}", m, p, REQS[req].0)),
        _ => {}
    }
    judge(sh, &out, p, req, name, ty, abort, filtered, label);
}

// ---- the request, as the handler sees it
struct Look;
impl Handler for Look {
    fn handle(&self, c: Context, r: Response) {
        let mut hs: Vec<(String, Vec<Vec<u8>>)> = c.headers.iter().map(|h| (h.name().to_lowercase(), c.headers.get_raw(h.name()).map(|v| v.to_vec()).unwrap_or_default())).collect();
        hs.sort();
        SEEN.with(|s| s.borrow_mut().push(format!("{:?} {} {:?} {:?} {}", c.method, c.address, c.http_version, hs, r.status().to_u16())));
    }
}

fn main() {
    let dir = std::env::temp_dir().join(format!("mc-c23-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join("f.odd"), b"content").unwrap();
    let file = dir.join("f.odd").to_str().unwrap().to_string();
    check_main(
        "C23",
        Level::ModelChecking,
        "every way of answering x every way a handler and a response filter keep, replace or remove each default header x configurations, against a model of the header set; every request head within bounds against what the handler sees of it",
        |ctx| {
            ctx.assume("a removed Date is replaced by the transport layer with the current one; raw and file responses bypass response filters");
            let tys = types();
            let file = &file;
            // every configuration, every way of answering, changes by the handler
            let insts: Vec<_> = (0..NAMES.len() * tys.len() * 3 * 2)
                .map(|i| {
                    let mut d = Digits(i);
                    let (n, t, k, f) = (d.take(NAMES.len()), d.take(tys.len()), d.take(3), d.take(2));
                    (NAMES[n], tys[t].1, f == 1, build(NAMES[n], tys[t].0.clone(), k, Some(403), f == 1))
                })
                .collect();
            ctx.par("answers", insts.len() * REQS.len() * FINS * 27, |i, sh| {
                let mut d = Digits(i);
                let (name, ty, filtered, ref inst) = insts[d.take(insts.len())];
                let req = d.take(REQS.len());
                let fin = d.take(FINS);
                let hc = d.take(27);
                if REQS[req].1.is_some() && (fin > 0 || hc > 0) {
                    return;
                }
                FILE.with(|f| *f.borrow_mut() = file.clone());
                run(sh, inst, Plan { fin, handler: digits3(hc), filter: None, early: false }, req, name, ty, 403, filtered, "answers");
            });
            // changes by handler and filter together
            let small: Vec<usize> = (0..insts.len()).filter(|&i| insts[i].2 && (ctx.thorough || i % 7 < 2)).collect();
            ctx.par("changes", small.len() * REQS.len() * FINS * 27 * 27 * 2, |i, sh| {
                let mut d = Digits(i);
                let (early, fin, req, hc, fc) = (d.take(2) == 1, d.take(FINS), d.take(REQS.len()), d.take(27), d.take(27));
                if REQS[req].1.is_some() && (fin > 0 || hc > 0 || early) {
                    return;
                }
                let (name, ty, filtered, ref inst) = insts[small[d.take(small.len())]];
                FILE.with(|f| *f.borrow_mut() = file.clone());
                run(sh, inst, Plan { fin, handler: digits3(hc), filter: Some(digits3(fc)), early }, req, name, ty, 403, filtered, "changes");
            });
            // every status that a context filter may abort with
            ctx.par("aborts", 800 * 2, |i, sh| {
                let (s, filtered) = (200 + (i / 2) as u16, i % 2 == 1);
                let inst = build("mc", tys[0].0.clone(), 0, Some(s), filtered);
                for req in [8, 9] {
                    run(sh, &inst, Plan::default(), req, "mc", "text/plain", s, filtered, "aborts");
                }
            });
            // sequences on one connection: the defaults come back after every change
            let inst = build("mc", tys[0].0.clone(), 1, Some(403), true);
            ctx.par("sequences", 27 * 27, |i, sh| {
                for (n, c) in [i % 27, 0, i / 27, 0].iter().enumerate() {
                    run(sh, &inst, Plan { fin: n + 1, handler: digits3(*c), filter: None, early: n % 2 == 0 }, 0, "mc", "text/plain", 403, true, "sequences");
                }
            });
            // the documented defaults of a new server
            ctx.seq("defaults", 1, |_, sh| {
                let inst = Server::new(H).build();
                PLAN.with(|q| *q.borrow_mut() = Plan { fin: 1, ..Plan::default() });
                SEEN.with(|s| s.borrow_mut().clear());
                let (out, _) = srv::talk(&inst, REQS[0].0.as_bytes());
                sh.add_states(1);
                sh.trace();
                judge(sh, &out, Plan { fin: 1, ..Plan::default() }, 0, "rustful", "text/html; charset=utf-8", 0, false, "defaults");
            });
            // what the handler sees
            let look = srv::instance(Look);
            let methods = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH", "PURGE", "get", "M-SEARCH"];
            let peers = ["203.0.113.7:4711", "127.0.0.1:1", "0.0.0.0:0", "255.255.255.255:65535", "[2001:db8::1]:443", "[::ffff:10.0.0.1]:80", "[fe80::1]:9"];
            let heads: [(&str, &[u8]); 14] = [
                ("Host", b"example.com:80"),
                ("X-A", b"1"),
                ("x-a", b"2"),
                ("X-Empty", b""),
                ("Accept", b"text/html;q=0.8, */*"),
                ("Cookie", b"a=b; c=\"d\""),
                ("X-Bytes", b"\xff\xfe"),
                ("X-Utf8", b"\xc3\xa9"),
                ("User-Agent", b"t"),
                ("Content-Type", b"bad type"),
                ("If-Modified-Since", b"yesterday"),
                ("Referer", b"/x"),
                ("X-Long", &[b'l'; 2000]),
                ("Date", b"Sun, 06 Nov 1994 08:49:37 GMT"),
            ];
            let depth = ctx.pick(3, 4);
            let n = strings_upto(heads.len(), depth);
            ctx.par("requests", n * methods.len() * 2 + n * peers.len(), |i, sh| {
                let (list, m, v, peer) = if i < n * methods.len() * 2 {
                    let mut d = Digits(i);
                    (string_at(heads.len(), d.take(n)), methods[d.take(methods.len())], d.take(2), peers[0])
                } else {
                    let mut d = Digits(i - n * methods.len() * 2);
                    (string_at(heads.len(), d.take(n)), "GET", 1, peers[d.take(peers.len())])
                };
                let mut req = format!("{} /x HTTP/1.{}\r\n", m, v).into_bytes();
                let mut want: Vec<(String, Vec<Vec<u8>>)> = vec![];
                for &k in &list {
                    req.extend_from_slice(heads[k].0.as_bytes());
                    req.extend_from_slice(b": ");
                    req.extend_from_slice(heads[k].1);
                    req.extend_from_slice(b"\r\n");
                    let name = heads[k].0.to_lowercase();
                    match want.iter_mut().find(|w| w.0 == name) {
                        Some(w) => w.1.push(heads[k].1.to_vec()),
                        None => want.push((name, vec![heads[k].1.to_vec()])),
                    }
                }
                want.sort();
                req.extend_from_slice(b"\r\n");
                wire::PEER.with(|p| p.set(Some(peer.parse().unwrap())));
                SEEN.with(|s| s.borrow_mut().clear());
                srv::talk(&look, &req);
                wire::PEER.with(|p| p.set(None));
                let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
                let method: Method = m.parse().unwrap();
                let version = if v == 1 { HttpVersion::Http11 } else { HttpVersion::Http10 };
                let w = format!("{:?} {} {:?} {:?} 200", method, peer, version, want);
                sh.add_states(1);
                sh.trans(1);
                sh.trace();
                if seen != [w.clone()] {
                    sh.violation("requests", format!("{:?}\nthe handler saw {:?}\ninstead of      {:?}", esc(&req[..req.len().min(300)]), seen, w));
                }
            });
            // sizes: configured names, numbers of headers, of values of one header, and their lengths
            let lens = ladder(ctx.pick(3000, 20000));
            ctx.par("names", lens.len() * 3, |i, sh| {
                let mut d = Digits(i);
                let (n, f) = (lens[d.take(lens.len())], d.take(3));
                let name = "n".repeat(n);
                let kind = format!("t{}/s{}", "t".repeat(n), "s".repeat(n));
                let mime = Mime(TopLevel::Ext(format!("t{}", "t".repeat(n))), SubLevel::Ext(format!("s{}", "s".repeat(n))), vec![]);
                let inst = build(&name, mime, f, Some(403), f == 1);
                FILE.with(|q| *q.borrow_mut() = file.clone());
                for (req, fin) in [(0, 1), (0, 0), (0, 4), (0, 6), (1, 1), (3, 0), (6, 0), (7, 0), (8, 0)] {
                    run(sh, &inst, Plan { fin, ..Plan::default() }, req, &name, &kind, 403, f == 1, "names");
                }
            });
            // configured names and types of what the code mentions
            let values = dict::values();
            let words: Vec<String> = dict::names().into_iter().map(|n| n.to_lowercase()).filter(|n| n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-') && n.starts_with(|c: char| c.is_ascii_alphabetic())).collect();
            ctx.par("words", values.len() + words.len() * 3, |i, sh| {
                let (name, kind, mime) = if i < values.len() {
                    (values[i].clone(), "text/plain".to_string(), tys[0].0.clone())
                } else {
                    let (w, k) = (&words[(i - values.len()) / 3], (i - values.len()) % 3);
                    let (t, s, ps) = [(&w[..], "odd", None), ("odd", &w[..], None), ("odd", "thing", Some(w))][k];
                    let params = ps.map(|p| (Attr::Ext("p".into()), Value::Ext(p.clone()))).into_iter().collect();
                    let shown = format!("{}/{}{}", t, s, ps.map(|p| format!("; p={}", p)).unwrap_or_default());
                    ("mc".to_string(), shown, Mime(TopLevel::Ext(t.into()), SubLevel::Ext(s.into()), params))
                };
                FILE.with(|q| *q.borrow_mut() = file.clone());
                for filtered in [false, true] {
                    let inst = build(&name, mime.clone(), i % 3, Some(403), filtered);
                    for (req, fin) in [(0, 0), (0, 1), (0, 2), (0, 4), (0, 6), (0, 8), (0, 9), (0, 10), (0, 11), (1, 1), (3, 0), (4, 0), (6, 0), (7, 0), (8, 0), (9, 0)] {
                        run(sh, &inst, Plan { fin, ..Plan::default() }, req, &name, &kind, 403, filtered, "words");
                    }
                }
            });
            // every type there is a name for, with parameters
            let tops = {
                use rustful::mime::TopLevel::*;
                [Star, Text, Image, Audio, Video, Application, Multipart, Message, Model, Ext("x-odd".into())]
            };
            let subs = {
                use rustful::mime::SubLevel::*;
                [Star, Plain, Html, Xml, Javascript, Css, EventStream, Json, WwwFormUrlEncoded, Msgpack, OctetStream, FormData, Png, Gif, Bmp, Jpeg, Mpeg, Mp4, Ogg, Ext("x-odd".into())]
            };
            let params = [
                (vec![], ""),
                (vec![(Attr::Charset, Value::Utf8)], "; charset=utf-8"),
                (vec![(Attr::Charset, Value::Ext("latin1".into()))], "; charset=latin1"),
                (vec![(Attr::Q, Value::Ext("0".into()))], "; q=0"),
                (vec![(Attr::Boundary, Value::Ext("b".into())), (Attr::Charset, Value::Utf8), (Attr::Ext("a".into()), Value::Ext("1".into()))], "; boundary=b; charset=utf-8; a=1"),
            ];
            ctx.par("types", tops.len() * subs.len() * params.len(), |i, sh| {
                let mut d = Digits(i);
                let (top, sub, (ps, shown)) = (&tops[d.take(tops.len())], &subs[d.take(subs.len())], &params[d.take(params.len())]);
                let kind = format!("{}/{}{}", top.as_str(), sub.as_str(), shown);
                FILE.with(|q| *q.borrow_mut() = file.clone());
                let filtered = i % 2 == 1;
                let inst = build("mc", Mime(top.clone(), sub.clone(), ps.clone()), i % 3, Some(403), filtered);
                for (req, fin) in [(0, 0), (0, 1), (0, 2), (0, 4), (0, 5), (0, 6), (0, 8), (0, 9), (0, 10), (0, 12), (0, 13), (1, 1), (3, 0), (4, 0), (6, 0), (7, 0), (8, 0), (9, 0)] {
                    run(sh, &inst, Plan { fin, ..Plan::default() }, req, "mc", &kind, 403, filtered, "types");
                }
            });
            // whatever else is asked
            let lines = dict::heads();
            let other = dict::methods();
            let inst = build("mc", tys[0].0.clone(), 1, Some(403), true);
            ctx.par("lines", lines.len() * FINS, |i, sh| {
                let (line, fin) = (&lines[i / FINS], i % FINS);
                FILE.with(|q| *q.borrow_mut() = file.clone());
                for req in if fin == 0 { &[0, 3, 4, 6][..] } else { &[0] } {
                    let auth = line.to_ascii_lowercase().starts_with("authorization:");
                    if !auth {
                        LINE.with(|l| *l.borrow_mut() = line.clone());
                        for h in [[0; 3], [1, 1, 2], [2, 2, 1]] {
                            run(sh, &inst, Plan { fin, handler: h, filter: None, early: false }, *req, "mc", "text/plain", 403, true, "lines");
                        }
                        LINE.with(|l| l.borrow_mut().clear());
                    }
                }
            });
            ctx.par("seen-lines", lines.len() * methods.len() + other.len(), |i, sh| {
                let (line, m) = if i < lines.len() * methods.len() { (&lines[i / methods.len()][..], methods[i % methods.len()]) } else { ("", &other[i - lines.len() * methods.len()][..]) };
                let mut want = vec![("x-a".to_string(), vec![b"0".to_vec()])];
                if let Some((k, v)) = line.trim_end().split_once(": ") {
                    match want.iter_mut().find(|w| w.0 == k.to_lowercase()) {
                        Some(w) => w.1.push(v.as_bytes().to_vec()),
                        None => want.push((k.to_lowercase(), vec![v.as_bytes().to_vec()])),
                    }
                }
                want.sort();
                wire::PEER.with(|p| p.set(Some(peers[i % peers.len()].parse().unwrap())));
                SEEN.with(|s| s.borrow_mut().clear());
                let req = format!("{} /x HTTP/1.1\r\nX-A: 0\r\n{}\r\n", m, line);
                srv::talk(&look, req.as_bytes());
                wire::PEER.with(|p| p.set(None));
                let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
                let method: Method = m.parse().unwrap();
                let w = format!("{:?} {} {:?} {:?} 200", method, peers[i % peers.len()], HttpVersion::Http11, want);
                sh.add_states(1);
                sh.trans(1);
                sh.trace();
                if seen != [w.clone()] {
                    sh.violation("requests", format!("{:?}\nthe handler saw {:?}\ninstead of      {:?}", req, seen, w));
                }
            });
            // more headers than the HTTP parser takes never reach the server
            let lens: Vec<usize> = ladder(ctx.pick(2000, 20000)).into_iter().collect();
            ctx.par("heads", lens.len() * 4, |i, sh| {
                let mut d = Digits(i);
                let (n, shape) = (lens[d.take(lens.len())], d.take(4));
                let list: Vec<(String, String)> = match shape {
                    0 => (0..n).map(|j| (format!("X-N{}", j), format!("v{}", j))).collect(),
                    1 => (0..n).map(|j| ("X-Same".to_string(), format!("v{}", j))).collect(),
                    2 => vec![("X-Long".into(), "v".repeat(n)), ("X-After".into(), "a".into())],
                    _ => vec![(format!("X-{}", "n".repeat(n)), "v".into()), ("X-After".into(), "a".into())],
                };
                if list.len() > 90 {
                    return;
                }
                let mut req = b"GET /x HTTP/1.1\r\n".to_vec();
                let mut want: Vec<(String, Vec<Vec<u8>>)> = vec![];
                for (k, v) in &list {
                    req.extend_from_slice(format!("{}: {}\r\n", k, v).as_bytes());
                    let (k, v) = (k.to_lowercase(), v.clone().into_bytes());
                    match want.iter_mut().find(|w| w.0 == k) {
                        Some(w) => w.1.push(v),
                        None => want.push((k, vec![v])),
                    }
                }
                want.sort();
                req.extend_from_slice(b"\r\n");
                wire::PEER.with(|p| p.set(Some(peers[0].parse().unwrap())));
                SEEN.with(|s| s.borrow_mut().clear());
                srv::talk(&look, &req);
                wire::PEER.with(|p| p.set(None));
                let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
                let w = format!("{:?} {} {:?} {:?} 200", Method::Get, peers[0], HttpVersion::Http11, want);
                sh.add_states(1);
                sh.trans(1);
                sh.trace();
                if seen != [w.clone()] {
                    sh.violation("heads", format!("{} headers, shape {}, size {}\nthe handler saw {} bytes {:.300?}\ninstead of {:.300}", list.len(), shape, n, seen.len(), seen.get(0), w));
                }
            });
            let _ = fs::remove_dir_all(std::path::Path::new(file).parent().unwrap());
            let _ = HttpDate;
        },
    )
}
