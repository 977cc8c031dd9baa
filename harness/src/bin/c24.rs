//! C24: a running server is the configured server.
use mc::gen::*;
use mc::rich::{self, undated, PANICS, REQS};
use mc::wire::{self, MemIn};
use mc::*;
use rustful::net::{HttpStream, NetworkStream, SslServer};
use rustful::server::{Host, KeepAlive, Listening};
use rustful::{Context, Handler, Response, Server};
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::{self, Read, Write};
use std::net::{Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6, TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------------------- hosts

const OCTETS: [u8; 5] = [0, 1, 127, 128, 255];
const GROUPS: [u16; 4] = [0, 1, 0xfe80, 0xffff];
const PORTS: [u16; 6] = [0, 1, 80, 255, 256, 65535];

fn host_is(sh: &mut Shard, h: Host, want: SocketAddr, how: &str) {
    sh.add_states(1);
    let got = SocketAddr::from(h);
    if got != want {
        sh.violation(format!("host:{}", how), format!("{} gives {} instead of {}", how, got, want));
    }
    let same = Host::from(want);
    if h != same || h64(&h) != h64(&same) {
        sh.violation(format!("host-equality:{}", how), format!("{} differs from the host of {}", how, want));
    }
    let other = Host::from(SocketAddr::new(want.ip(), want.port() ^ 1));
    if h == other {
        sh.violation("host-equality:port", format!("{} equals {:?}", want, other));
    }
    for &p in &PORTS {
        let mut m = h;
        m.port(p);
        let mut w = want;
        w.set_port(p);
        if SocketAddr::from(m) != w {
            sh.violation("host:port", format!("changing the port of {} to {} gives {:?}", want, p, m));
        }
    }
}

// ------------------------------------------------------------------------------- sockets

fn start<R: rustful::handler::HandleRequest + 'static>(s: Server<R>) -> Result<SocketAddr, String> {
    match s.run() {
        Ok(l) => {
            let a = l.socket;
            keep(l);
            Ok(a)
        }
        Err(e) => Err(e.to_string()),
    }
}
/// With or without a layer that could encrypt.
fn start_either<R: rustful::handler::HandleRequest + 'static>(s: Server<R>, https: bool) -> Result<SocketAddr, String> {
    if !https {
        return start(s);
    }
    match s.run_https(Xor(0)) {
        Ok(l) => {
            let a = l.socket;
            keep(l);
            Ok(a)
        }
        Err(e) => Err(e.to_string()),
    }
}
/// Servers can't be stopped, and waiting for them takes forever.
fn keep(l: Listening) {
    std::mem::forget(l)
}
fn connect(a: SocketAddr) -> io::Result<TcpStream> {
    let mut e = None;
    for _ in 0..50 {
        match TcpStream::connect_timeout(&a, Duration::from_secs(5)) {
            Ok(s) => {
                s.set_nodelay(true)?;
                s.set_read_timeout(Some(Duration::from_secs(20)))?;
                return Ok(s);
            }
            Err(x) => e = Some(x),
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    Err(e.unwrap())
}
fn read_all(s: &mut TcpStream) -> (Vec<u8>, Option<io::Error>) {
    let mut b = vec![];
    let mut buf = [0; 4096];
    loop {
        match s.read(&mut buf) {
            Ok(0) => return (b, None),
            Ok(n) => b.extend_from_slice(&buf[..n]),
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return (b, Some(e)),
        }
    }
}
/// Read one response with a length.
fn read_one(s: &mut TcpStream) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    let mut c = [0];
    while !b.ends_with(b"\r\n\r\n") {
        match s.read(&mut c) {
            Ok(0) => return Err(format!("closed after {:?}", esc(&b))),
            Ok(_) => b.push(c[0]),
            Err(e) => return Err(format!("{} after {:?}", e, esc(&b))),
        }
    }
    let head = String::from_utf8_lossy(&b).to_lowercase();
    let n: usize = head.lines().find_map(|l| l.strip_prefix("content-length: ").and_then(|v| v.trim().parse().ok())).ok_or_else(|| format!("no length in {:?}", head))?;
    let mut body = vec![0; n];
    s.read_exact(&mut body).map_err(|e| e.to_string())?;
    b.extend_from_slice(&body);
    Ok(b)
}

struct Hello;
impl Handler for Hello {
    fn handle(&self, c: Context, r: Response) {
        r.send(format!("hello {}", c.address))
    }
}
fn hello(a: SocketAddr) -> Result<(), String> {
    let mut s = connect(a).map_err(|e| format!("can't connect to {}: {}", a, e))?;
    s.write_all(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").map_err(|e| e.to_string())?;
    let r = read_one(&mut s)?;
    let me = s.local_addr().unwrap();
    if !r.ends_with(format!("\r\n\r\nhello {}", me).as_bytes()) {
        return Err(format!("{:?} to {}", esc(&r), me));
    }
    Ok(())
}
struct Echo;
impl Handler for Echo {
    fn handle(&self, mut c: Context, r: Response) {
        let mut b = vec![];
        match c.body.read_to_end(&mut b) {
            Ok(_) => r.send(b),
            Err(e) => r.send(format!("{:?}", e)),
        }
    }
}
fn free_port(ip: &str) -> u16 {
    TcpListener::bind((ip, 0)).unwrap().local_addr().unwrap().port()
}

// ------------------------------------------------------------------------------- TLS stand-in

#[derive(Clone)]
struct Xor(u8);
impl SslServer for Xor {
    type Stream = XorStream;
    fn wrap_server(&self, s: HttpStream) -> hyper::Result<XorStream> {
        Ok(XorStream(s, self.0))
    }
}
#[derive(Clone)]
struct XorStream(HttpStream, u8);
impl Read for XorStream {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.0.read(b)?;
        b[..n].iter_mut().for_each(|c| *c ^= self.1);
        Ok(n)
    }
}
impl Write for XorStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let v: Vec<u8> = b.iter().map(|c| c ^ self.1).collect();
        self.0.write(&v)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl NetworkStream for XorStream {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        self.0.peer_addr()
    }
    fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.0.set_read_timeout(d)
    }
    fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.0.set_write_timeout(d)
    }
    fn close(&mut self, how: Shutdown) -> io::Result<()> {
        NetworkStream::close(&mut self.0, how)
    }
}

// ------------------------------------------------------------------------------- gates

/// A handler that stays inside until it's let out.
#[derive(Default)]
struct Gate {
    state: Mutex<(Vec<usize>, HashSet<usize>)>, // inside (in order of arrival), let out
    change: Condvar,
}
struct Wait(Arc<Gate>);
impl Handler for Wait {
    fn handle(&self, c: Context, r: Response) {
        let id: usize = c.query.get("id").and_then(|s| s.parse().ok()).unwrap_or(999);
        let mut g = self.0.state.lock().unwrap();
        g.0.push(id);
        self.0.change.notify_all();
        while !g.1.contains(&id) {
            g = self.0.change.wait(g).unwrap();
        }
        drop(g);
        r.send(format!("{}", id))
    }
}
impl Gate {
    /// Wait until `n` have come inside.
    fn inside(&self, n: usize, secs: u64) -> usize {
        let t0 = Instant::now();
        let mut g = self.state.lock().unwrap();
        while g.0.len() < n && t0.elapsed() < Duration::from_secs(secs) {
            g = self.change.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
        }
        g.0.len()
    }
    fn let_out(&self, id: usize) {
        self.state.lock().unwrap().1.insert(id);
        self.change.notify_all();
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

#[derive(Default)]
struct Plain;
impl Handler for Plain {
    fn handle(&self, _: Context, r: Response) {
        r.send("plain")
    }
}

fn main() {
    let dir = std::env::temp_dir().join(format!("mc-c24-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join("f.html"), b"<p>content of the file</p>").unwrap();
    rich::FILE.set(dir.join("f.html").to_str().unwrap().to_string()).unwrap();
    check_main(
        "C24",
        Level::ModelChecking,
        "every way of giving a host over bounded addresses and all ports; servers on loopback sockets: every request sequence up to a length and every place to split it against the in-process pipeline, keep-alive histories, thread occupation orders",
        |ctx| {
            ctx.assume("the transport layer (hyper) and the loopback network; a connection may be closed when it has been idle for the timeout, less 20 ms, and has to be closed within 20 s");
            ctx.hang_limit(120_000);
            // ---- hosts
            ctx.par("ports", 65536, |i, sh| {
                let p = i as u16;
                let any = SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(0, 0, 0, 0), p));
                host_is(sh, Host::any_v4(p), any, "any_v4");
                host_is(sh, p.into(), any, "u16");
                host_is(sh, (Ipv4Addr::new(10, 0, 0, 7), p).into(), SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 7), p)), "pair");
                let v6 = SocketAddrV6::new(Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 1), p, 3, 4);
                host_is(sh, v6.into(), SocketAddr::V6(v6), "v6");
                host_is(sh, format!("10.0.0.7:{}", p).parse().unwrap(), format!("10.0.0.7:{}", p).parse().unwrap(), "text");
                sh.trace();
            });
            ctx.par("addresses", 625 * 6 + 256 * 6, |i, sh| {
                let mut d = Digits(i);
                let p = PORTS[d.take(6)];
                let j = d.0;
                if j < 625 {
                    let mut d = Digits(j);
                    let o: Vec<u8> = (0..4).map(|_| OCTETS[d.take(5)]).collect();
                    let ip = Ipv4Addr::new(o[0], o[1], o[2], o[3]);
                    let a = SocketAddrV4::new(ip, p);
                    host_is(sh, a.into(), SocketAddr::V4(a), "v4");
                    host_is(sh, SocketAddr::V4(a).into(), SocketAddr::V4(a), "address");
                    host_is(sh, (ip, p).into(), SocketAddr::V4(a), "pair");
                    match a.to_string().parse::<Host>() {
                        Ok(h) => host_is(sh, h, SocketAddr::V4(a), "text"),
                        Err(_) => sh.violation("host:text", format!("{} isn't accepted", a)),
                    }
                } else {
                    let mut d = Digits(j - 625);
                    let g: Vec<u16> = (0..4).map(|_| GROUPS[d.take(4)]).collect();
                    let ip = Ipv6Addr::new(g[0], g[1], 0, 0, 0, 0, g[2], g[3]);
                    for (flow, scope) in [(0, 0), (1, 0), (0, 7), (u32::MAX, u32::MAX)] {
                        let a = SocketAddrV6::new(ip, p, flow, scope);
                        host_is(sh, a.into(), SocketAddr::V6(a), "v6");
                        host_is(sh, SocketAddr::V6(a).into(), SocketAddr::V6(a), "address");
                    }
                    let a = SocketAddrV6::new(ip, p, 0, 0);
                    match a.to_string().parse::<Host>() {
                        Ok(h) => host_is(sh, h, SocketAddr::V6(a), "text"),
                        Err(_) => sh.violation("host:text", format!("{} isn't accepted", a)),
                    }
                }
                sh.trace();
            });
            // whatever text: a host if and only if it is a socket address
            let toks = ["1", "0", ".", ":", "[", "]", "256", "::", "127.0.0.1", "8080", " ", "a", "%1", "localhost", "/", "-"];
            let len = ctx.pick(4, 5);
            ctx.par("texts", strings_upto(toks.len(), len), |i, sh| {
                let t: String = string_at(toks.len(), i).into_iter().map(|k| toks[k]).collect();
                let a = t.parse::<SocketAddr>();
                let h = t.parse::<Host>();
                sh.add_states(1);
                sh.trace();
                match (a, h) {
                    (Ok(a), Ok(h)) => {
                        sh.note("addresses", 1);
                        if SocketAddr::from(h) != a {
                            sh.violation("text:differs", format!("{:?} is {:?}", t, h));
                        }
                    }
                    (Err(_), Err(_)) => {}
                    (a, h) => sh.violation("text:acceptance", format!("{:?}: {:?} but {:?}", t, a, h)),
                }
            });
            // ---- what isn't configured
            ctx.seq("defaults", 2, |i, sh| {
                let s: Server<Plain> = if i == 0 { Server::new(Plain) } else { Server::default() };
                let mut bad = |k: &str, t: String| sh.violation(format!("defaults:{}", k), t);
                let any = SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(0, 0, 0, 0), 80));
                if SocketAddr::from(s.host) != any {
                    bad("host", format!("{:?}", s.host));
                }
                if s.threads.is_some() || s.keep_alive.is_some() {
                    bad("threads", format!("{:?} {}", s.threads, s.keep_alive.is_some()));
                }
                if s.server != "rustful" || s.content_type.to_string() != "text/html; charset=utf-8" {
                    bad("headers", format!("{:?} {}", s.server, s.content_type));
                }
                if !s.context_filters.is_empty() || !s.response_filters.is_empty() || s.global.get::<u32>().is_some() {
                    bad("filters", "there are filters or global values".into());
                }
                let (out, _) = mc::srv::talk(&s.build(), b"GET / HTTP/1.1\r\nHost: x\r\n\r\n");
                let t = String::from_utf8_lossy(&out).into_owned();
                if !(t.starts_with("HTTP/1.1 200 OK\r\n") && t.contains("\r\nServer: rustful\r\n") && t.contains("\r\nContent-Type: text/html; charset=utf-8\r\n") && t.ends_with("\r\n\r\nplain")) {
                    bad("response", t);
                }
                sh.add_states(1);
                sh.trace();
            });
            // ---- listening
            let v6 = TcpListener::bind("[::1]:0").is_ok();
            let mut forms: Vec<(&str, bool)> = vec![
                ("pair", true), ("pair", false), ("v4", true), ("v4", false), ("address", true), ("text", true), ("any", true), ("any", false), ("u16", true), ("second", true), ("second", false), ("ported", true),
            ];
            if v6 {
                forms.extend([("v6", true), ("v6", false), ("v6text", true)]);
            }
            ctx.seq("listen", forms.len() * 2, |i, sh| {
                let (form, fixed) = forms[i / 2];
                let ip = if form.starts_with("v6") { "::1" } else if form == "second" { "127.0.0.2" } else { "127.0.0.1" };
                let mut last = String::new();
                for _ in 0..5 {
                    let port = if fixed { free_port(ip) } else { 0 };
                    let host: Host = match form {
                        "pair" => (Ipv4Addr::new(127, 0, 0, 1), port).into(),
                        "v4" => SocketAddrV4::new(Ipv4Addr::new(127, 0, 0, 1), port).into(),
                        "second" => SocketAddrV4::new(Ipv4Addr::new(127, 0, 0, 2), port).into(),
                        "address" => SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(127, 0, 0, 1), port)).into(),
                        "text" => format!("127.0.0.1:{}", port).parse().unwrap(),
                        "any" => Host::any_v4(port),
                        "u16" => port.into(),
                        "ported" => {
                            let mut h: Host = (Ipv4Addr::new(127, 0, 0, 1), 1).into();
                            h.port(port);
                            h
                        }
                        "v6" => SocketAddrV6::new(Ipv6Addr::LOCALHOST, port, 0, 0).into(),
                        _ => format!("[::1]:{}", port).parse().unwrap(),
                    };
                    let want: SocketAddr = host.into();
                    let s = Server { host, threads: Some(1), ..Server::new(Hello) };
                    let r = if i % 2 == 0 {
                        start(s)
                    } else {
                        s.build().run().map(|l| {
                            let a = l.socket;
                            keep(l);
                            a
                        }).map_err(|e| e.to_string())
                    };
                    match r {
                        Err(e) => last = format!("can't start on {}: {}", want, e),
                        Ok(a) => {
                            last.clear();
                            sh.add_states(1);
                            sh.trans(1);
                            sh.trace();
                            if a.ip() != want.ip() || (fixed && a.port() != want.port()) {
                                sh.violation("listen:address", format!("{}: listens on {} instead of {}", form, a, want));
                            }
                            let to = if a.ip().is_unspecified() { SocketAddr::new("127.0.0.1".parse().unwrap(), a.port()) } else { a };
                            if let Err(e) = hello(to) {
                                sh.violation("listen:answer", format!("{} on {}: {}", form, a, e));
                            }
                            if form == "pair" || form == "second" || form == "v4" {
                                // and nowhere else
                                let other = if form == "second" { "127.0.0.1" } else { "127.0.0.2" };
                                if TcpStream::connect_timeout(&SocketAddr::new(other.parse().unwrap(), a.port()), Duration::from_secs(2)).is_ok() && fixed {
                                    // somebody else's port, or ours?
                                    if hello(SocketAddr::new(other.parse().unwrap(), a.port())).is_ok() {
                                        sh.violation("listen:elsewhere", format!("{} also answers on {}", a, other));
                                    }
                                }
                            }
                            // a second server on the same port is refused, not a panic
                            match catch(|| Server { host: a.into(), threads: Some(1), ..Server::new(Hello) }.run().map(keep).is_ok()) {
                                Ok(false) => {}
                                other => sh.violation("listen:twice", format!("starting again on {}: {:?}", a, other)),
                            }
                            break;
                        }
                    }
                }
                if !last.is_empty() {
                    sh.violation("listen:start", last);
                }
            });
            // ---- the same results as in process
            let n = REQS.len();
            let ka = || Some(KeepAlive { timeout: Duration::from_secs(20), free_threads: 0 });
            let mut addrs = vec![];
            for keep_alive in [ka(), None] {
                let mut s = rich::config(true);
                s.host = (Ipv4Addr::new(127, 0, 0, 1), 0).into();
                s.threads = Some(32);
                s.keep_alive = keep_alive;
                addrs.push(start(s));
            }
            let xor = {
                let mut s = rich::config(true);
                s.host = (Ipv4Addr::new(127, 0, 0, 1), 0).into();
                s.threads = Some(32);
                s.keep_alive = ka();
                s.run_https(Xor(0x5a)).map(|l| {
                    let a = l.socket;
                    keep(l);
                    a
                }).map_err(|e| e.to_string())
            };
            addrs.push(xor);
            let inst = rich::build(true);
            let run = |sh: &mut Shard, which: usize, reqs: &[usize], extra: &str, cut: Option<usize>| {
                let addr = match addrs[which] {
                    Ok(a) => a,
                    Err(ref e) => return sh.violation("requests:start", e.clone()),
                };
                let mut data = vec![];
                for &q in reqs {
                    data.extend_from_slice(REQS[q].as_bytes());
                }
                data.extend_from_slice(extra.as_bytes());
                let cut = cut.filter(|&c| c < data.len());
                sh.tick();
                let r = (|| -> io::Result<(Vec<u8>, SocketAddr, Option<io::Error>)> {
                    let mut s = connect(addr)?;
                    let me = s.local_addr()?;
                    let x = |d: &[u8]| d.iter().map(|b| if which == 2 { b ^ 0x5a } else { *b }).collect::<Vec<u8>>();
                    match cut {
                        Some(c) => {
                            s.write_all(&x(&data[..c]))?;
                            std::thread::sleep(Duration::from_millis(2));
                            let _ = s.write_all(&x(&data[c..]));
                        }
                        None => s.write_all(&x(&data))?,
                    }
                    let _ = s.shutdown(Shutdown::Write);
                    let (b, e) = read_all(&mut s);
                    Ok((x(&b), me, e))
                })();
                let (got, me, err) = match r {
                    Ok(x) => x,
                    Err(e) => return sh.violation("requests:io", format!("{} at {:?}", e, reqs)),
                };
                wire::PEER.with(|p| p.set(Some(me)));
                let (want, _) = srv::talk_with(&inst, MemIn::new(data.clone()), which != 1);
                wire::PEER.with(|p| p.set(None));
                sh.add_states(1);
                sh.trans(reqs.len() as u64);
                sh.trace();
                let (g, w) = (undated(&got), undated(&want));
                if g != w {
                    // input left over when the connection was closed resets it, and takes output along
                    if err.as_ref().map_or(false, |e| e.kind() == io::ErrorKind::ConnectionReset) && w.starts_with(&g) && (cut.is_some() || reqs.len() > 1) {
                        sh.note("reset by the network", 1);
                        return;
                    }
                    sh.violation(
                        format!("requests:{}", if which == 2 { "https" } else { "differs" }),
                        format!("server {} requests {:?} cut {:?} ({:?})\ngot        {:?}\nin process {:?}", which, reqs, cut, err, esc(&g), esc(&w)),
                    );
                }
            };
            for which in 0..3 {
                let len = if which == 0 { ctx.pick(2, 3) } else { ctx.pick(1, 2) };
                ctx.par(&format!("requests-{}", which), strings_upto(n, len), |i, sh| {
                    let reqs = string_at(n, i);
                    if reqs.iter().rev().skip(1).any(|q| PANICS.contains(q)) {
                        return;
                    }
                    run(sh, which, &reqs, "", None);
                });
            }
            // bad heads, unfinished requests and expectations
            let tails = [
                "GARBAGE\r\n\r\n", "GET / HTTP/1.1\r\nHost", "GET /a HTTP/1.1\r\n", "\r\n", "POST /form HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\nk=v", "POST /form HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nk=",
                "POST /form HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 3\r\n\r\nk=v", "GET /a HTTP/1.0\r\n\r\n", "GET /a HTTP/1.0\r\nConnection: keep-alive\r\n\r\n", "GET /a HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\nGET /a HTTP/1.1\r\nHost: x\r\n\r\n",
                "GET /a HTTP/2.0\r\n\r\n",
            ];
            ctx.par("tails", tails.len() * (n + 1) * 2, |i, sh| {
                let mut d = Digits(i);
                let (t, q, which) = (d.take(tails.len()), d.take(n + 1), d.take(2));
                if PANICS.contains(&q) || (which == 1 && q < n) {
                    return;
                }
                let reqs = if q < n { vec![q] } else { vec![] };
                run(sh, which, &reqs, tails[t], None);
            });
            // every place to split
            let step = ctx.pick(7, 1);
            ctx.par("splits", n * 80, |i, sh| {
                let (q, c) = (i % n, i / n * step + 1);
                if c >= REQS[q].len() {
                    return;
                }
                run(sh, 0, &[q], "", Some(c));
                run(sh, 2, &[q], "", Some(c));
            });
            // ---- bodies of many sizes, both ways
            let mut echoes = vec![];
            for (k, https) in [(true, false), (false, false), (true, true)] {
                let mut s = Server { host: (Ipv4Addr::new(127, 0, 0, 1), 0).into(), threads: Some(12), ..Server::new(Echo) };
                s.keep_alive = if k { ka() } else { None };
                echoes.push(start_either(s, https));
            }
            let lens = ladder(ctx.pick(300_000, 5_000_000));
            ctx.par("volumes", lens.len() * 3, |i, sh| {
                let (n, which) = (lens[i / 3], i % 3);
                let addr = match echoes[which] {
                    Ok(a) => a,
                    Err(ref e) => return sh.violation("volumes:start", e.clone()),
                };
                let body: Vec<u8> = (0..n).map(|j| (j % 251) as u8).collect();
                sh.add_states(1);
                sh.trace();
                sh.tick();
                let rounds = if which == 1 { 1 } else { 2 };
                let r = (|| -> Result<(), String> {
                    let mut c = connect(addr).map_err(|e| e.to_string())?;
                    for _ in 0..rounds {
                        c.write_all(format!("POST / HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", n).as_bytes()).map_err(|e| e.to_string())?;
                        c.write_all(&body).map_err(|e| e.to_string())?;
                        let b = read_one(&mut c)?;
                        sh.trans(1);
                        let at = b.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
                        if b[at..] != body[..] {
                            return Err(format!("{} bytes came back", b.len() - at));
                        }
                    }
                    Ok(())
                })();
                if let Err(e) = r {
                    sh.violation("volumes", format!("{} bytes to server {}: {}", n, which, e));
                }
            });
            // ---- many requests on one connection, and many connections one after the other
            let many = ctx.pick(1500, 20_000);
            ctx.par("series", 4, |i, sh| {
                let s = Server { host: (Ipv4Addr::new(127, 0, 0, 1), 0).into(), threads: Some(2), keep_alive: if i < 2 { ka() } else { None }, ..Server::new(Hello) };
                let addr = match start_either(s, i % 2 == 1) {
                    Ok(a) => a,
                    Err(e) => return sh.violation("series:start", e),
                };
                let r = (|| -> Result<(), String> {
                    if i < 2 {
                        let mut c = connect(addr).map_err(|e| e.to_string())?;
                        for k in 0..many {
                            sh.tick();
                            c.write_all(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").map_err(|e| e.to_string())?;
                            let b = read_one(&mut c).map_err(|e| format!("request {}: {}", k + 1, e))?;
                            if !b.ends_with(format!("hello {}", c.local_addr().unwrap()).as_bytes()) {
                                return Err(format!("request {}: {:?}", k + 1, esc(&b)));
                            }
                            sh.add_states(1);
                            sh.trans(1);
                        }
                    }
                    for k in 0..many {
                        sh.tick();
                        hello(addr).map_err(|e| format!("connection {}: {}", k + 1, e))?;
                        sh.add_states(1);
                        sh.trans(1);
                    }
                    Ok(())
                })();
                sh.trace();
                if let Err(e) = r {
                    sh.violation("series", format!("server {}: {}", i, e));
                }
            });
            // ---- keep-alive
            let slow = ctx.pick(1, 2);
            ctx.par("keep-alive", 16 * slow, |i, sh| {
                let https = i % 16 >= 8;
                let policy = i % 8;
                // a machine that is too busy to keep up isn't a violation: try again with more time
                for attempt in 0..3 {
                // whole seconds, and not
                let timeout = Duration::from_millis(match (i % 16 / 8 + i % 2 + i / 16) % 3 {
                    0 => 2000,
                    1 => 2900,
                    _ => 1400,
                } + if i < 16 { 0 } else { 2000 } + attempt * 2000);
                let mut s = Server { host: (Ipv4Addr::new(127, 0, 0, 1), 0).into(), threads: Some(3), ..Server::new(Hello) };
                // a policy, a policy that is short of threads, none at all
                if policy < 6 {
                    s.keep_alive = Some(KeepAlive { timeout, free_threads: if policy < 4 { policy % 2 } else { 3 } });
                }
                let addr = match start_either(s, https) {
                    Ok(a) => a,
                    Err(e) => return sh.violation("keep-alive:start", e),
                };
                let r = (|| -> Result<(), (String, String)> {
                    let io = |e: io::Error| ("io".to_string(), e.to_string());
                    let bad = |k: &str, t: String| Err((k.to_string(), t));
                    let mut s = connect(addr).map_err(io)?;
                    let rounds = 1 + policy % 4;
                    let mut asked = Instant::now();
                    for k in 0..rounds {
                        asked = Instant::now();
                        s.write_all(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").map_err(io)?;
                        let b = match read_one(&mut s) {
                            Ok(b) => b,
                            Err(e) => return bad("not-kept", format!("request {} of one connection wasn't answered: {}", k + 1, e)),
                        };
                        let closes = String::from_utf8_lossy(&b).contains("Connection: close\r\n");
                        let want = policy >= 4;
                        if closes != want {
                            return bad(if want { "not-closed" } else { "closed" }, esc(&b));
                        }
                        if want {
                            let t0 = Instant::now();
                            let (rest, _) = read_all(&mut s);
                            if !rest.is_empty() || t0.elapsed() > Duration::from_secs(15) {
                                return bad("not-closed", format!("{:?} after {:?}", esc(&rest), t0.elapsed()));
                            }
                            return Ok(());
                        }
                        // idle, but not for too long
                        std::thread::sleep(timeout / 10);
                    }
                    let (rest, e) = read_all(&mut s);
                    // it can't have begun to wait before it was asked
                    let t = asked.elapsed();
                    if !rest.is_empty() || e.as_ref().map_or(false, |e| e.kind() != io::ErrorKind::ConnectionReset) {
                        return bad("kept", format!("{:?} {:?} after {:?} with a timeout of {:?}", esc(&rest), e, t, timeout));
                    }
                    if t < timeout - Duration::from_millis(20) {
                        return bad("closed-early", format!("after {:?} with a timeout of {:?}", t, timeout));
                    }
                    Ok(())
                })();
                sh.add_states(1);
                sh.trans(1);
                sh.trace();
                match r {
                    Err((k, t)) if attempt == 2 => sh.violation(format!("keep-alive:{}", k), format!("policy {}: {}", policy, t)),
                    Err(_) => sh.tick(),
                    Ok(()) => break,
                }
                }
            });
            // ---- threads
            let most = ctx.pick(3, 4);
            let mut orders: Vec<(usize, bool, bool, Vec<usize>)> = vec![];
            for t in 1..=most {
                for k in [false, true] {
                    for p in permutations(t) {
                        orders.push((t, k, false, p.clone()));
                        orders.push((t, k, true, p));
                    }
                }
            }
            let defaults = (num_cpus::get() * 5) / 4;
            for t in [5, 8, 9, 16, 17, 33, 65, 129] {
                orders.push((t, t % 2 == 0, false, (0..t).rev().collect()));
            }
            orders.push((0, false, false, vec![0]));
            orders.push((0, false, true, vec![0]));
            ctx.par("threads", orders.len(), |i, sh| {
                let (configured, kept, https, ref order) = orders[i];
                let threads = if configured == 0 { defaults } else { configured };
                let gate = Arc::new(Gate::default());
                let s = Server {
                    host: (Ipv4Addr::new(127, 0, 0, 1), 0).into(),
                    threads: if configured == 0 { None } else { Some(configured) },
                    keep_alive: if kept { Some(KeepAlive { timeout: Duration::from_secs(60), free_threads: 0 }) } else { None },
                    ..Server::new(Wait(gate.clone()))
                };
                let addr = match start_either(s, https) {
                    Ok(a) => a,
                    Err(e) => return sh.violation("threads:start", e),
                };
                sh.add_states(1);
                sh.trans(threads as u64 + 1);
                sh.trace();
                let mut conns: Vec<TcpStream> = vec![];
                for id in 0..threads + 1 {
                    let mut c = match connect(addr) {
                        Ok(c) => c,
                        Err(e) => return sh.violation("threads:connect", e.to_string()),
                    };
                    let _ = c.write_all(format!("GET /?id={} HTTP/1.1\r\nHost: x\r\n\r\n", id).as_bytes());
                    conns.push(c);
                    if id < threads {
                        // each gets a thread of its own, whoever else is still being served
                        let n = gate.inside(id + 1, 20);
                        if n < id + 1 {
                            for k in 0..threads + 1 {
                                gate.let_out(k);
                            }
                            return sh.violation("threads:too-few", format!("with {} threads, only {} of {} connections are served at once", threads, n, id + 1));
                        }
                    }
                    sh.tick();
                }
                // one more has to wait
                std::thread::sleep(Duration::from_millis(150));
                let n = gate.inside(threads, 0);
                if n > threads {
                    sh.violation("threads:too-many", format!("{} connections are served at once by {} threads", n, threads));
                }
                for &id in order {
                    gate.let_out(id);
                    match read_one(&mut conns[id]) {
                        Ok(b) if b.ends_with(format!("\r\n\r\n{}", id).as_bytes()) => {}
                        other => sh.violation("threads:answer", format!("{:?}", other.map(|b| esc(&b)))),
                    }
                    let _ = conns[id].shutdown(Shutdown::Both);
                }
                gate.let_out(threads);
                match read_one(&mut conns[threads]) {
                    Ok(b) if b.ends_with(format!("\r\n\r\n{}", threads).as_bytes()) => {}
                    other => sh.violation("threads:waiting", format!("the connection that had to wait: {:?}", other.map(|b| esc(&b)))),
                }
                for k in 0..threads {
                    gate.let_out(k);
                }
            });
            // panicking handlers don't use threads up
            ctx.seq("panics", ctx.pick(3, 6), |i, sh| {
                let mut s = rich::config(false);
                s.host = (Ipv4Addr::new(127, 0, 0, 1), 0).into();
                s.threads = Some(1 + i % 3);
                s.keep_alive = if i >= 3 { ka() } else { None };
                let addr = match start(s) {
                    Ok(a) => a,
                    Err(e) => return sh.violation("panics:start", e),
                };
                for k in 0..8 {
                    sh.tick();
                    sh.add_states(1);
                    sh.trace();
                    let r = (|| -> io::Result<Vec<u8>> {
                        let mut c = connect(addr)?;
                        c.write_all(REQS[PANICS[k % 3]].as_bytes())?;
                        Ok(read_all(&mut c).0)
                    })();
                    if let Err(e) = r {
                        sh.violation("panics:io", format!("after {} panics: {}", k, e));
                    }
                    let r = (|| -> Result<bool, String> {
                        let mut c = connect(addr).map_err(|e| e.to_string())?;
                        c.write_all(REQS[8].as_bytes()).map_err(|e| e.to_string())?;
                        Ok(read_one(&mut c)?.starts_with(b"HTTP/1.1 404 "))
                    })();
                    if r != Ok(true) {
                        sh.violation("panics:dead", format!("{} threads after {} panics: {:?}", 1 + i % 3, k + 1, r));
                        return;
                    }
                }
            });
            let _ = fs::remove_dir_all(std::path::Path::new(rich::FILE.get().unwrap()).parent().unwrap());
            let _ = AtomicUsize::new(0).load(Ordering::SeqCst);
        },
    )
}
