//! In-memory transport, a mirror of the transport layer's worker loop, and a strict parser
//! for what went over the wire.
use hyper::buffer::BufReader;
use hyper::header::{Connection, Expect, Headers};
use hyper::net::NetworkStream;
use hyper::server::{Handler as HyperHandler, Request as HyperRequest, Response as HyperResponse};
use std::io::{self, BufWriter, Read, Write};
use std::net::{Shutdown, SocketAddr};
use std::sync::{Arc, Mutex};
use std::time::Duration;

thread_local!(pub static PEER: std::cell::Cell<Option<SocketAddr>> = const { std::cell::Cell::new(None) });
/// The address of whoever is at the other end of connections served on this thread.
pub fn peer() -> SocketAddr {
    PEER.with(|p| p.get()).unwrap_or_else(|| "203.0.113.7:4711".parse().unwrap())
}

/// What the transport does when the scripted input is used up.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Eof,
    Err(io::ErrorKind),
}

/// Reading half: delivers `data`, stopping each read at the next cut.
pub struct MemIn {
    pub data: Vec<u8>,
    pub pos: usize,
    pub cuts: Vec<usize>,
    pub end: End,
    pub interrupts: Vec<usize>, // positions at which one Interrupted error is delivered first
    pub reads: usize,
    pub closed: bool,
    pub hook: Option<Arc<dyn Fn() + Send + Sync>>,
    pub timeouts: Arc<Mutex<Vec<Option<Duration>>>>,
}

impl MemIn {
    pub fn new<D: Into<Vec<u8>>>(data: D) -> MemIn {
        MemIn {
            data: data.into(),
            pos: 0,
            cuts: vec![],
            end: End::Eof,
            interrupts: vec![],
            reads: 0,
            closed: false,
            hook: None,
            timeouts: Arc::new(Mutex::new(vec![])),
        }
    }
    pub fn cuts(mut self, cuts: Vec<usize>) -> MemIn {
        self.cuts = cuts;
        self
    }
}

impl Read for MemIn {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(ref h) = self.hook {
            h();
        }
        self.reads += 1;
        if let Some(i) = self.interrupts.iter().position(|&p| p == self.pos) {
            self.interrupts.remove(i);
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if self.pos >= self.data.len() || self.closed {
            return match self.end {
                End::Eof => Ok(0),
                End::Err(k) => Err(io::Error::new(k, "scripted read error")),
            };
        }
        let lim = self.cuts.iter().cloned().filter(|&c| c > self.pos).min().unwrap_or(self.data.len()).min(self.data.len());
        let n = buf.len().min(lim - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for MemIn {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        panic!("write to the reading half")
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl NetworkStream for MemIn {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(peer())
    }
    fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.timeouts.lock().unwrap().push(d);
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn close(&mut self, _: Shutdown) -> io::Result<()> {
        self.closed = true;
        Ok(())
    }
}

/// What one transport write or flush call does.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    Fail(io::ErrorKind),
    Short(usize),
    Interrupt,
    Zero,
}

/// Writing half with fault injection by call number.
#[derive(Clone)]
pub struct MemOut {
    pub buf: Arc<Mutex<Vec<u8>>>,
    pub calls: Arc<Mutex<Vec<(bool, usize)>>>, // (is_write, bytes offered)
    pub faults: Vec<(usize, Fault)>,           // call number -> fault
    pub dead: Arc<Mutex<Option<io::ErrorKind>>>,
    pub sticky: bool,
    pub hook: Option<Arc<dyn Fn() + Send + Sync>>,
}

impl MemOut {
    pub fn new() -> MemOut {
        MemOut {
            buf: Arc::new(Mutex::new(vec![])),
            calls: Arc::new(Mutex::new(vec![])),
            faults: vec![],
            dead: Arc::new(Mutex::new(None)),
            sticky: true,
            hook: None,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.buf.lock().unwrap().clone()
    }
    fn step(&mut self, is_write: bool, len: usize) -> Option<Fault> {
        let mut c = self.calls.lock().unwrap();
        let n = c.len();
        c.push((is_write, len));
        if let Some(k) = *self.dead.lock().unwrap() {
            return Some(Fault::Fail(k));
        }
        let f = self.faults.iter().find(|f| f.0 == n).map(|f| f.1);
        if let Some(Fault::Fail(k)) = f {
            if self.sticky {
                *self.dead.lock().unwrap() = Some(k);
            }
        }
        f
    }
}

impl Default for MemOut {
    fn default() -> Self {
        Self::new()
    }
}

impl Write for MemOut {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if let Some(ref h) = self.hook {
            h();
        }
        let n = match self.step(true, b.len()) {
            Some(Fault::Fail(k)) => return Err(io::Error::new(k, "scripted write error")),
            Some(Fault::Interrupt) => return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            Some(Fault::Zero) => 0,
            Some(Fault::Short(n)) => n.min(b.len()),
            None => b.len(),
        };
        self.buf.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(ref h) = self.hook {
            h();
        }
        match self.step(false, 0) {
            Some(Fault::Fail(k)) => Err(io::Error::new(k, "scripted flush error")),
            _ => Ok(()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Closed {
    /// The server decided to close after a response.
    ByServer,
    /// The peer closed or the next request could not be read.
    NoRequest(String),
    /// A handler panicked (the connection's thread is gone).
    Panic(String),
}

#[derive(Clone, Debug)]
pub struct Served {
    pub requests: usize,
    pub closed: Closed,
}

/// The transport layer's per-connection loop (hyper 0.10 `Worker::handle_connection`), with the
/// keep-alive timeout set or not.  Conformance with the real loop is checked in C24/C08.
pub fn serve<H: HyperHandler>(h: &H, rd: &mut MemIn, out: &mut dyn Write, keep_alive_on: bool) -> Served {
    h.on_connection_start();
    serve_started(h, rd, out, keep_alive_on)
}

pub fn serve_started<H: HyperHandler>(h: &H, rd: &mut MemIn, out: &mut dyn Write, keep_alive_on: bool) -> Served {
    let mut requests = 0;
    let r = crate::catch(|| {
        let rd: &mut (dyn NetworkStream + Send) = rd;
        let rd: &mut dyn NetworkStream = rd;
        let mut rdr = BufReader::new(rd);
        let mut wrt = BufWriter::new(out);
        loop {
            match serve_one(h, &mut rdr, &mut wrt, keep_alive_on, &mut requests) {
                Ok(true) => {}
                Ok(false) => return Closed::ByServer,
                Err(e) => return Closed::NoRequest(e),
            }
        }
    });
    match r {
        Ok(c) => {
            h.on_connection_end();
            Served { requests, closed: c }
        }
        Err(p) => Served { requests, closed: Closed::Panic(p) },
    }
}

/// One round of the loop: Ok(keep alive?) or Err(why no request could be read).
pub fn serve_one<'b, H: HyperHandler, W: Write>(
    h: &H,
    rdr: &mut BufReader<&'b mut dyn NetworkStream>,
    wrt: &mut W,
    keep_alive_on: bool,
    requests: &mut usize,
) -> Result<bool, String> {
    let req = match HyperRequest::new(rdr, peer()) {
        Ok(r) => r,
        Err(e) => return Err(format!("{:?}", e)),
    };
    if req.version == hyper::version::HttpVersion::Http11 && req.headers.get() == Some(&Expect::Continue) {
        let status = h.check_continue((&req.method, &req.uri, &req.headers));
        let _ = write!(wrt, "{} {}\r\n\r\n", hyper::version::HttpVersion::Http11, status).and_then(|_| wrt.flush());
        if status != hyper::status::StatusCode::Continue {
            return Ok(false);
        }
    }
    *requests += 1;
    let mut keep_alive = keep_alive_on && hyper::http::should_keep_alive(req.version, &req.headers);
    let version = req.version;
    let mut res_headers = Headers::new();
    if !keep_alive {
        res_headers.set(Connection::close());
    }
    {
        let mut res = HyperResponse::new(wrt, &mut res_headers);
        res.version = version;
        h.handle(req, res);
    }
    if keep_alive {
        keep_alive = hyper::http::should_keep_alive(version, &res_headers);
    }
    Ok(keep_alive)
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Framing {
    None,
    Sized(u64),
    Chunked,
    UntilClose,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Resp {
    pub version: String,
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub framing: Framing,
    pub body: Vec<u8>,
    pub chunks: Vec<usize>,
}

impl Resp {
    pub fn all(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name)).map(|h| &h.1[..]).collect()
    }
    pub fn one(&self, name: &str) -> Option<&str> {
        let v = self.all(name);
        if v.len() == 1 {
            Some(v[0])
        } else {
            None
        }
    }
    pub fn closes(&self) -> bool {
        self.all("connection").iter().any(|v| v.split(',').any(|p| p.trim().eq_ignore_ascii_case("close")))
    }
    /// Everything but the date, for comparisons.
    pub fn stable(&self) -> (u16, Vec<(String, String)>, Framing, Vec<u8>) {
        let mut h: Vec<_> = self
            .headers
            .iter()
            .filter(|h| !h.0.eq_ignore_ascii_case("date"))
            .map(|h| (h.0.to_ascii_lowercase(), h.1.clone()))
            .collect();
        h.sort();
        (self.status, h, self.framing.clone(), self.body.clone())
    }
}

fn take_line<'a>(b: &'a [u8], pos: &mut usize) -> Result<&'a [u8], String> {
    let rest = &b[*pos..];
    match rest.windows(2).position(|w| w == b"\r\n") {
        Some(i) => {
            *pos += i + 2;
            let l = &rest[..i];
            if l.contains(&b'\n') || l.contains(&b'\r') {
                return Err(format!("bare CR or LF in line {:?}", crate::gen::esc(l)));
            }
            Ok(l)
        }
        None => Err(format!("unterminated line at {}: {:?}", pos, crate::gen::esc(&rest[..rest.len().min(60)]))),
    }
}

/// Parse one response strictly. `head`: it answers a HEAD request.
pub fn parse_response(b: &[u8], pos: &mut usize, head: bool) -> Result<Resp, String> {
    let line = std::str::from_utf8(take_line(b, pos)?).map_err(|e| e.to_string())?.to_string();
    let mut it = line.splitn(3, ' ');
    let version = it.next().unwrap_or("").to_string();
    if version != "HTTP/1.1" && version != "HTTP/1.0" {
        return Err(format!("bad status line {:?}", line));
    }
    let code = it.next().unwrap_or("");
    if code.len() != 3 || !code.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("bad status code in {:?}", line));
    }
    let status: u16 = code.parse().unwrap();
    let mut headers = vec![];
    loop {
        let l = take_line(b, pos)?;
        if l.is_empty() {
            break;
        }
        let l = String::from_utf8_lossy(l).into_owned();
        let i = l.find(": ").or_else(|| if l.ends_with(':') { Some(l.len() - 1) } else { None }).ok_or_else(|| format!("bad header line {:?}", l))?;
        let name = &l[..i];
        if name.is_empty() || !name.bytes().all(|c| c.is_ascii_alphanumeric() || b"-_!#$%&'*+.^`|~".contains(&c)) {
            return Err(format!("bad header name {:?}", name));
        }
        headers.push((name.to_string(), l[(i + 2).min(l.len())..].to_string()));
    }
    let mut r = Resp { version, status, headers, framing: Framing::None, body: vec![], chunks: vec![] };
    let cl: Vec<String> = r.all("content-length").iter().map(|s| s.to_string()).collect();
    let te: Vec<String> = r.all("transfer-encoding").iter().map(|s| s.to_string()).collect();
    if cl.len() > 1 {
        return Err(format!("{} Content-Length headers", cl.len()));
    }
    if !cl.is_empty() && !te.is_empty() {
        return Err("both Content-Length and Transfer-Encoding".into());
    }
    if te.len() > 1 {
        return Err("more than one Transfer-Encoding header".into());
    }
    if head || status == 204 || status == 304 || (100..200).contains(&status) {
        return Ok(r);
    }
    if let Some(t) = te.first() {
        let codings: Vec<String> = t.split(',').map(|s| s.trim().to_ascii_lowercase()).collect();
        if codings.last().map(|s| &s[..]) != Some("chunked") || codings.iter().filter(|c| *c == "chunked").count() != 1 {
            return Err(format!("bad Transfer-Encoding {:?}", t));
        }
        if r.version == "HTTP/1.0" {
            return Err("Transfer-Encoding in an HTTP/1.0 response".into());
        }
        r.framing = Framing::Chunked;
        loop {
            let l = take_line(b, pos)?;
            let s = std::str::from_utf8(l).map_err(|e| e.to_string())?;
            if s.is_empty() || !s.bytes().all(|c| c.is_ascii_hexdigit()) {
                return Err(format!("bad chunk size {:?}", s));
            }
            let n = usize::from_str_radix(s, 16).map_err(|e| e.to_string())?;
            if n == 0 {
                let l = take_line(b, pos)?;
                if !l.is_empty() {
                    return Err("data after the last chunk".into());
                }
                return Ok(r);
            }
            if b.len() < *pos + n + 2 {
                return Err("truncated chunk".into());
            }
            r.body.extend_from_slice(&b[*pos..*pos + n]);
            r.chunks.push(n);
            *pos += n;
            if &b[*pos..*pos + 2] != b"\r\n" {
                return Err("chunk not terminated".into());
            }
            *pos += 2;
        }
    }
    if let Some(c) = cl.first() {
        if c.is_empty() || !c.bytes().all(|c| c.is_ascii_digit()) {
            return Err(format!("bad Content-Length {:?}", c));
        }
        let n: u64 = c.parse().map_err(|_| format!("bad Content-Length {:?}", c))?;
        r.framing = Framing::Sized(n);
        let n = n as usize;
        if b.len() < *pos + n {
            return Err(format!("body truncated: {} of {} bytes", b.len() - *pos, n));
        }
        r.body = b[*pos..*pos + n].to_vec();
        *pos += n;
        return Ok(r);
    }
    r.framing = Framing::UntilClose;
    r.body = b[*pos..].to_vec();
    *pos = b.len();
    Ok(r)
}

/// Parse the whole output of a connection as responses to requests with these methods
/// (`true` = HEAD). Extra or missing responses are errors.
pub fn parse_all(b: &[u8], heads: &[bool]) -> Result<Vec<Resp>, String> {
    let mut pos = 0;
    let mut v = vec![];
    for (i, &h) in heads.iter().enumerate() {
        if pos >= b.len() {
            return Err(format!("response {} of {} is missing", i + 1, heads.len()));
        }
        let r = parse_response(b, &mut pos, h).map_err(|e| format!("response {}: {}", i + 1, e))?;
        v.push(r);
    }
    if pos != b.len() {
        let rest = &b[pos..];
        return Err(format!("{} unexpected bytes after the last response: {:?}", rest.len(), crate::gen::esc(&rest[..rest.len().min(80)])));
    }
    Ok(v)
}
