//! C17: keep-alive gives way exactly when free threads run short.
use mc::gen::*;
use mc::sched::{self, Arena, Body, Explorer, Log, Run};
use mc::wire::{self, Closed, MemIn, MemOut};
use mc::*;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::header::{Connection, ConnectionOption, Headers};
use rustful::response::Data;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, Handler, Response, Server, StatusCode};
use std::collections::BTreeSet;
use std::io;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Send,
    Chunked,
    Raw,
    File,
    Dropped,
    FilterAbort,
    Rejected,
    Bad,
    Star,
    BeginAbort,
    EndAbort,
    ClientClose,
    ClientCloseChunked,
    HandlerClose,
    HandlerKeep,
    KeepRaw,
    KeepChunked,
    KeepDropped,
    CloseRaw,
    CloseChunked,
    ClientKeep,
    FilterClose,
    FilterKeep,
    FilterRemove,
    Http10,
    Unread,
    Head,
    WriteFail,
    Panic,
    FilterPanic,
    PanicSent,
    PanicStreaming,
}
use Kind::*;
const KINDS: [Kind; 32] = [
    Send, Chunked, Raw, File, Dropped, FilterAbort, Rejected, Bad, Star, BeginAbort, EndAbort, ClientClose, ClientCloseChunked, HandlerClose, HandlerKeep, FilterKeep, FilterRemove, Http10, Unread, Head, WriteFail, Panic, FilterPanic, PanicSent,
    PanicStreaming, KeepRaw, KeepChunked, KeepDropped, CloseRaw, CloseChunked, ClientKeep, FilterClose,
];
impl Kind {
    fn request(self) -> String {
        let line = match self {
            Bad => "CONNECT other.example:443 HTTP/1.1".to_string(),
            Star => "OPTIONS * HTTP/1.1".to_string(),
            Http10 => "GET /Send HTTP/1.0".to_string(),
            Head => "HEAD /Send HTTP/1.1".to_string(),
            Unread => "POST /Dropped HTTP/1.1\r\nContent-Length: 5".to_string(),
            ClientClose => "GET /Send HTTP/1.1\r\nConnection: close".to_string(),
            ClientCloseChunked => "GET /Chunked HTTP/1.1\r\nConnection: close".to_string(),
            ClientKeep => "GET /Send HTTP/1.1\r\nConnection: keep-alive".to_string(),
            WriteFail => "GET /Send HTTP/1.1".to_string(),
            k => format!("GET /{:?} HTTP/1.1", k),
        };
        format!("{}\r\nHost: x\r\n\r\n{}", line, if self == Unread { "12345" } else { "" })
    }
    fn asks(self) -> bool {
        matches!(self, ClientClose | ClientCloseChunked | HandlerClose | CloseRaw | CloseChunked | Http10)
    }
    fn panics(self) -> bool {
        matches!(self, Panic | FilterPanic | PanicSent | PanicStreaming)
    }
}

const START: u32 = 1;
const STARTED: u32 = 2;
const READ: u32 = 3;
const TAKEN: u32 = 4;
const END: u32 = 5;
const ENDED: u32 = 6;
const HANDLE: u32 = 8;
const HANDLED: u32 = 9;

fn dying() {
    sched::point(20);
    sched::log(END, 0);
}

struct H;
impl Handler for H {
    fn handle(&self, c: Context, mut r: Response) {
        let path = c.uri_path.as_path().map_or(String::new(), |p| p.as_utf8_lossy().into_owned());
        let kind = KINDS.iter().find(|k| path == format!("/{:?}", k)).cloned().unwrap_or(Dropped);
        match kind {
            Send | BeginAbort => r.send("text"),
            Chunked | FilterKeep | FilterRemove | FilterClose => {
                let mut ch = r.into_chunked();
                ch.send("a");
                ch.send("b");
            }
            EndAbort => {
                let _ = r.into_chunked().end();
            }
            Raw => unsafe { r.into_raw(3) }.send("raw"),
            File => {
                let _ = r.send_file_with_mime("/proc/self/nonexistent", |_| None).map_err(|e| e.ignore_send_error().is_ok());
            }
            HandlerClose => {
                r.headers_mut().set(Connection(vec![ConnectionOption::Close]));
                r.send("bye");
            }
            HandlerKeep => {
                r.headers_mut().set(Connection(vec![ConnectionOption::KeepAlive]));
                r.send("stay");
            }
            KeepRaw | CloseRaw | KeepChunked | CloseChunked | KeepDropped => {
                let o = if matches!(kind, CloseRaw | CloseChunked) { ConnectionOption::Close } else { ConnectionOption::KeepAlive };
                r.headers_mut().set(Connection(vec![o]));
                match kind {
                    KeepRaw | CloseRaw => unsafe { r.into_raw(3) }.send("raw"),
                    KeepDropped => {}
                    _ => r.into_chunked().send("a"),
                }
            }
            Panic => {
                dying();
                panic!("scripted handler panic")
            }
            PanicSent => {
                r.send("sent");
                dying();
                panic!("scripted handler panic")
            }
            PanicStreaming => {
                let mut ch = r.into_chunked();
                ch.send("a");
                dying();
                panic!("scripted handler panic")
            }
            Rejected => r.set_status(StatusCode::NotFound),
            _ => {}
        }
    }
}
struct CF;
impl ContextFilter for CF {
    fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction {
        sched::log(TAKEN, 0);
        let path = c.uri_path.as_path().map_or(String::new(), |p| p.as_utf8_lossy().into_owned());
        if path == "/FilterPanic" {
            dying();
            panic!("scripted filter panic");
        }
        if path == "/FilterAbort" {
            return ContextAction::abort(StatusCode::Forbidden);
        }
        ContextAction::next()
    }
}
thread_local!(static KIND: std::cell::Cell<Kind> = const { std::cell::Cell::new(Send) });
struct RF;
impl ResponseFilter for RF {
    fn begin(&self, _: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        let mut a = ResponseAction::next(None::<&str>);
        match KIND.with(|k| k.get()) {
            FilterClose => h.set(Connection(vec![ConnectionOption::Close])),
            FilterKeep => h.set(Connection(vec![ConnectionOption::KeepAlive])),
            FilterRemove => {
                h.remove::<Connection>();
            }
            BeginAbort => a = ResponseAction::abort("no".into()),
            _ => {}
        }
        (s, a)
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::next(c)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        match KIND.with(|k| k.get()) {
            EndAbort => ResponseAction::abort("no".into()),
            _ => ResponseAction::next(None::<&str>),
        }
    }
}

type Inst = ServerInstance<H>;
#[derive(Clone, Copy, Debug)]
struct Conf {
    threads: usize,
    free: Option<usize>,
    filters: bool,
}
impl Conf {
    fn must_close(&self, open: usize) -> bool {
        self.free.map_or(false, |f| open.saturating_add(f) > self.threads)
    }
    fn build(&self) -> Inst {
        let mut s: Server<H> = srv::config(H);
        s.threads = Some(self.threads);
        s.keep_alive = self.free.map(|f| KeepAlive { timeout: Duration::from_secs(5), free_threads: f });
        s.context_filters.push(Box::new(CF));
        if self.filters {
            s.response_filters.push(Box::new(RF));
        }
        s.build()
    }
}

/// One request on a connection of its own buffers. Ok((parsed response, kept open?)) or panic.
enum Answer {
    Told(bool),
    /// no (complete) response, but the connection goes on or is closed
    Lost,
}
fn request(inst: &Inst, k: Kind) -> Result<(Answer, bool), String> {
    KIND.with(|c| c.set(k));
    let mut rd = MemIn::new(k.request());
    let mut out = MemOut::new();
    if k == WriteFail {
        out.faults = vec![(0, wire::Fault::Fail(io::ErrorKind::BrokenPipe))];
    }
    let buf = out.clone();
    let r = catch(|| {
        let rd: &mut (dyn hyper::net::NetworkStream + std::marker::Send) = &mut rd;
        let rd: &mut dyn hyper::net::NetworkStream = rd;
        let mut rdr = hyper::buffer::BufReader::new(rd);
        let mut wrt = io::BufWriter::new(&mut out);
        let mut n = 0;
        wire::serve_one(inst, &mut rdr, &mut wrt, true, &mut n)
    });
    let keep = match r {
        Err(p) => return Err(p),
        Ok(Err(e)) => return Err(format!("not served: {}", e)),
        Ok(Ok(k)) => k,
    };
    let bytes = buf.bytes();
    let mut pos = 0;
    match wire::parse_response(&bytes, &mut pos, k == Head) {
        Ok(r) => Ok((Answer::Told(r.closes()), keep)),
        Err(_) if k == WriteFail || k == BeginAbort || k == EndAbort => {
            // the head still says it, if there is one
            let text = String::from_utf8_lossy(&bytes).into_owned();
            Ok((if text.contains("\r\n\r\n") { Answer::Told(text.contains("Connection: close\r\n")) } else { Answer::Lost }, keep))
        }
        Err(e) => Err(format!("malformed: {} in {:?}", e, esc(&bytes))),
    }
}

/// Probe: with nothing open, connections opened one after the other see the exact threshold.
fn probe(inst: &Inst, conf: Conf, open: usize) -> Result<(), String> {
    use hyper::server::Handler as HH;
    let mut res = Ok(());
    for n in 1..=3 {
        inst.on_connection_start();
        if let Ok((Answer::Told(closes), _)) = request(inst, Send) {
            if closes != conf.must_close(open + n) && res.is_ok() {
                res = Err(format!("afterwards, with {} connections really open, the server {} close", open + n, if closes { "wants to" } else { "doesn't want to" }));
            }
        } else if res.is_ok() {
            res = Err("the probe wasn't answered".into());
        }
    }
    for _ in 0..3 {
        inst.on_connection_end();
    }
    res
}

// ------------------------------------------------------------------ histories, one at a time

#[derive(Clone, Copy, Debug)]
enum Ev {
    Open,
    Req(usize, Kind),
    Close(usize),
}

fn history(sh: &mut Shard, conf: Conf, kinds: &[Kind], events: &[Ev], label: &str) {
    use hyper::server::Handler as HH;
    let inst = conf.build();
    let mut open = 0usize;
    let show = |n: usize| format!("{:?} after {:?}", conf, &events[..n]);
    let _ = kinds;
    for (i, e) in events.iter().enumerate() {
        sh.trans(1);
        match *e {
            Ev::Open => {
                inst.on_connection_start();
                open += 1;
            }
            Ev::Close(_) => {
                inst.on_connection_end();
                open -= 1;
            }
            Ev::Req(_, k) => {
                let policy = conf.must_close(open);
                match request(&inst, k) {
                    Err(p) => {
                        open -= 1;
                        if !k.panics() {
                            return sh.violation(format!("{}:failed", label), format!("{}\n{}", p, show(i + 1)));
                        }
                    }
                    Ok(_) if k.panics() => return sh.violation(format!("{}:no-panic", label), show(i + 1)),
                    Ok((ans, keep)) => {
                        let filter_asked = k == FilterClose && conf.filters;
                        let want = policy || k.asks() || filter_asked;
                        if let Answer::Told(told) = ans {
                            if told != want {
                                return sh.violation(
                                    format!("{}:{}", label, if want { "not-closed" } else { "closed" }),
                                    format!("with {} open connections, a {:?} response {} the client to close\n{}", open, k, if told { "tells" } else { "doesn't tell" }, show(i + 1)),
                                );
                            }
                            if keep == told {
                                return sh.violation(format!("{}:said-but-not-done", label), format!("told to close: {}, but kept: {}\n{}", told, keep, show(i + 1)));
                            }
                        }
                        if !keep {
                            inst.on_connection_end();
                            open -= 1;
                        }
                    }
                }
            }
        }
        sh.state(&(conf.threads, conf.free, open, i));
    }
    sh.trace();
    if let Err(e) = probe(&inst, conf, open) {
        sh.violation(format!("{}:drift", label), format!("{}\n{}", e, show(events.len())));
    }
}

/// About `n` connections at once.
fn crowd(sh: &mut Shard, conf: Conf, n: usize) {
    use hyper::server::Handler as HH;
    let inst = conf.build();
    let mut open = 0usize;
    let mut step = |open: &mut usize, to: usize| {
        while *open < to {
            inst.on_connection_start();
            *open += 1;
        }
        while *open > to {
            inst.on_connection_end();
            *open -= 1;
        }
    };
    for &to in &[n.saturating_sub(1), n, n + 1, n + 2, n + 1, n, n / 2, n, n + 1, 1] {
        step(&mut open, to.max(1));
        for &k in &[Send, Chunked, Raw, Dropped, Panic, FilterPanic, Send] {
            sh.trans(1);
            sh.state(&(conf.threads, conf.free, open, to, k as usize));
            let want = conf.must_close(open);
            match request(&inst, k) {
                Ok((Answer::Told(told), _)) if !k.panics() && told == want => {}
                Err(_) if k.panics() => {
                    // it took its connection down
                    inst.on_connection_start();
                }
                Ok((Answer::Told(told), _)) => {
                    return sh.violation("crowds:wrong", format!("{:?}: with {} open connections, a {:?} response {} the client to close", conf, open, k, if told { "tells" } else { "doesn't tell" }))
                }
                Ok(_) => return sh.violation("crowds:lost", format!("{:?}: with {} open connections, {:?}", conf, open, k)),
                Err(p) => return sh.violation("crowds:failed", format!("{:?}: with {} open connections, {:?}: {}", conf, open, k, p)),
            }
        }
    }
    step(&mut open, 0);
    sh.trace();
    if let Err(e) = probe(&inst, conf, 0) {
        sh.violation("crowds:drift", format!("{:?}: {}", conf, e));
    }
}

/// `n` connections one after the other, beside one that stays.
fn life(sh: &mut Shard, conf: Conf, kinds: &[Kind], n: usize, stay: usize) {
    use hyper::server::Handler as HH;
    let inst = conf.build();
    for _ in 0..stay {
        inst.on_connection_start();
    }
    let policy = conf.must_close(stay + 1);
    for i in 0..n {
        let k = kinds[i % kinds.len()];
        inst.on_connection_start();
        sh.trans(1);
        let want = policy || k.asks() || (k == FilterClose && conf.filters);
        match request(&inst, k) {
            Err(_) if k.panics() => {}
            Ok((Answer::Lost, _)) if !k.panics() => inst.on_connection_end(),
            Ok((Answer::Told(told), _)) if !k.panics() && told == want => inst.on_connection_end(),
            r => {
                let r = match r {
                    Err(p) => p,
                    Ok((Answer::Told(told), _)) => format!("told to close: {}", told),
                    Ok(_) => "lost".into(),
                };
                return sh.violation("lives:wrong", format!("{:?}: after {} connections with {:?}, {} of them open: {:?}: {}", conf, i, kinds, stay, k, r));
            }
        }
        if i % 1000 == 0 {
            sh.tick();
        }
    }
    sh.add_states(n as u64);
    sh.trace();
    if let Err(e) = probe(&inst, conf, stay) {
        sh.violation("lives:drift", format!("{:?}: after {} connections with {:?}, {} of them open: {}", conf, n, kinds, stay, e));
    }
}

/// The histories of `depth` events that begin with the choices that `i` stands for, with the
/// model deciding which connections are open.
fn histories(sh: &mut Shard, conf: Conf, kinds: &[Kind], depth: usize, max_open: usize, label: &str, first: &[usize]) {
    fn rec(sh: &mut Shard, conf: Conf, kinds: &[Kind], depth: usize, max_open: usize, label: &str, first: &[usize], cur: &mut Vec<Ev>, open: usize) {
        if cur.len() == depth {
            sh.tick();
            history(sh, conf, kinds, cur, label);
            return;
        }
        // Connections are anonymous to the server: which of the open ones acts makes no difference.
        let mut moves: Vec<(Ev, usize)> = vec![];
        if open < max_open {
            moves.push((Ev::Open, open + 1));
        }
        if open > 0 {
            moves.push((Ev::Close(0), open - 1));
            for &k in kinds {
                let closes = k.panics() || k.asks() || (k == FilterClose && conf.filters) || conf.must_close(open);
                moves.push((Ev::Req(0, k), if closes { open - 1 } else { open }));
            }
        }
        for (n, (e, o)) in moves.into_iter().enumerate() {
            if cur.len() < first.len() && first[cur.len()] != n {
                continue;
            }
            cur.push(e);
            rec(sh, conf, kinds, depth, max_open, label, first, cur, o);
            cur.pop();
        }
    }
    rec(sh, conf, kinds, depth, max_open, label, first, &mut vec![], 0)
}

// ------------------------------------------------------------------ interleavings

struct Traced<'a>(&'a Inst);
impl<'a> hyper::server::Handler for Traced<'a> {
    fn handle<'b, 'k>(&'b self, rq: hyper::server::Request<'b, 'k>, rs: hyper::server::Response<'b>) {
        sched::log(HANDLE, 0);
        self.0.handle(rq, rs);
        sched::log(HANDLED, 0);
    }
    fn on_connection_start(&self) {
        sched::log(START, 0);
        self.0.on_connection_start();
        sched::log(STARTED, 0);
    }
    fn on_connection_end(&self) {
        sched::point(11);
        sched::log(END, 0);
        self.0.on_connection_end();
        sched::log(ENDED, 0);
    }
}

#[derive(Clone)]
struct Outcome {
    bytes: Vec<u8>,
    served: Option<wire::Served>,
}
type Outcomes = Arc<Mutex<Vec<Outcome>>>;

fn connection(inst: &'static Inst, kinds: Vec<Kind>, id: usize, outs: Outcomes) -> Body<'static> {
    Box::new(move || {
        let mut data = vec![];
        let mut cuts = vec![];
        for k in &kinds {
            data.extend_from_slice(k.request().as_bytes());
            cuts.push(data.len());
        }
        let mut rd = MemIn::new(data).cuts(cuts);
        let n = std::sync::atomic::AtomicUsize::new(0);
        let ks = kinds.clone();
        rd.hook = Some(Arc::new(move || {
            sched::point(10);
            sched::log(READ, 0);
            let i = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            KIND.with(|c| c.set(ks.get(i).cloned().unwrap_or(Send)));
        }));
        let mut out = MemOut::new();
        let buf = out.clone();
        let served = wire::serve(&Traced(inst), &mut rd, &mut out, true);
        if let Closed::Panic(_) = served.closed {
            sched::log(ENDED, 0);
        }
        outs.lock().unwrap()[id] = Outcome { bytes: buf.bytes(), served: Some(served) };
    })
}

/// What the log allows: per connection and request, the numbers of open connections that the
/// server may have seen when it took the request up.
fn allowed(log: &Log, n: usize) -> (Vec<Vec<BTreeSet<usize>>>, Vec<u8>) {
    let mut phase = vec![0u8; n]; // 0 not begun, 1 starting, 2 open, 3 ending, 4 ended
    let mut taking: Vec<Option<BTreeSet<usize>>> = vec![None; n];
    let mut inside = vec![false; n];
    let mut done: Vec<Vec<BTreeSet<usize>>> = vec![vec![]; n];
    for &(t, tag, _) in log {
        let t = t as usize;
        match tag {
            START => phase[t] = 1,
            STARTED => phase[t] = 2,
            END => phase[t] = 3,
            ENDED => phase[t] = 4,
            READ if !inside[t] => taking[t] = Some(BTreeSet::new()),
            HANDLE => inside[t] = true,
            _ => {}
        }
        let lo = phase.iter().filter(|&&p| p == 2).count();
        let hi = lo + phase.iter().filter(|&&p| p == 1 || p == 3).count();
        for s in taking.iter_mut().flatten() {
            s.extend(lo..=hi);
        }
        match tag {
            TAKEN | HANDLED | END => {
                if let (Some(s), true) = (taking[t].take(), inside[t]) {
                    done[t].push(s);
                }
                if tag != TAKEN {
                    inside[t] = false;
                }
            }
            _ => {}
        }
    }
    for t in 0..n {
        if let Some(s) = taking[t].take() {
            if inside[t] {
                done[t].push(s);
            }
        }
    }
    (done, phase)
}

/// What of the past can still matter for the verdict.
fn summary(conf: Conf, log: &Log) -> u64 {
    let (done, phase) = allowed(log, 3);
    let can: Vec<Vec<u8>> = done.iter().map(|d| d.iter().map(|s| s.iter().fold(0, |a, &n| a | 1 << conf.must_close(n) as u8)).collect()).collect();
    hash64(&(can, phase))
}

fn judge(conf: Conf, prog: &[Vec<Kind>], run: &Run, outs: &[Outcome]) -> Result<(), (String, String)> {
    if run.deadlock {
        return Err(("deadlock".into(), "connections wait for each other forever".into()));
    }
    let (sets, _) = allowed(&run.log, prog.len());
    for (t, kinds) in prog.iter().enumerate() {
        let o = &outs[t];
        let served = o.served.as_ref().unwrap();
        let mut pos = 0;
        for (i, &k) in kinds.iter().enumerate() {
            if i >= served.requests {
                break;
            }
            if k.panics() {
                if !matches!(served.closed, Closed::Panic(_)) {
                    return Err(("no-panic".into(), format!("connection {} request {}", t, i)));
                }
                break;
            }
            let r = match wire::parse_response(&o.bytes, &mut pos, k == Head) {
                Ok(r) => r,
                Err(e) => return Err(("malformed".into(), format!("{} on connection {}: {:?}", e, t, esc(&o.bytes)))),
            };
            let set = match sets[t].get(i) {
                Some(s) => s,
                None => return Err(("not-taken".into(), format!("connection {} request {}", t, i))),
            };
            let can: BTreeSet<bool> = set.iter().map(|&n| k.asks() || conf.must_close(n)).collect();
            if !can.contains(&r.closes()) {
                return Err((
                    if r.closes() { "closed" } else { "not-closed" }.into(),
                    format!("request {} ({:?}) of connection {}: close={} although {:?} connections were open when it was taken up", i, k, t, r.closes(), set),
                ));
            }
            let last = i + 1 == served.requests;
            let ended = last && served.closed == Closed::ByServer;
            if r.closes() != ended {
                return Err(("said-but-not-done".into(), format!("connection {} request {}: told close={} but {:?} after {} requests", t, i, r.closes(), served.closed, served.requests)));
            }
        }
    }
    Ok(())
}

fn explore(sh: &mut Shard, conf: Conf, prog: &[Vec<Kind>], label: &str) {
    thread_local!(static ARENA: std::cell::RefCell<Option<&'static Arena>> = const { std::cell::RefCell::new(None) });
    let size = std::mem::size_of::<Inst>();
    let (arena, inst): (&'static Arena, &'static Inst) = ARENA.with(|a| {
        let mut a = a.borrow_mut();
        match *a {
            Some(ar) => (ar, &*Box::leak(ar.rebuild(size, || Box::new(conf.build())))),
            None => {
                let (ar, b) = Arena::build(size, || Box::new(conf.build()));
                let ar: &'static Arena = Box::leak(Box::new(ar));
                *a = Some(ar);
                (ar, &*Box::leak(b))
            }
        }
    });
    let mut ex = Explorer::new(arena);
    let n = prog.len();
    let outs: Outcomes = Arc::new(Mutex::new(vec![]));
    let mut bad: Option<(String, String)> = None;
    let slot = sh.slot_ticker();
    let (states, trans) = {
        let o2 = outs.clone();
        let mk = move || {
            *o2.lock().unwrap() = vec![Outcome { bytes: vec![], served: None }; n];
            prog.iter().enumerate().map(|(i, k)| connection(inst, k.clone(), i, o2.clone())).collect()
        };
        ex.all(
            &mk,
            &|l| summary(conf, l),
            &mut |run| {
                let o = outs.lock().unwrap().clone();
                let mut r = judge(conf, prog, run, &o);
                if r.is_ok() {
                    r = probe(inst, conf, 0).map_err(|e| ("drift".to_string(), e));
                }
                match r {
                    Ok(()) => true,
                    Err((k, t)) => {
                        bad = Some((k, format!("{}\n{:?} {:?}\nschedule {}\nlog {:?}", t, conf, prog, run.schedule(), run.log)));
                        false
                    }
                }
            },
            &slot,
        )
    };
    sh.add_states(states);
    sh.trans(trans);
    sh.traces += ex.executions;
    sh.note("schedules executed", ex.executions);
    sh.note("trapped accesses", ex.traps);
    sh.note("shared words", ex.shared_words() as u64);
    if let Some((k, t)) = bad {
        sh.violation(format!("{}:{}", label, k), t);
    } else if ex.stuck {
        sh.note("not replayable", 1);
    }
    sh.sample(|| format!("{:?} {:?}: {} schedules, {} states", conf, prog, ex.executions, states));
}

fn confs() -> Vec<Conf> {
    let mut v = vec![];
    for (t, f) in [(1, Some(0)), (2, Some(0)), (2, Some(1)), (3, Some(0)), (3, Some(1)), (1, Some(1)), (3, Some(2)), (1, Some(2)), (2, None)] {
        v.push(Conf { threads: t, free: f, filters: false });
    }
    v
}

/// A request with its body or not, and what is answered to it.
#[derive(Clone, Debug, Default)]
struct Asked {
    method: String,
    said: String,
    body: bool,
    status: u16,
    answer: String,
    way: usize,
}
const METHODS: &[&str] = &["POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH"];
const WAYS: usize = 5;
thread_local!(static ASKED: std::cell::RefCell<Asked> = std::cell::RefCell::new(Asked::default()));
struct Answering;
impl Handler for Answering {
    fn handle(&self, _c: Context, mut r: Response) {
        let a = ASKED.with(|a| a.borrow().clone());
        if a.status > 0 {
            r.set_status(StatusCode::from_u16(a.status));
        }
        if let Some((n, v)) = a.answer.trim_end().split_once(": ") {
            r.headers_mut().set_raw(n.to_string(), vec![v.as_bytes().to_vec()]);
        }
        match a.way {
            0 => r.send("text"),
            1 => {
                let mut c = r.into_chunked();
                let _ = c.send("text");
            }
            2 => {
                let mut c = unsafe { r.into_raw(4) };
                let _ = c.send("text");
            }
            3 => r.send(""),
            _ => {}
        }
    }
}
fn answered(sh: &mut Shard, conf: Conf, a: &Asked) {
    use hyper::server::Handler as HH;
    // without a body, data of an announced length can't be sent
    let empty = a.status == 204 || a.status == 205 || a.status == 304 || a.method == "HEAD" || a.method == "CONNECT";
    if a.way == 2 && empty {
        return;
    }
    let mut s = srv::config(Answering);
    s.threads = Some(conf.threads);
    s.keep_alive = conf.free.map(|f| KeepAlive { timeout: Duration::from_secs(5), free_threads: f });
    let inst = s.build();
    sh.add_states(1);
    sh.trace();
    for open in 1..=2 {
        inst.on_connection_start();
        ASKED.with(|x| *x.borrow_mut() = a.clone());
        let text = format!("{} / HTTP/1.1\r\nHost: h\r\n{}{}\r\n{}", a.method, a.said, if a.body { "Content-Length: 4\r\n" } else { "" }, if a.body { "a=bc" } else { "" });
        let mut rd = MemIn::new(&text[..]);
        let mut out = MemOut::new();
        let buf = out.clone();
        let r = catch(|| {
            let rd: &mut (dyn hyper::net::NetworkStream + std::marker::Send) = &mut rd;
            let rd: &mut dyn hyper::net::NetworkStream = rd;
            let mut rdr = hyper::buffer::BufReader::new(rd);
            let mut wrt = io::BufWriter::new(&mut out);
            let mut n = 0;
            wire::serve_one(&inst, &mut rdr, &mut wrt, true, &mut n)
        });
        sh.trans(1);
        let kept = match r {
            Ok(Ok(k)) => k,
            Ok(Err(_)) => {
                sh.note("not accepted by the HTTP parser", 1);
                return;
            }
            Err(p) => return sh.violation("answers:panic", format!("{:?} {:?}: {}", conf, a, p)),
        };
        let bytes = buf.bytes();
        let head = String::from_utf8_lossy(&bytes).split("\r\n\r\n").next().unwrap_or("").to_ascii_lowercase();
        let told = head.contains("\r\nconnection: close");
        let want = conf.must_close(open);
        if told != want || kept == want {
            return sh.violation(
                if want { "answers:not-closed" } else { "answers:closed" },
                format!("{:?} with {} open connections: {:?}\ntold to close: {}, kept: {}\n{:?}\n{:?}", conf, open, a, told, kept, text, esc(&bytes)),
            );
        }
    }
}

fn main() {
    check_main(
        "C17",
        Level::ModelChecking,
        "every history of opening, serving, panicking and closing connections up to a depth, and every interleaving of two and three connections at the granularity of accesses to shared memory, on the real server, against a model that counts open connections",
        |ctx| {
            ctx.assume("interleavings are sequentially consistent (the machine executes one trapped instruction at a time)");
            ctx.assume("at most one panic per request; HTTP/1.0 connections are never kept by the transport");
            let base = confs();
            let few = [Send, Dropped, HandlerClose, Panic];
            let some = [Send, Chunked, Raw, ClientClose, Rejected, FilterPanic];
            // histories
            let all_confs: Vec<Conf> = {
                let mut v = vec![];
                for threads in 0..5 {
                    for free in [None, Some(0), Some(1), Some(2), Some(4)] {
                        for filters in [false, true] {
                            v.push(Conf { threads, free, filters });
                        }
                    }
                }
                v
            };
            let all = KINDS.len() + 2;
            let d1 = ctx.pick(4, 5);
            ctx.par("histories-all-kinds", all_confs.len() * all * all, |i, sh| {
                let mut d = Digits(i);
                let (a, b) = (d.take(all), d.take(all));
                let conf = all_confs[d.take(all_confs.len())];
                histories(sh, conf, &KINDS, d1, 3, "histories", &[0, a, b]);
            });
            let d2 = ctx.pick(7, 9);
            ctx.par("histories-deep", all_confs.len() * 49, |i, sh| {
                let mut d = Digits(i);
                let (a, b) = (d.take(7), d.take(7));
                let conf = all_confs[d.take(all_confs.len())];
                histories(sh, conf, &few, d2, 4, "histories", &[0, a, b]);
            });
            // numbers of any size
            let sizes = ladder(ctx.pick(70_000, 1_100_000));
            ctx.par("crowds", sizes.len() * 6 * 2, |i, sh| {
                let mut d = Digits(i);
                let (filters, f) = (d.take(2) == 1, d.take(6));
                let n = sizes[d.take(sizes.len())];
                // n connections are just what fits, if that many can
                let (threads, free) = match f {
                    0 => (n, Some(0)),
                    1 => (n + 1, Some(1)),
                    2 => (2 * n, Some(n)),
                    3 => (4, Some(usize::MAX - n)),
                    4 => (usize::MAX, Some(usize::MAX - n)),
                    _ => (n, None),
                };
                crowd(sh, Conf { threads, free, filters }, n);
            });
            // connections one after the other, as many as any counter of 16 bits can take
            let n = ctx.pick(66_000, 300_000);
            ctx.par("lives", KINDS.len() * 3 * 2, |i, sh| {
                let mut d = Digits(i);
                let (filters, f, k) = (d.take(2) == 1, d.take(3), KINDS[d.take(KINDS.len())]);
                // the one that stays and another one fit; not any more; not even alone
                let conf = Conf { threads: [2, 1, 0][f], free: Some(0), filters };
                life(sh, conf, &[k], n, [1, 1, 0][f]);
                life(sh, conf, &[k, Send, Panic], n / 10, [1, 1, 0][f]);
            });
            // whatever is asked and answered
            let lines: Vec<String> = dict::heads().into_iter().filter(|l| !l.to_ascii_lowercase().starts_with("connection:")).collect();
            let (l, w) = (lines.len(), WAYS);
            ctx.par("answers", (l * 2 + 500 + METHODS.len() + dict::methods().len()) * 4, |i, sh| {
                let (conf, k) = (i % 4, i / 4);
                let conf = [(1, Some(1)), (4, Some(0)), (1, Some(2)), (5, None)][conf];
                let conf = Conf { threads: conf.0, free: conf.1, filters: false };
                let mut a = Asked { method: "GET".into(), ..Asked::default() };
                if k < l {
                    a.said = lines[k].clone();
                } else if k < 2 * l {
                    a.answer = lines[k - l].clone();
                } else if k < 2 * l + 500 {
                    a.status = (k - 2 * l + 100) as u16;
                    if a.status < 200 {
                        return;
                    }
                } else {
                    let k = k - 2 * l - 500;
                    a.method = METHODS.get(k).map(|m| m.to_string()).unwrap_or_else(|| dict::methods()[k - METHODS.len()].clone());
                }
                for way in 0..w {
                    a.way = way;
                    for body in [false, true] {
                        a.body = body;
                        answered(sh, conf, &a);
                    }
                }
            });
            let short = [(1, Some(0)), (2, Some(1)), (3, Some(1)), (2, None)];
            // interleavings of two connections
            let seqs: Vec<Vec<Kind>> = {
                let mut v: Vec<Vec<Kind>> = KINDS.iter().filter(|k| !matches!(k, WriteFail | BeginAbort | EndAbort)).map(|&k| vec![k]).collect();
                for &a in &few {
                    for &b in &few {
                        v.push(vec![a, b]);
                    }
                }
                if ctx.thorough {
                    for &a in &some {
                        for &b in &some {
                            v.push(vec![a, b]);
                        }
                    }
                }
                v
            };
            ctx.fork("two-connections", base.len() * seqs.len() * seqs.len(), |i, sh| {
                let mut d = Digits(i);
                let (a, b) = (d.take(seqs.len()), d.take(seqs.len()));
                let conf = base[d.take(base.len())];
                if a > b || (!sh.thorough() && !short.contains(&(conf.threads, conf.free))) {
                    return;
                }
                explore(sh, conf, &[seqs[a].clone(), seqs[b].clone()], "two");
            });
            // and three
            let seqs3: Vec<Vec<Kind>> = if ctx.thorough {
                let mut v: Vec<Vec<Kind>> = few.iter().map(|&k| vec![k]).collect();
                v.push(vec![Send, Send]);
                v.push(vec![Send, Panic]);
                v
            } else {
                vec![vec![Send], vec![Panic], vec![HandlerClose]]
            };
            let n3 = seqs3.len();
            let short3 = [(2, Some(0)), (2, Some(1)), (3, Some(1)), (3, Some(0)), (2, None)];
            ctx.fork("three-connections", base.len() * n3 * n3 * n3, |i, sh| {
                let mut d = Digits(i);
                let (a, b, c) = (d.take(n3), d.take(n3), d.take(n3));
                let conf = base[d.take(base.len())];
                if a > b || b > c || !short3.contains(&(conf.threads, conf.free)) {
                    return;
                }
                explore(sh, conf, &[seqs3[a].clone(), seqs3[b].clone(), seqs3[c].clone()], "three");
            });
        },
    )
}
