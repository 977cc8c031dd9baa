//! C12: transport failures are reported, never hidden and never fatal.
use mc::gen::*;
use mc::wire::{Closed, Fault, MemIn, MemOut};
use mc::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::Global;
use rustful::{Context, Handler, Response, StatusCode};
use std::cell::RefCell;
use std::io::{self, BufWriter, ErrorKind, Write};

/// One operation on a streaming response.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    TrySend(usize),
    Send(usize),
    Write(usize),
    WriteAll(usize),
    Format,
    Flush,
}
const OPS: [Op; 9] = [Op::TrySend(3), Op::TrySend(0), Op::TrySend(20), Op::Send(3), Op::Write(4), Op::WriteAll(5), Op::WriteAll(0), Op::Format, Op::Flush];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Prog {
    Drop,
    TrySend(usize),
    Send(usize),
    TrySendGeneric,
    File(usize),
    Chunked(Vec<Op>, bool),
    Raw(Vec<Op>, bool),
}
const FILE_LEN: [usize; 7] = [0, 5, 20000, 8191, 8192, 65536, 200_001];

fn piece(i: usize, n: usize) -> Vec<u8> {
    (0..n).map(|k| b'a' + ((i * 7 + k) % 26) as u8).collect()
}

/// Adds content around and (Tag) changes every piece.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fl {
    Around,
    Tag,
    Cut,
}
impl ResponseFilter for Fl {
    fn begin(&self, _: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        (s, ResponseAction::next(if *self == Fl::Around { Some("<begin>") } else { None }))
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        match (*self, c) {
            (Fl::Tag, Some(c)) => ResponseAction::next(Some([c.as_bytes(), b"+tag"].concat())),
            (Fl::Cut, Some(c)) => ResponseAction::next(Some(c.as_bytes().iter().cloned().step_by(2).collect::<Vec<u8>>())),
            (_, c) => ResponseAction::next(c),
        }
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(if *self == Fl::Around { Some("<end>") } else { None })
    }
}
const FILTERS: [&[Fl]; 4] = [&[], &[Fl::Around], &[Fl::Tag, Fl::Around], &[Fl::Cut]];

/// What one program call did.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Call {
    name: String,
    /// None: cannot report (drop, or a method that ignores errors)
    result: Option<Result<(), ErrorKind>>,
    /// transport calls made before and after it
    from: usize,
    to: usize,
    bytes: usize,
}

struct Rec<'a> {
    out: &'a MemOut,
    calls: Vec<Call>,
    at: usize,
    len: usize,
}
impl<'a> Rec<'a> {
    fn done(&mut self, name: String, result: Option<Result<(), ErrorKind>>) {
        let to = self.out.calls.lock().unwrap().len();
        let len = self.out.buf.lock().unwrap().len();
        self.calls.push(Call { name, result, from: self.at, to, bytes: len - self.len });
        self.at = to;
        self.len = len;
    }
}

fn kind<T, E: Into<rustful::response::Error>>(r: Result<T, E>) -> Option<Result<(), ErrorKind>> {
    Some(match r {
        Ok(_) => Ok(()),
        Err(e) => match e.into() {
            rustful::response::Error::Io(e) => Err(e.kind()),
            rustful::response::Error::Filter(_) => Err(ErrorKind::Other),
        },
    })
}

fn stream<W: Write>(w: &mut W, i: usize, op: Op, try_send: &mut dyn FnMut(&mut W, Vec<u8>) -> Result<(), rustful::response::Error>, send: &mut dyn FnMut(&mut W, Vec<u8>)) -> Option<Result<(), ErrorKind>> {
    match op {
        Op::TrySend(n) => kind(try_send(w, piece(i, n))),
        Op::Send(n) => {
            send(w, piece(i, n));
            None
        }
        Op::Write(n) => {
            let p = piece(i, n);
            let mut at = 0;
            let mut r = Ok(());
            while at < p.len() {
                match w.write(&p[at..]) {
                    Ok(0) => {
                        r = Err(io::Error::from(ErrorKind::WriteZero));
                        break;
                    }
                    Ok(n) => at += n,
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(e) => {
                        r = Err(e);
                        break;
                    }
                }
            }
            if at > p.len() {
                return Some(Err(ErrorKind::InvalidData));
            }
            kind(r)
        }
        Op::WriteAll(n) => kind(w.write_all(&piece(i, n))),
        Op::Format => kind(write!(w, "<{}-{}>", i, "fmt")),
        Op::Flush => kind(w.flush()),
    }
}
fn op_len(op: Op, i: usize) -> usize {
    match op {
        Op::TrySend(n) | Op::Send(n) | Op::Write(n) | Op::WriteAll(n) => n,
        Op::Format => format!("<{}-{}>", i, "fmt").len(),
        Op::Flush => 0,
    }
}

fn file_name(n: usize) -> std::path::PathBuf {
    SCRATCH.with(|s| s.borrow().join(format!("f{}.txt", n)))
}
thread_local!(static SCRATCH: RefCell<std::path::PathBuf> = RefCell::new("/nonexistent".into()));

/// How the response reaches the transport.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Way {
    Direct,
    Buffered(usize),
}
const WAYS: [Way; 4] = [Way::Direct, Way::Buffered(8), Way::Buffered(64), Way::Buffered(8192)];

thread_local! {
    /// The status that is set first, and one more header.
    static ANSWER: std::cell::Cell<(u16, Option<&'static str>)> = const { std::cell::Cell::new((200, None)) };
}

fn perform(prog: &Prog, fl: usize, out: &MemOut, w: &mut dyn Write, force: bool) -> Vec<Call> {
    let filters: Vec<Box<dyn ResponseFilter>> = FILTERS[fl].iter().map(|f| Box::new(*f) as Box<dyn ResponseFilter>).collect();
    let global = Global::default();
    let mut headers = Headers::new();
    headers.set_raw("x-h", vec![b"v".to_vec()]);
    // a fixed date keeps runs comparable
    headers.set_raw("Date", vec![b"Thu, 01 Jan 1970 00:00:00 GMT".to_vec()]);
    let mut rec = Rec { out, calls: vec![], at: 0, len: 0 };
    {
        let mut w: &mut dyn Write = w;
        let h = hyper::server::Response::new(&mut w, &mut headers);
        let mut res = Response::new(h, &filters, &global, force);
        let (status, line) = ANSWER.with(|a| a.get());
        res.set_status(StatusCode::from_u16(status));
        if let Some((n, v)) = line.and_then(|l| l.trim_end().split_once(':')) {
            res.headers_mut().set_raw(n.to_string(), vec![v.trim().as_bytes().to_vec()]);
        }
        match *prog {
            Prog::Drop => {
                drop(res);
                rec.done("drop".into(), None);
            }
            Prog::TrySend(n) => {
                let r = res.try_send_data(piece(0, n));
                rec.done("try_send_data".into(), kind(r));
            }
            Prog::Send(n) => {
                res.send_data(piece(0, n));
                rec.done("send_data".into(), None);
            }
            Prog::TrySendGeneric => {
                let r = res.try_send(Some(Ok::<_, &str>("content")));
                rec.done("try_send".into(), kind(r));
            }
            Prog::File(i) => {
                let r = res.send_file_with_mime(file_name(FILE_LEN[i]), |_| None);
                let r = r.map_err(|e| {
                    let e: io::Error = e.into();
                    e
                });
                rec.done("send_file_with_mime".into(), kind(r));
            }
            Prog::Chunked(ref ops, end) => {
                let mut c = res.into_chunked();
                rec.done("into_chunked".into(), None);
                for (i, op) in ops.iter().enumerate() {
                    let r = stream(&mut c, i, *op, &mut |c, d| c.try_send(d).map(|_| ()), &mut |c, d| c.send(d));
                    rec.done(format!("{:?}", op), r);
                }
                if end {
                    let r = c.end();
                    rec.done("end".into(), kind(r));
                } else {
                    drop(c);
                    rec.done("drop".into(), None);
                }
            }
            Prog::Raw(ref ops, end) => {
                let n: usize = ops.iter().enumerate().map(|(i, o)| op_len(*o, i)).sum();
                let mut c = unsafe { res.into_raw(n as u64) };
                rec.done("into_raw".into(), None);
                for (i, op) in ops.iter().enumerate() {
                    let r = stream(&mut c, i, *op, &mut |c, d| c.try_send(d).map_err(Into::into), &mut |c, d| c.send(d));
                    rec.done(format!("{:?}", op), r);
                }
                if end {
                    let r = c.end();
                    rec.done("end".into(), kind(r));
                } else {
                    drop(c);
                    rec.done("drop".into(), None);
                }
            }
        }
    }
    rec.calls
}

fn run(prog: &Prog, fl: usize, way: Way, faults: &[(usize, Fault)], sticky: bool) -> Result<(Vec<Call>, MemOut), String> {
    let mut out = MemOut::new();
    out.faults = faults.to_vec();
    out.sticky = sticky;
    let rec = out.clone();
    catch(|| {
        let calls = match way {
            Way::Direct => perform(prog, fl, &rec, &mut out, false),
            Way::Buffered(n) => {
                let mut b = BufWriter::with_capacity(n, out.clone());
                perform(prog, fl, &rec, &mut b, true)
            }
        };
        calls
    })
    .map(|c| (c, rec))
}

const KINDS: [ErrorKind; 20] = [
    ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::NotFound, ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::AlreadyExists, ErrorKind::InvalidInput, ErrorKind::InvalidData,
    ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::HostUnreachable,
];

/// A call that may report a problem of this transport call.
fn reporter(calls: &[Call], n: usize) -> bool {
    let i = calls.iter().position(|c| n < c.to).unwrap_or(calls.len());
    calls[i.min(calls.len())..].iter().any(|c| c.result.is_some())
}

fn check(sh: &mut Shard, prog: &Prog, fl: usize, way: Way, kinds: usize, pairs: bool) {
    let d = || format!("{:?}, filters {:?}, {:?}", prog, FILTERS[fl], way);
    let shape = match *prog {
        Prog::Chunked(..) => "chunked",
        Prog::Raw(..) => "raw",
        Prog::File(..) => "file",
        _ => "fixed",
    };
    let (calls0, out0) = match run(prog, fl, way, &[], true) {
        Ok(r) => r,
        Err(e) => {
            sh.violation(format!("{}:panic without fault", shape), format!("{}\n{}", d(), e));
            return;
        }
    };
    let good = out0.bytes();
    if let Some(c) = calls0.iter().find(|c| matches!(c.result, Some(Err(_)))) {
        sh.violation(format!("{}:error without fault", shape), format!("{}\n{:?}", d(), c));
        return;
    }
    let tcalls = out0.calls.lock().unwrap().clone();
    sh.add_states(1);
    sh.sample(|| format!("{}: {} transport calls, {} bytes", d(), tcalls.len(), good.len()));
    let one = |sh: &mut Shard, faults: &[(usize, Fault)], sticky: bool, hard: Option<usize>| {
        sh.trans(1);
        sh.trace();
        let t = || format!("{}, faults {:?} sticky {}", d(), faults, sticky);
        let (calls, out) = match run(prog, fl, way, faults, sticky) {
            Ok(r) => r,
            Err(e) => {
                sh.violation(format!("{}:panic", shape), format!("{}\n{}", t(), e));
                return;
            }
        };
        let bytes = out.bytes();
        let n = match hard {
            None => {
                // nothing was refused: nothing may change
                if bytes != good {
                    sh.violation(format!("{}:changed bytes", shape), format!("{}\nexpected {:?}\ngot {:?}", t(), esc(&good[..good.len().min(300)]), esc(&bytes[..bytes.len().min(300)])));
                }
                if let Some(c) = calls.iter().find(|c| matches!(c.result, Some(Err(_)))) {
                    sh.violation(format!("{}:spurious error", shape), format!("{}\n{:?}", t(), c));
                }
                return;
            }
            Some(n) => n,
        };
        let log = || calls.iter().map(|c| format!("{} -> {:?} ({} bytes)", c.name, c.result, c.bytes)).collect::<Vec<_>>().join("\n");
        if sticky && !good.starts_with(&bytes) {
            sh.violation(format!("{}:not a prefix", shape), format!("{}\nexpected a prefix of {:?}\ngot {:?}", t(), esc(&good[..good.len().min(300)]), esc(&bytes[..bytes.len().min(300)])));
            return;
        }
        // the faulted run is the good one up to the fault
        let i = calls.iter().position(|c| n < c.to);
        let i = match i {
            Some(i) => i,
            None => {
                // a buffer's leftovers, written when the transport layer drops it
                return;
            }
        };
        // the call in which it failed, or a later one, reports it
        let swallowed = calls[i].result.is_none() && !matches!(&calls[i].name[..], "into_chunked" | "into_raw");
        if !swallowed && reporter(&calls, n) && !calls[i..].iter().any(|c| matches!(c.result, Some(Err(_)))) {
            sh.violation(format!("{}:not reported", shape), format!("{}\nfailed in call {}\n{}", t(), calls[i].name, log()));
            return;
        }
        // no call says that bytes were sent that the transport refused
        if way == Way::Direct {
            for (k, c) in calls.iter().enumerate() {
                let must = calls0[k].bytes;
                if c.result == Some(Ok(())) && c.bytes < must && (sticky || k == i) {
                    sh.violation(format!("{}:success for refused bytes", shape), format!("{}\ncall {} reports success\n{}", t(), c.name, log()));
                    return;
                }
            }
        } else if let Some(c) = calls.iter().enumerate().skip(i).find(|(k, c)| {
            // behind a buffer: a flush must not succeed while the transport is down
            c.result == Some(Ok(())) && sticky && c.name == "Flush" && calls0[*k].bytes > 0
        }) {
            sh.violation(format!("{}:flush succeeds", shape), format!("{}\n{:?}\n{}", t(), c.1, log()));
        }
    };
    // every transport call as the one that fails
    for n in 0..tcalls.len() {
        for k in &KINDS[..kinds] {
            one(sh, &[(n, Fault::Fail(*k))], true, Some(n));
            one(sh, &[(n, Fault::Fail(*k))], false, Some(n));
        }
        let (is_write, len) = tcalls[n];
        if is_write && len > 0 {
            one(sh, &[(n, Fault::Zero)], false, Some(n));
            one(sh, &[(n, Fault::Interrupt)], true, None);
            for s in [1, 2, len / 2, len - 1] {
                if s > 0 && s < len {
                    one(sh, &[(n, Fault::Short(s))], true, None);
                    // the rest is refused
                    one(sh, &[(n, Fault::Short(s)), (n + 1, Fault::Fail(ErrorKind::BrokenPipe))], true, Some(n + 1));
                    one(sh, &[(n, Fault::Short(s)), (n + 1, Fault::Interrupt)], true, None);
                    one(sh, &[(n, Fault::Short(s)), (n + 1, Fault::Zero)], false, Some(n + 1));
                }
            }
        }
    }
    // everything short / everything interrupted
    let total: usize = good.len() + tcalls.len() + 8;
    if total < 1200 {
        one(sh, &(0..total).map(|n| (n, Fault::Short(1))).collect::<Vec<_>>(), true, None);
        one(sh, &(0..2 * total).map(|n| (n, if n % 2 == 0 { Fault::Interrupt } else { Fault::Short(2) })).collect::<Vec<_>>(), true, None);
    }
    if pairs && tcalls.len() <= 40 {
        for n in 0..tcalls.len() {
            for m in n + 1..tcalls.len() + 2 {
                // a failure that passes, and a second one that stays
                one(sh, &[(n, Fault::Fail(ErrorKind::WouldBlock)), (m, Fault::Fail(ErrorKind::BrokenPipe))], false, Some(n));
                if tcalls[n].0 && tcalls[n].1 > 1 {
                    one(sh, &[(n, Fault::Short(1)), (m, Fault::Fail(ErrorKind::ConnectionReset))], true, Some(m));
                    one(sh, &[(n, Fault::Short(1)), (m, Fault::Short(1))], true, None);
                }
            }
        }
    }
}

struct H;
thread_local!(static PROG: RefCell<Prog> = const { RefCell::new(Prog::Drop) });
impl Handler for H {
    fn handle(&self, _: Context, res: Response) {
        match PROG.with(|p| p.borrow().clone()) {
            Prog::TrySend(n) => {
                let _ = res.try_send(piece(0, n));
            }
            Prog::Send(n) => res.send(piece(0, n)),
            Prog::TrySendGeneric => res.send(Some(Ok::<_, &str>("content"))),
            Prog::File(i) => {
                res.send(&*file_name(FILE_LEN[i]));
            }
            Prog::Chunked(ops, end) => {
                let mut c = res.into_chunked();
                for (i, op) in ops.iter().enumerate() {
                    stream(&mut c, i, *op, &mut |c, d| c.try_send(d).map(|_| ()), &mut |c, d| c.send(d));
                }
                if end {
                    let _ = c.end();
                }
            }
            Prog::Raw(ops, end) => {
                let n: usize = ops.iter().enumerate().map(|(i, o)| op_len(*o, i)).sum();
                let mut c = unsafe { res.into_raw(n as u64) };
                for (i, op) in ops.iter().enumerate() {
                    stream(&mut c, i, *op, &mut |c, d| c.try_send(d).map_err(Into::into), &mut |c, d| c.send(d));
                }
                if end {
                    let _ = c.end();
                }
            }
            Prog::Drop => {}
        }
    }
}

/// Dates change while a check runs.
fn undate(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let mut i = 0;
    while i + 6 <= v.len() {
        if v[i..].starts_with(b"Date: ") {
            let mut j = i + 6;
            while j < v.len() && v[j] != b'\r' {
                v[j] = b'.';
                j += 1;
            }
        }
        i += 1;
    }
    v
}

/// Two pipelined requests through the whole server.
fn served(sh: &mut Shard, prog: &Prog, fl: usize) {
    PROG.with(|p| *p.borrow_mut() = prog.clone());
    let mut c = srv::config(H);
    for f in FILTERS[fl] {
        c.response_filters.push(Box::new(*f));
    }
    let inst = c.build();
    let input = "GET /a HTTP/1.1\r\nHost: h\r\n\r\nPOST /b HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\nExpect: 100-continue\r\n\r\nxyzGET /c HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n";
    let mut o = MemOut::new();
    wire::serve(&inst, &mut MemIn::new(input), &mut o, true);
    let good = undate(&o.bytes());
    let n = o.calls.lock().unwrap().len();
    sh.add_states(1);
    for i in 0..n {
        for k in [ErrorKind::BrokenPipe, ErrorKind::WouldBlock] {
            for sticky in [true, false] {
                let mut o = MemOut::new();
                o.faults = vec![(i, Fault::Fail(k))];
                o.sticky = sticky;
                let s = wire::serve(&inst, &mut MemIn::new(input), &mut o, true);
                sh.trans(1);
                sh.trace();
                let d = || format!("{:?}, filters {:?}, transport call {} fails with {:?} (sticky {})", prog, FILTERS[fl], i, k, sticky);
                if let Closed::Panic(ref p) = s.closed {
                    sh.violation("server:panic", format!("{}\n{}", d(), p));
                }
                let b = undate(&o.bytes());
                if sticky && !good.starts_with(&b) {
                    sh.violation("server:not a prefix", format!("{}\ngot {:?}", d(), esc(&b[..b.len().min(400)])));
                }
            }
        }
    }
}

fn progs(depth: usize) -> Vec<Prog> {
    let mut v = vec![Prog::Drop, Prog::TrySendGeneric];
    for n in [0, 1, 30, 9000] {
        v.push(Prog::TrySend(n));
        v.push(Prog::Send(n));
    }
    for i in 0..3 {
        v.push(Prog::File(i));
    }
    for i in 0..strings_upto(OPS.len(), depth) {
        let ops: Vec<Op> = string_at(OPS.len(), i).iter().map(|&o| OPS[o]).collect();
        for end in [true, false] {
            v.push(Prog::Chunked(ops.clone(), end));
            v.push(Prog::Raw(ops.clone(), end));
        }
    }
    v
}

fn main() {
    check_main(
        "C12",
        Level::FaultEnumeration,
        "every response program (operation sequences up to a depth, each way of ending) x filter lists x buffering; for each, every transport write and flush call is made to fail in turn (sticky and passing, every error class), to take fewer bytes, to take none, and to be interrupted, and pairs of such faults; distinct_nontrivial = fault-free programs, evaluations = faulted runs",
        |ctx| {
            ctx.assume("Interrupted means 'try again' and is no failure");
            ctx.assume("behind the transport layer's write buffer, a failure that only shows when the buffer is dropped after the response has nobody left to report it to");
            let dir = std::env::temp_dir().join(format!("mc-c12-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            for n in FILE_LEN {
                std::fs::write(dir.join(format!("f{}.txt", n)), piece(0, n)).unwrap();
            }
            let all = progs(ctx.pick(2, 3));
            let (nf, nw) = (FILTERS.len(), WAYS.len());
            let kinds = ctx.pick(2, 6);
            ctx.par("programs", all.len() * nf * nw, |i, sh| {
                SCRATCH.with(|s| *s.borrow_mut() = dir.clone());
                let mut d = Digits(i);
                let (f, w) = (d.take(nf), d.take(nw));
                check(sh, &all[d.0], f, WAYS[w], kinds, true);
            });
            if !ctx.thorough {
                let deep: Vec<Prog> = progs(3).into_iter().filter(|p| matches!(p, Prog::Chunked(o, true) | Prog::Raw(o, true) if o.len() == 3)).collect();
                ctx.par("deep", deep.len(), |i, sh| check(sh, &deep[i], 0, Way::Direct, 1, false));
            } else {
                let deep: Vec<Prog> = progs(4).into_iter().filter(|p| matches!(p, Prog::Chunked(o, _) | Prog::Raw(o, _) if o.len() == 4)).collect();
                ctx.par("deep", deep.len() * 4, |i, sh| check(sh, &deep[i / 4], i % 2, WAYS[(i / 2) % 2], 1, false));
            }
            // pieces of every size, and every number of pieces
            let mut more: Vec<Prog> = (3..FILE_LEN.len()).map(Prog::File).collect();
            for n in ladder(ctx.pick(140_000, 2_000_000)) {
                more.extend([Prog::TrySend(n), Prog::Chunked(vec![Op::TrySend(n)], true), Prog::Chunked(vec![Op::WriteAll(n), Op::Flush, Op::Write(n)], false), Prog::Raw(vec![Op::TrySend(n), Op::Send(1)], true), Prog::Raw(vec![Op::Write(n), Op::Flush], false)]);
            }
            for n in [4usize, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 40, 64, 65].into_iter().chain(ctx.pick(vec![], vec![128, 129, 256, 257, 300])) {
                for op in [Op::TrySend(3), Op::Write(4), Op::Flush, Op::Send(20)] {
                    let ops: Vec<Op> = (0..n).map(|i| if i == n / 2 { Op::TrySend(1) } else { op }).collect();
                    more.extend([Prog::Chunked(ops.clone(), true), Prog::Chunked(ops.clone(), false), Prog::Raw(ops, true)]);
                }
            }
            ctx.par("sizes", more.len() * nf * 3, |i, sh| {
                SCRATCH.with(|s| *s.borrow_mut() = dir.clone());
                let mut d = Digits(i);
                let (f, w) = (d.take(nf), [Way::Direct, Way::Buffered(64), Way::Buffered(8192)][d.take(3)]);
                check(sh, &more[d.0], f, w, 1, false);
            });
            // every class of error
            let one = progs(1);
            let more: Vec<Prog> = one.iter().cloned().chain([Prog::Chunked(vec![Op::WriteAll(5), Op::Flush], true), Prog::Raw(vec![Op::Write(4), Op::Flush], true), Prog::Raw(vec![Op::TrySend(3), Op::Send(3)], false)]).collect();
            ctx.par("kinds", more.len() * nf * 3, |i, sh| {
                SCRATCH.with(|s| *s.borrow_mut() = dir.clone());
                let mut d = Digits(i);
                let (f, w) = (d.take(nf), [Way::Direct, Way::Buffered(64), Way::Buffered(8192)][d.take(3)]);
                check(sh, &more[d.0], f, w, KINDS.len(), false);
            });
            // every status, and every header that may come with what is sent
            let lines: Vec<&'static str> = dict::heads().into_iter().filter(|l| !l.to_ascii_lowercase().starts_with("date")).map(|s| &*Box::leak(s.into_boxed_str())).collect();
            ctx.par("answers", (400 + lines.len()) * more.len(), |i, sh| {
                SCRATCH.with(|s| *s.borrow_mut() = dir.clone());
                let (k, p) = (i / more.len(), &more[i % more.len()]);
                if k < 400 && matches!(200 + k, 204 | 304) {
                    return;
                }
                ANSWER.with(|a| a.set(if k < 400 { (200 + k as u16, None) } else { (200, Some(lines[k - 400])) }));
                check(sh, p, i % nf, [Way::Direct, Way::Buffered(64)][k % 2], 1, false);
                ANSWER.with(|a| a.set((200, None)));
            });
            let small = progs(ctx.pick(2, 3));
            ctx.par("server", small.len() * nf, |i, sh| {
                SCRATCH.with(|s| *s.borrow_mut() = dir.clone());
                served(sh, &small[i / nf], i % nf)
            });
            let _ = std::fs::remove_dir_all(&dir);
        },
    )
}
