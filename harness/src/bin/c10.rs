//! C10: response filters transform every response in order.
use mc::gen::*;
use mc::wire::{Closed, Framing};
use mc::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::{Data, Error};
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response, StatusCode};
use std::cell::RefCell;
use std::io::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum B {
    Nothing,
    Piece,
    Change,
    ChangePiece,
    Silent,
    Abort,
}
/// What the write step does; everything not singled out is tagged or passed on.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum W {
    Pass,
    Tag,
    SilentA,
    NoneA,
    AbortA,
    SilentBegin,
    AbortBegin,
    SilentEnd,
    AbortEnd,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum E {
    Nothing,
    Piece,
    Silent,
    Abort,
}
type Spec = (B, W, E);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ret {
    Go,
    Silent,
    Abort,
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Begin(usize, u16, String, Ret),
    Write(usize, String, Ret),
    End(usize, Ret),
    /// The sender's call so far (to tell which call an abort belongs to).
    Call(&'static str, Result<(), Failed>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Failed {
    Filter(String),
    Io,
}

thread_local! {
    /// how often each filter was given no content to write
    static NONES: RefCell<[usize; 150]> = const { RefCell::new([0; 150]) };
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) };
    static SCRIPT: RefCell<Script> = RefCell::new(Script { kind: Kind::Fixed, pieces: vec![], end: true });
}
fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e));
}

fn changed(i: usize) -> u16 {
    TO.with(|t| t.get()).unwrap_or(230 + i as u16 % 60)
}

const BEGIN: &[u8] = b"pqrst";
const END: &[u8] = b"uvxyz";

fn kind_of(piece: &str) -> u8 {
    piece.bytes().next().unwrap_or(b'?')
}

/// The write step as a function.
fn transform(i: usize, w: W, piece: &str) -> (Ret, Option<String>) {
    let k = kind_of(piece);
    let (a, b, e) = (k == b'A', BEGIN.contains(&k), END.contains(&k));
    match w {
        W::Pass => (Ret::Go, Some(piece.into())),
        // an empty piece can be seen by the mark it gets
        _ if piece.is_empty() => (Ret::Go, Some(format!("Z{}", i))),
        W::SilentA if a => (Ret::Silent, None),
        W::NoneA if a => (Ret::Go, None),
        W::AbortA if a => (Ret::Abort, None),
        W::SilentBegin if b => (Ret::Silent, None),
        W::AbortBegin if b => (Ret::Abort, None),
        W::SilentEnd if e => (Ret::Silent, None),
        W::AbortEnd if e => (Ret::Abort, None),
        _ => (Ret::Go, Some(format!("{}{}", piece, i))),
    }
}

struct F(usize, Spec);
impl ResponseFilter for F {
    fn begin(&self, _: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        let old = h.get_raw("x-b").map(|v| String::from_utf8_lossy(&v[0]).into_owned()).unwrap_or_default();
        let b = (self.1).0;
        let ret = match b {
            B::Silent => Ret::Silent,
            B::Abort => Ret::Abort,
            _ => Ret::Go,
        };
        log(Ev::Begin(self.0, s.to_u16(), old.clone(), ret));
        let mut s = s;
        if let B::Change | B::ChangePiece = b {
            s = StatusCode::from_u16(changed(self.0));
            h.set_raw("x-b", vec![format!("{}{}", old, self.0).into_bytes()]);
        }
        (
            s,
            match b {
                B::Piece | B::ChangePiece => ResponseAction::next(Some((BEGIN[self.0 % BEGIN.len()] as char).to_string())),
                B::Silent => ResponseAction::silent_abort(),
                B::Abort => ResponseAction::abort(format!("b{}", self.0)),
                _ => ResponseAction::next(None::<&str>),
            },
        )
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        let c = match c {
            None => {
                NONES.with(|n| n.borrow_mut()[self.0] += 1);
                return ResponseAction::next(None::<&str>);
            }
            Some(c) => c,
        };
        let s = String::from_utf8_lossy(c.as_bytes()).into_owned();
        let (ret, out) = transform(self.0, (self.1).1, &s);
        log(Ev::Write(self.0, s, ret));
        match ret {
            Ret::Go => ResponseAction::next(out),
            Ret::Silent => ResponseAction::silent_abort(),
            Ret::Abort => ResponseAction::abort(format!("w{}", self.0)),
        }
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        let (r, a) = match (self.1).2 {
            E::Nothing => (Ret::Go, ResponseAction::next(None::<&str>)),
            E::Piece => (Ret::Go, ResponseAction::next(Some((END[self.0 % END.len()] as char).to_string()))),
            E::Silent => (Ret::Silent, ResponseAction::silent_abort()),
            E::Abort => (Ret::Abort, ResponseAction::abort(format!("e{}", self.0))),
        };
        log(Ev::End(self.0, r));
        a
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Fixed,
    FixedBytes,
    FixedResult,
    Chunked,
    ChunkedWrite,
    /// The response is dropped as it is.
    Dropped,
    /// The handler panics before sending.
    Panic,
    /// The handler panics after the pieces.
    ChunkedPanic,
}
impl Kind {
    fn fixed(self) -> bool {
        !matches!(self, Kind::Chunked | Kind::ChunkedWrite | Kind::ChunkedPanic)
    }
    fn panics(self) -> bool {
        matches!(self, Kind::Panic | Kind::ChunkedPanic)
    }
    fn status(self) -> u16 {
        if self == Kind::Panic { 500 } else { SENT.with(|s| s.get().0) }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Script {
    kind: Kind,
    pieces: Vec<&'static str>,
    end: bool,
}

thread_local! {
    /// The status the handler sets, and one more header.
    /// What a filter changes the status to, if not its own.
    static TO: std::cell::Cell<Option<u16>> = const { std::cell::Cell::new(None) };
    static SENT: std::cell::Cell<(u16, Option<&'static str>)> = const { std::cell::Cell::new((201, None)) };
}

struct Sender;
impl Handler for Sender {
    fn handle(&self, _: Context, mut r: Response) {
        let s = SCRIPT.with(|s| s.borrow().clone());
        let (status, line) = SENT.with(|s| s.get());
        r.set_status(StatusCode::from_u16(status));
        if let Some((n, v)) = line.and_then(|l| l.trim_end().split_once(':')) {
            r.headers_mut().set_raw(n.to_string(), vec![v.trim().as_bytes().to_vec()]);
        }
        let res = |r: Result<(), Error>| {
            r.map_err(|e| match e {
                Error::Filter(m) => Failed::Filter(m),
                Error::Io(_) => Failed::Io,
            })
        };
        match s.kind {
            Kind::Fixed => {
                let x = r.try_send_data(s.pieces[0]);
                log(Ev::Call("send", res(x)));
            }
            Kind::FixedBytes => {
                let x = r.try_send(s.pieces[0].as_bytes());
                log(Ev::Call("send", res(x)));
            }
            Kind::FixedResult => {
                let x = r.try_send(Some(s.pieces[0].to_string()));
                log(Ev::Call("send", res(x)));
            }
            Kind::Dropped => log(Ev::Call("drop", Ok(()))),
            Kind::Panic => {
                log(Ev::Call("drop", Ok(())));
                panic!("as asked")
            }
            Kind::Chunked | Kind::ChunkedWrite | Kind::ChunkedPanic => {
                let mut c = r.into_chunked();
                log(Ev::Call("start", Ok(())));
                let mut ok = true;
                for p in &s.pieces {
                    let x = if s.kind != Kind::ChunkedWrite {
                        res(c.try_send(*p).map(|_| ()))
                    } else {
                        c.write_all(p.as_bytes()).map_err(|e| match e.get_ref() {
                            // whoever is told this writes again
                            _ if e.kind() == std::io::ErrorKind::Interrupted => Failed::Io,
                            Some(i) => i.downcast_ref::<Error>().map_or(Failed::Io, |e| match *e {
                                Error::Filter(ref m) => Failed::Filter(m.clone()),
                                _ => Failed::Io,
                            }),
                            None => Failed::Io,
                        })
                    };
                    ok = x.is_ok();
                    log(Ev::Call("piece", x));
                    if !ok {
                        break;
                    }
                }
                if s.kind == Kind::ChunkedPanic {
                    log(Ev::Call("drop", Ok(())));
                    panic!("as asked");
                } else if s.end && ok {
                    let x = c.end();
                    log(Ev::Call("end", res(x)));
                } else {
                    drop(c);
                    log(Ev::Call("drop", Ok(())));
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Abort {
    Begin,
    Content(usize),
    End,
}
/// What the pipeline has to do.
#[derive(Clone, Debug)]
struct Want {
    begins: Vec<(usize, u16, String)>,
    writes: Vec<Vec<String>>,
    ends: Vec<usize>,
    end_pieces: Vec<u8>,
    status: u16,
    xb: String,
    begin_body: String,
    content: Vec<String>,
    abort: Option<Abort>,
    /// a begin step silently aborted: later begin steps are skipped
    cut_short: bool,
}

/// `queue_all`: after a silent abort in a begin step, do queued pieces still pass the later filters?
fn model(fs: &[Spec], status: u16, pieces: &[&str], queue_all: bool) -> Want {
    let n = fs.len();
    let mut w = Want { begins: vec![], writes: vec![vec![]; n], ends: vec![], end_pieces: vec![], status, xb: String::new(), begin_body: String::new(), content: vec![], abort: None, cut_short: false };
    let mut queue: Vec<String> = vec![];
    for (i, f) in fs.iter().enumerate() {
        if !w.cut_short {
            w.begins.push((i, w.status, w.xb.clone()));
            if let B::Change | B::ChangePiece = f.0 {
                w.status = changed(i);
                w.xb.push_str(&i.to_string());
            }
            if f.0 == B::Abort {
                w.abort = Some(Abort::Begin);
                return w;
            }
        } else if !queue_all {
            break;
        }
        let mut next = vec![];
        for p in &queue {
            w.writes[i].push(p.clone());
            match transform(i, f.1, p) {
                (Ret::Go, Some(x)) => next.push(x),
                (Ret::Abort, _) => {
                    w.abort = Some(Abort::Begin);
                    w.begin_body = next.concat();
                    return w;
                }
                _ => {}
            }
        }
        queue = next;
        if !w.cut_short {
            match f.0 {
                B::Silent => w.cut_short = true,
                B::Piece | B::ChangePiece => queue.push((BEGIN[i % BEGIN.len()] as char).to_string()),
                _ => {}
            }
        }
    }
    w.begin_body = queue.concat();
    for (k, p) in pieces.iter().enumerate() {
        let mut cur = Some(p.to_string());
        for (i, f) in fs.iter().enumerate() {
            let p = match cur {
                Some(ref p) => p.clone(),
                None => break,
            };
            w.writes[i].push(p.clone());
            match transform(i, f.1, &p) {
                (Ret::Go, x) => cur = x,
                (Ret::Silent, _) => cur = None,
                (Ret::Abort, _) => {
                    w.abort = Some(Abort::Content(k));
                    return w;
                }
            }
        }
        w.content.push(cur.unwrap_or_default());
    }
    for (i, f) in fs.iter().enumerate().rev() {
        w.ends.push(i);
        match f.2 {
            E::Nothing => {}
            E::Piece => w.end_pieces.push(END[i % END.len()]),
            E::Silent => break,
            E::Abort => {
                w.abort = Some(Abort::End);
                return w;
            }
        }
    }
    w
}

/// Split a body into its pieces (a letter and its tags).
fn split(b: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for &c in b {
        if (c.is_ascii_digit() || c == b'.') && !v.is_empty() {
            v.last_mut().unwrap().push(c as char);
        } else {
            v.push((c as char).to_string());
        }
    }
    v
}

fn is_end(p: &str) -> bool {
    END.contains(&kind_of(p))
}

/// Compare one execution to one prediction; None if it agrees.
fn differs(fs: &[Spec], s: &Script, w: &Want, got: &[Ev], r: &wire::Resp) -> Option<(&'static str, String)> {
    let fixed = s.kind.fixed();
    // did anything else than begin/content/own end steps abort? (write steps of end pieces)
    let end_write_abort = got.iter().any(|e| matches!(e, Ev::Write(_, p, Ret::Abort) if is_end(p)));
    let end_write_silent = got.iter().any(|e| matches!(e, Ev::Write(_, p, Ret::Silent) if is_end(p)));
    // errors reach the sender exactly when something aborted
    let calls: Vec<(&str, &Result<(), Failed>)> = got.iter().filter_map(|e| if let Ev::Call(n, r) = e { Some((*n, r)) } else { None }).collect();
    let observed_end = s.end || fixed;
    let want_err: Option<usize> = match w.abort {
        None if end_write_abort && observed_end => Some(if fixed { 0 } else { s.pieces.len() + 1 }),
        None => None,
        Some(_) if fixed => Some(0),
        Some(Abort::Begin) => Some(1),
        Some(Abort::Content(k)) => Some(k + 1),
        Some(Abort::End) if observed_end => Some(s.pieces.len() + 1),
        Some(Abort::End) => None,
    };
    let silent_drop = !s.end;
    for (i, c) in calls.iter().enumerate() {
        match (want_err == Some(i), c.1) {
            (true, Err(Failed::Filter(m))) => {
                let i: usize = m[1..].parse().unwrap_or(99);
                let issued = got.iter().any(|e| match (e, m.as_bytes()[0]) {
                    (Ev::Begin(j, _, _, Ret::Abort), b'b') => *j == i,
                    (Ev::Write(j, _, Ret::Abort), b'w') => *j == i,
                    (Ev::End(j, Ret::Abort), b'e') => *j == i,
                    _ => false,
                });
                if !issued {
                    return Some(("error message", format!("the error {:?} was not issued by a filter", m)));
                }
            }
            (true, _) if silent_drop && c.0 == "drop" => {}
            (true, r) => return Some(("abort not reported", format!("call {} ({}) returned {:?} instead of a filter error", i, c.0, r))),
            (false, Ok(())) => {}
            (false, r) => return Some(("error without abort", format!("call {} ({}) returned {:?}", i, c.0, r))),
        }
    }
    if let Some(n) = want_err {
        if calls.len() <= n {
            return Some(("calls", format!("only {} calls", calls.len())));
        }
    }
    // begin steps
    let begins: Vec<(usize, u16, String)> = got.iter().filter_map(|e| if let Ev::Begin(i, s, x, _) = e { Some((*i, *s, x.clone())) } else { None }).collect();
    let begin_ok = if w.abort == Some(Abort::Begin) { begins.len() >= w.begins.len() && begins[..w.begins.len()] == w.begins[..] } else { begins == w.begins };
    if !begin_ok {
        return Some(("begin steps", format!("expected (filter, status, headers) {:?}, got {:?}", w.begins, begins)));
    }
    if w.abort == Some(Abort::Begin) && fs[w.begins.last().unwrap().0].0 == B::Abort && begins.len() > w.begins.len() {
        return Some(("begin after abort", format!("begin steps {:?}", begins)));
    }
    // write steps, per filter
    if w.abort != Some(Abort::Begin) {
        for i in 0..fs.len() {
            let ws: Vec<&String> = got.iter().filter_map(|e| if let Ev::Write(j, p, _) = e { if *j == i && !is_end(p) { Some(p) } else { None } } else { None }).collect();
            let exp: Vec<&String> = w.writes[i].iter().collect();
            if ws != exp {
                return Some(("write steps", format!("filter {} expected pieces {:?}, got {:?}", i, exp, ws)));
            }
        }
        // end steps
        if !matches!(w.abort, Some(Abort::Content(_))) {
            let ends: Vec<usize> = got.iter().filter_map(|e| if let Ev::End(i, _) = e { Some(*i) } else { None }).collect();
            if ends != w.ends {
                return Some(("end steps", format!("expected {:?}, got {:?}", w.ends, ends)));
            }
        }
        // order in time: begin < content < end
        let pos = |f: &dyn Fn(&Ev) -> bool| (got.iter().position(|e| f(e)), got.iter().rposition(|e| f(e)));
        let (_, lb) = pos(&|e| matches!(e, Ev::Begin(..)));
        let (fc, lc) = pos(&|e| matches!(e, Ev::Write(_, p, _) if b"AB".contains(&kind_of(p))));
        let (fe, _) = pos(&|e| matches!(e, Ev::End(..)));
        if let (Some(a), Some(b)) = (lb, fc) {
            if a > b {
                return Some(("order", "content was filtered before the last begin step".into()));
            }
        }
        if let (Some(a), Some(b)) = (lc, fe) {
            if a > b {
                return Some(("order", "content was filtered after an end step".into()));
            }
        }
    }
    // on the wire, where these have no content
    if matches!(r.status, 204 | 304) && w.abort.is_none() {
        return if r.status != w.status || !r.body.is_empty() { Some(("status", format!("expected {}, got {} with {:?}", w.status, r.status, esc(&r.body)))) } else { None };
    }
    let framing_ok = match r.framing {
        Framing::Sized(n) => (fixed || w.abort == Some(Abort::Begin)) && n as usize == r.body.len(),
        Framing::Chunked => !fixed || want_err.is_some(),
        _ => false,
    };
    if !framing_ok {
        return Some(("framing", format!("{:?}", r.framing)));
    }
    if w.abort != Some(Abort::Begin) && (want_err.is_none() || !fixed) {
        if r.status != w.status {
            return Some(("status", format!("expected {}, got {}", w.status, r.status)));
        }
        if r.one("x-b").unwrap_or("") != w.xb {
            return Some(("headers", format!("expected x-b {:?}, got {:?}", w.xb, r.all("x-b"))));
        }
    }
    let body = split(&r.body);
    let mut front: Vec<String> = split(w.begin_body.as_bytes());
    match w.abort {
        _ if fixed && want_err.is_some() => {
            if !r.body.is_empty() {
                return Some(("body after abort", format!("{:?}", esc(&r.body))));
            }
        }
        Some(Abort::Begin) => {
            if !(body.len() <= front.len() && body.iter().zip(&front).all(|(a, b)| a == b)) {
                return Some(("body after abort", format!("expected at most {:?}, got {:?}", front, body)));
            }
        }
        _ => {
            front.extend(w.content.iter().filter(|c| !c.is_empty()).cloned());
            if body.len() < front.len() || body[..front.len()] != front[..] {
                return Some(("body", format!("expected {:?}, got {:?}", front, body)));
            }
            let mut tail: Vec<u8> = body[front.len()..].iter().map(|p| kind_of(p)).collect();
            let mut exp = w.end_pieces.clone();
            tail.sort();
            exp.sort();
            let loose = end_write_abort || end_write_silent || w.abort.is_some();
            let ok = if matches!(w.abort, Some(Abort::Content(_))) {
                // the end steps may still have run
                tail.iter().all(|c| END.contains(c))
            } else if loose {
                tail.iter().all(|c| exp.contains(c))
            } else {
                tail == exp
            };
            if !ok {
                return Some(("end content", format!("expected pieces {:?} last, got {:?}", exp.iter().map(|&c| c as char).collect::<String>(), &body[front.len()..])));
            }
        }
    }
    None
}

fn run(sh: &mut Shard, inst: &ServerInstance<Sender>, fs: &[Spec], s: &Script) {
    SCRIPT.with(|x| *x.borrow_mut() = s.clone());
    LOG.with(|l| l.borrow_mut().clear());
    NONES.with(|n| *n.borrow_mut() = [0; 150]);
    let (text, status) = REQ.with(|r| r.get());
    let (out, served) = srv::talk(inst, text.as_bytes());
    let mut got = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    if status.is_some() {
        // answered by the server itself
        got.push(Ev::Call("drop", Ok(())));
    }
    let status = status.unwrap_or(s.kind.status());
    sh.trans(got.len() as u64);
    sh.trace();
    let d = || format!("filters (begin, write, end) {:?}\nsender {:?}\nrequest {:?}", fs, s, text);
    match served.closed {
        Closed::Panic(ref p) if !s.kind.panics() || !p.contains("as asked") => {
            sh.violation(format!("panic:{}", norm(p)), format!("{}\n{}", d(), p));
            return;
        }
        _ => {}
    }
    let r = match wire::parse_all(&out, &[false]) {
        Ok(mut v) => v.pop().unwrap(),
        Err(e) => {
            sh.violation("response", format!("{}\n{} in {:?}", d(), e, esc(&out)));
            return;
        }
    };
    // a filter may be given nothing only where an earlier one had nothing to say; a piece that
    // was aborted is gone
    let nones = NONES.with(|n| *n.borrow());
    for i in 0..fs.len() {
        let may = 1
            + fs[..i].iter().filter(|f| matches!(f.0, B::Nothing | B::Change)).count()
            + if fs[..i].iter().any(|f| f.1 == W::NoneA) { s.pieces.iter().filter(|p| **p == "A").count() } else { 0 }
            + fs.iter().filter(|f| f.2 == E::Nothing).count();
        if nones[i] > may {
            sh.violation("nothing written", format!("{}\nfilter {} was given nothing {} times, but only {} were due\nlog {:?}", d(), i, nones[i], may, got));
        }
    }
    // whether there is an empty piece in a response that was never sent is left open
    let readings: Vec<Vec<&str>> = if matches!(s.kind, Kind::Dropped | Kind::Panic) { vec![vec![], vec![""]] } else { vec![s.pieces.clone()] };
    let mut first = None;
    for pieces in &readings {
        let w = model(fs, status, pieces, false);
        // content for a status that has none is refused by the transport
        if matches!(w.status, 204 | 304) || (matches!(status, 204 | 304) && w.abort.is_some()) {
            if !(w.begin_body.is_empty() && w.content.concat().is_empty() && w.end_pieces.is_empty()) || w.abort.is_some() {
                sh.note("content for a status without content", 1);
                return;
            }
        }
        match differs(fs, s, &w, &got, &r) {
            None => return,
            Some(x) => first = first.or(Some(x)),
        }
        if w.cut_short && differs(fs, s, &model(fs, status, pieces, true), &got, &r).is_none() {
            return;
        }
    }
    let (k, t) = first.unwrap();
    sh.violation(k, format!("{}\n{}\nlog {:?}", d(), t, got));
}

thread_local! {
    static WORDS: RefCell<Vec<(usize, Vec<u8>)>> = const { RefCell::new(vec![]) };
    static WORD: std::cell::Cell<(usize, &'static str)> = const { std::cell::Cell::new((0, "")) };
}
/// Notes what it is given, and passes it on with a star before and after it.
struct Stars(usize);
impl ResponseFilter for Stars {
    fn begin(&self, _: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        (s, ResponseAction::next(None::<&str>))
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        match c {
            None => ResponseAction::next(None::<&str>),
            Some(c) => {
                WORDS.with(|w| w.borrow_mut().push((self.0, c.as_bytes().to_vec())));
                ResponseAction::next(Some([b"*", c.as_bytes(), b"*"].concat()))
            }
        }
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(None::<&str>)
    }
}
struct SendsWords;
impl Handler for SendsWords {
    fn handle(&self, _: Context, r: Response) {
        let (kind, w) = WORD.with(|w| w.get());
        match kind {
            0 => r.send(w),
            1 => r.send(w.to_string()),
            2 => r.send(w.as_bytes()),
            3 => r.send(w.as_bytes().to_vec()),
            4 => {
                let mut c = r.into_chunked();
                c.send(w);
                c.send(w.to_string());
            }
            5 => {
                let mut c = r.into_chunked();
                c.send(w.as_bytes());
                let _ = c.write_all(w.as_bytes());
                let _ = c.end();
            }
            6 => {
                let mut c = r.into_chunked();
                let _ = write!(c, "{}", w);
                c.send("A");
            }
            _ => {
                let mut c = r.into_chunked();
                c.send("A");
                c.send(w);
                c.send(w);
            }
        }
    }
}
fn seen_words(sh: &mut Shard, n: usize, kind: usize, w: &'static str) {
    WORD.with(|x| x.set((kind, w)));
    WORDS.with(|x| x.borrow_mut().clear());
    let mut c = srv::config(SendsWords);
    for i in 0..n {
        c.response_filters.push(Box::new(Stars(i)));
    }
    let (out, _) = srv::talk(&c.build(), b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    sh.trans(1);
    let pieces: Vec<&str> = match kind {
        0..=3 => vec![w],
        4 | 5 => vec![w, w],
        6 => vec![w, "A"],
        _ => vec!["A", w, w],
    };
    let stars = |i: usize, p: &str| [b"*".repeat(i), p.as_bytes().to_vec(), b"*".repeat(i)].concat();
    let body: Vec<u8> = pieces.iter().flat_map(|p| stars(n, p)).collect();
    let seen = WORDS.with(|x| x.borrow().clone());
    for i in 0..n {
        let s: Vec<Vec<u8>> = seen.iter().filter(|x| x.0 == i).map(|x| x.1.clone()).collect();
        let want: Vec<Vec<u8>> = pieces.iter().map(|p| stars(i, p)).collect();
        if s != want {
            sh.violation("words:write steps", format!("{:?} sent in way {} through {} filters: filter {} should see {:?}, saw {:?}", w, kind, n, i, want, s));
            return;
        }
    }
    match wire::parse_all(&out, &[false]) {
        Ok(r) if r[0].body == body => {}
        x => sh.violation("words:body", format!("{:?} sent in way {} through {} filters: expected {:?}, got {:?}", w, kind, n, esc(&body), x)),
    }
}

/// Requests, with the status if the server answers by itself.
type Req = (&'static str, Option<u16>);
const REQS: [Req; 21] = [
    ("GET / HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("POST / HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("PUT / HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabc", None),
    ("POST / HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n", None),
    ("DELETE / HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("OPTIONS / HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("TRACE / HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("PATCH / HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("PURGE / HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("CONNECT / HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("GET /some/path?query=1#fragment HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("GET http://other.example/p?q HTTP/1.1\r\nHost: h\r\n\r\n", None),
    ("GET / HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n", None),
    ("GET / HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\nAccept-Encoding: gzip, *\r\nRange: bytes=0-1\r\nIf-None-Match: *\r\nTE: trailers\r\n\r\n", None),
    ("POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=b\r\n\r\n", None),
    ("GET / HTTP/1.1\r\n\r\n", None),
    ("OPTIONS * HTTP/1.1\r\nHost: h\r\n\r\n", Some(200)),
    ("GET * HTTP/1.1\r\nHost: h\r\n\r\n", Some(200)),
    ("CONNECT other.example:443 HTTP/1.1\r\nHost: h\r\n\r\n", Some(400)),
    ("GET / HTTP/1.1\r\nHost: h\r\nX-Stop: 1\r\n\r\n", Some(418)),
    ("OPTIONS * HTTP/1.1\r\nHost: h\r\nX-Stop: 1\r\n\r\n", Some(418)),
];
thread_local!(static REQ: std::cell::Cell<Req> = const { std::cell::Cell::new(REQS[0]) });

struct Stop;
impl rustful::filter::ContextFilter for Stop {
    fn modify(&self, _: FilterContext, c: &mut Context) -> rustful::filter::ContextAction {
        if c.headers.get_raw("x-stop").is_some() {
            rustful::filter::ContextAction::abort(StatusCode::ImATeapot)
        } else {
            rustful::filter::ContextAction::next()
        }
    }
}

fn instance(fs: &[Spec]) -> ServerInstance<Sender> {
    let mut c = srv::config(Sender);
    for (i, f) in fs.iter().enumerate() {
        c.response_filters.push(Box::new(F(i, *f)));
    }
    c.context_filters.push(Box::new(Stop));
    c.build()
}

fn scripts(deep: bool) -> Vec<Script> {
    let mut v = vec![];
    for kind in [Kind::Fixed, Kind::FixedBytes, Kind::FixedResult] {
        if kind == Kind::FixedResult || deep || kind == Kind::Fixed {
            v.push(Script { kind, pieces: vec!["A"], end: true });
        }
    }
    v.retain(|s| s.kind != Kind::FixedResult || deep);
    v.push(Script { kind: Kind::Dropped, pieces: vec![], end: false });
    if deep {
        v.push(Script { kind: Kind::Fixed, pieces: vec![""], end: true });
        v.push(Script { kind: Kind::Panic, pieces: vec![], end: false });
        v.push(Script { kind: Kind::ChunkedPanic, pieces: vec![], end: false });
        v.push(Script { kind: Kind::ChunkedPanic, pieces: vec!["B", "A"], end: false });
    }
    for kind in [Kind::Chunked, Kind::ChunkedWrite] {
        let lists: Vec<Vec<&'static str>> = if deep { vec![vec![], vec!["A"], vec!["B"], vec!["A", "B"], vec!["B", "A", "B"], vec!["A", "A"], vec![""], vec!["A", "", "B"]] } else { vec![vec![], vec!["B", "A", "B"]] };
        for pieces in lists {
            for end in if deep { vec![true, false] } else { vec![true] } {
                if deep || kind == Kind::Chunked {
                    v.push(Script { kind, pieces: pieces.clone(), end });
                }
            }
        }
    }
    v
}

fn explore(ctx: &Ctx, name: &str, bs: &[B], ws: &[W], es: &[E], n: usize, deep: bool) {
    let k = bs.len() * ws.len() * es.len();
    let ss = scripts(deep);
    ctx.par(name, k.pow(n as u32), |i, sh| {
        let mut d = Digits(i);
        let fs: Vec<Spec> = (0..n).map(|_| (bs[d.take(bs.len())], ws[d.take(ws.len())], es[d.take(es.len())])).collect();
        sh.add_states(1);
        let inst = instance(&fs);
        for s in &ss {
            run(sh, &inst, &fs, s);
        }
        if n == 2 && i % 5 == 3 {
            sh.sample(|| format!("{:?}: {:?}", fs, model(&fs, 201, &["A"], false)));
        }
    });
}

fn main() {
    check_main(
        "C10",
        Level::ModelChecking,
        "every list of response filters over the behaviours up to the bound x every sender script; state = one filter list, transition = one filter step or sender call",
        |ctx| {
            ctx.assume("which filters transform the content produced by end steps is left open, as is what becomes of a write step's empty outcome (None)");
            ctx.assume("after a silent abort in a begin step, whether queued pieces still pass the later filters is left open");
            use crate::{B::*, W::*};
            let (bs, ws, es) = (
                [Nothing, Piece, Change, ChangePiece, B::Silent, B::Abort],
                [Pass, Tag, SilentA, NoneA, AbortA, SilentBegin, AbortBegin, SilentEnd, AbortEnd],
                [E::Nothing, E::Piece, E::Silent, E::Abort],
            );
            explore(ctx, "none", &bs, &ws, &es, 0, true);
            explore(ctx, "one", &bs, &ws, &es, 1, true);
            explore(ctx, "two", &bs, &ws, &es, 2, true);
            if ctx.thorough {
                explore(ctx, "three", &bs[1..], &[Tag, SilentA, NoneA, AbortA, SilentBegin, AbortBegin, AbortEnd], &es, 3, false);
                explore(ctx, "four", &[Piece, Change, B::Silent], &[Tag, AbortA, SilentBegin, AbortBegin], &es[..3], 4, false);
            } else {
                explore(ctx, "three", &[Piece, Change, B::Silent, B::Abort], &[Tag, SilentA, AbortA, SilentBegin, AbortBegin], &es, 3, false);
                explore(ctx, "four", &[Piece, B::Silent], &[Tag, AbortA, SilentBegin], &es[1..3], 4, false);
            }
            explore(ctx, "ends", &[Piece], &[Tag, SilentEnd, AbortEnd], &es, 3, true);
            explore(ctx, "ends-four", &[Piece], &[Tag, SilentEnd], &es[1..], 4, false);
            // many filters, one of which is special
            let top = ctx.pick(70, 140);
            let common = [(Piece, Tag, E::Piece), (B::Nothing, Pass, E::Nothing), (Change, Tag, E::Nothing), (ChangePiece, Pass, E::Piece)];
            let special: Vec<Spec> = bs.iter().map(|&b| (b, Tag, E::Nothing)).chain(ws.iter().map(|&w| (B::Nothing, w, E::Nothing))).chain(es.iter().map(|&e| (B::Nothing, Pass, e))).collect();
            let ss: Vec<Script> = [(Kind::Fixed, vec!["A"], true), (Kind::Dropped, vec![], false), (Kind::Chunked, vec!["B", "A", "B"], true), (Kind::Chunked, vec!["A", "B"], false)]
                .into_iter()
                .map(|(kind, pieces, end)| Script { kind, pieces, end })
                .collect();
            ctx.par("many", top * common.len() * special.len(), |i, sh| {
                let mut d = Digits(i);
                let (sp, co, n) = (special[d.take(special.len())], common[d.take(common.len())], 1 + d.take(top));
                for at in [0, n / 2, n - 1] {
                    let fs: Vec<Spec> = (0..n).map(|j| if j == at { sp } else { co }).collect();
                    sh.add_states(1);
                    let inst = instance(&fs);
                    for s in &ss {
                        run(sh, &inst, &fs, s);
                    }
                }
            });
            // many pieces
            let counts: Vec<usize> = ladder(ctx.pick(3000, 30000));
            ctx.par("long", counts.len() * special.len(), |i, sh| {
                let (n, sp) = (counts[i / special.len()], special[i % special.len()]);
                let pieces: Vec<&'static str> = (0..n).map(|j| if j == n / 2 { "A" } else { "B" }).collect();
                for fs in [vec![sp], vec![(Piece, Tag, E::Piece), sp]] {
                    sh.add_states(1);
                    let inst = instance(&fs);
                    for (kind, end) in [(Kind::Chunked, true), (Kind::ChunkedWrite, true), (Kind::Chunked, false)] {
                        run(sh, &inst, &fs, &Script { kind, pieces: pieces.clone(), end });
                    }
                }
            });
            // every kind of request
            let specs: Vec<Spec> = bs.iter().flat_map(|&b| [Tag, SilentA, AbortA, AbortBegin].into_iter().flat_map(move |w| es.into_iter().map(move |e| (b, w, e)))).collect();
            let deep = scripts(true);
            ctx.par("requests", specs.len() * 3 * (REQS.len() + 1), |i, sh| {
                let mut d = Digits(i);
                let (sp, k, q) = (specs[d.take(specs.len())], d.take(3), d.take(REQS.len() + 1));
                let fs = match k {
                    0 => vec![sp],
                    1 => vec![(Piece, Tag, E::Piece), sp],
                    _ => vec![sp, (ChangePiece, Pass, E::Piece), (Change, Tag, E::Nothing)],
                };
                let req = if q == REQS.len() { ("GET / HTTP/1.0\r\n\r\n", None) } else { REQS[q] };
                REQ.with(|r| r.set(req));
                sh.add_states(1);
                let inst = instance(&fs);
                for s in &deep {
                    // chunks to an old client, as after an abort: a known finding of C11
                    if q == REQS.len() && (sp.0 == B::Abort || matches!(sp.1, AbortA | AbortBegin) || sp.2 == E::Abort) {
                        continue;
                    }
                    if (req.1.is_none() || s.kind == Kind::Dropped) && (q < REQS.len() || s.kind.fixed()) && !(q == REQS.len() && matches!(s.kind, Kind::Dropped | Kind::Panic)) {
                        run(sh, &inst, &fs, s);
                    }
                }
                REQ.with(|r| r.set(REQS[0]));
            });
            // every status, and every header that may come with what is sent
            let few: Vec<Spec> = vec![(B::Nothing, Pass, E::Nothing), (B::Nothing, Pass, E::Silent), (Change, Pass, E::Nothing), (B::Nothing, Tag, E::Piece), (Piece, Tag, E::Piece), (ChangePiece, SilentA, E::Nothing), (B::Silent, Tag, E::Piece), (B::Abort, Tag, E::Piece), (Change, AbortA, E::Nothing), (B::Nothing, NoneA, E::Abort), (Piece, AbortBegin, E::Silent)];
            let lines: Vec<&'static str> = dict::heads().into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect();
            let more = 400 + lines.len() * 2;
            ctx.par("statuses", more * few.len(), |i, sh| {
                let (k, sp) = (i / few.len(), few[i % few.len()]);
                SENT.with(|s| s.set(if k < 400 { (200 + k as u16, None) } else { ([201, 404][(k - 400) % 2], Some(lines[(k - 400) / 2])) }));
                for fs in [vec![sp], vec![(B::Nothing, Pass, E::Nothing), sp], vec![(B::Nothing, Tag, E::Piece), sp], vec![(ChangePiece, Tag, E::Piece), sp, (Piece, Pass, E::Piece)]] {
                    sh.add_states(1);
                    let inst = instance(&fs);
                    for s in &deep {
                        run(sh, &inst, &fs, s);
                    }
                }
                SENT.with(|s| s.set((201, None)));
            });
            // every status as what a filter makes of another
            let from = [200, 201, 204, 302, 404, 418, 500, 599];
            let (few, n) = ([(Change, Pass, E::Nothing), (ChangePiece, Tag, E::Piece), (Change, SilentA, E::Silent)], from.len());
            ctx.par("changed-statuses", 400 * n * few.len(), |i, sh| {
                let mut d = Digits(i);
                let (sp, f, t) = (few[d.take(few.len())], from[d.take(n)], 200 + d.take(400) as u16);
                SENT.with(|s| s.set((f, None)));
                TO.with(|s| s.set(Some(t)));
                for fs in [vec![sp], vec![(B::Nothing, Tag, E::Piece), sp], vec![sp, (Piece, Pass, E::Piece)], vec![sp, sp]] {
                    sh.add_states(1);
                    let inst = instance(&fs);
                    for s in &deep {
                        run(sh, &inst, &fs, s);
                    }
                }
                SENT.with(|s| s.set((201, None)));
                TO.with(|s| s.set(None));
            });
            // other lines of the head, and other methods
            let lines = dict::heads();
            let names: Vec<String> = ["GET", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH"].iter().map(|s| s.to_string()).chain(dict::methods()).collect();
            let texts: Vec<&'static str> = lines.iter().map(|l| format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n", l)).chain(lines.iter().map(|l| format!("PUT /a HTTP/1.1\r\nHost: h\r\nContent-Length: 0\r\n{}\r\n", l))).chain(names.iter().map(|m| format!("{} /a HTTP/1.1\r\nHost: h\r\n\r\n", m))).chain(dict::forms().iter().flat_map(|w| [format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", dict::encoded(w)), format!("GET /?{}=1 HTTP/1.1\r\nHost: h\r\n\r\n", dict::encoded(w))])).map(|s| &*Box::leak(s.into_boxed_str())).collect();
            let few: Vec<Spec> = vec![(Piece, Tag, E::Piece), (ChangePiece, SilentA, E::Nothing), (B::Silent, Tag, E::Piece), (B::Abort, Tag, E::Piece), (Change, AbortA, E::Nothing), (B::Nothing, NoneA, E::Abort), (Piece, AbortBegin, E::Silent)];
            ctx.par("heads", texts.len() * few.len(), |i, sh| {
                let (t, sp) = (texts[i / few.len()], few[i % few.len()]);
                REQ.with(|r| r.set((t, None)));
                for fs in [vec![sp], vec![(ChangePiece, Tag, E::Piece), sp, (Piece, Pass, E::Piece)]] {
                    sh.add_states(1);
                    let inst = instance(&fs);
                    for s in &ss {
                        run(sh, &inst, &fs, s);
                    }
                }
                REQ.with(|r| r.set(REQS[0]));
            });
            // content made of what the code mentions, which the filters see as it is
            let words: Vec<&'static str> = dict::texts().into_iter().filter(|w| w.bytes().all(|c| c != b'*')).map(|s| &*Box::leak(s.into_boxed_str())).collect();
            ctx.par("words", words.len(), |i, sh| {
                let w = words[i];
                for n in 0..4 {
                    for kind in 0..8 {
                        sh.add_states(1);
                        sh.trace();
                        seen_words(sh, n, kind, w);
                    }
                }
            });
            // pieces of many sizes
            let sizes: Vec<&'static str> = ladder(ctx.pick(140_000, 1_100_000)).into_iter().map(|n| &*Box::leak(format!("B{}", ".".repeat(n)).into_boxed_str())).collect();
            ctx.par("sizes", sizes.len() * special.len(), |i, sh| {
                let (p, sp) = (sizes[i / special.len()], special[i % special.len()]);
                for fs in [vec![sp], vec![(Piece, Tag, E::Piece), sp]] {
                    sh.add_states(1);
                    let inst = instance(&fs);
                    for kind in [Kind::Fixed, Kind::FixedBytes, Kind::FixedResult] {
                        run(sh, &inst, &fs, &Script { kind, pieces: vec![p], end: true });
                    }
                    for kind in [Kind::Chunked, Kind::ChunkedWrite] {
                        run(sh, &inst, &fs, &Script { kind, pieces: vec!["A", p, "B"], end: true });
                    }
                }
            });
            explore(ctx, "five", &[Piece, Change], &[Tag, SilentA], &es[..2], 5, false);
        },
    )
}
