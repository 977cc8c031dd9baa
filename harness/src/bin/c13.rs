//! C13: handler outcomes map to the documented statuses.
use mc::wire::{Closed, MemIn, MemOut};
use mc::*;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::handler::{Environment, HandleRequest};
use rustful::header::Headers;
use rustful::response::{Data, Error, SendResponse};
use rustful::context::hypermedia::Link;
use rustful::{Context, ContentFactory, DefaultRouter, Handler, Response, StatusCode};
use std::cell::Cell;
use std::io::{self, ErrorKind};
use std::marker::PhantomData;

/// What sending a value must do to the response.
#[derive(Clone, Debug, PartialEq)]
struct Out {
    /// None: the status stays
    status: Option<u16>,
    body: Vec<u8>,
}

/// All values of a type (within bounds) with their meaning, and a name.
trait All: Sized {
    fn count() -> usize;
    fn make(i: usize) -> (Self, Out);
    fn show(i: usize) -> String;
}

impl All for &'static str {
    fn count() -> usize {
        2
    }
    fn make(i: usize) -> (Self, Out) {
        let s = ["text", ""][i];
        (s, Out { status: None, body: s.as_bytes().to_vec() })
    }
    fn show(i: usize) -> String {
        ["\"text\"", "\"\""][i].into()
    }
}
impl All for Vec<u8> {
    fn count() -> usize {
        1
    }
    fn make(_: usize) -> (Self, Out) {
        (vec![0xff, 0, b'x'], Out { status: None, body: vec![0xff, 0, b'x'] })
    }
    fn show(_: usize) -> String {
        "vec![255, 0, b'x']".into()
    }
}
impl All for String {
    fn count() -> usize {
        1
    }
    fn make(_: usize) -> (Self, Out) {
        ("string".into(), Out { status: None, body: b"string".to_vec() })
    }
    fn show(_: usize) -> String {
        "String".into()
    }
}
impl All for &'static [u8] {
    fn count() -> usize {
        1
    }
    fn make(_: usize) -> (Self, Out) {
        (b"slice", Out { status: None, body: b"slice".to_vec() })
    }
    fn show(_: usize) -> String {
        "b\"slice\"".into()
    }
}

const KINDS: [ErrorKind; 20] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::Other, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero,
    ErrorKind::Interrupted, ErrorKind::UnexpectedEof, ErrorKind::Unsupported, ErrorKind::OutOfMemory,
];
thread_local!(static MESSAGE: Cell<&'static str> = const { Cell::new("message") });
thread_local!(static ALL_KINDS: Cell<bool> = const { Cell::new(true) });
impl All for io::Error {
    fn count() -> usize {
        // the kinds, without a message, with one, and from the system
        if ALL_KINDS.with(|a| a.get()) {
            2 * KINDS.len() + 2
        } else {
            3
        }
    }
    fn make(i: usize) -> (Self, Out) {
        let n = KINDS.len();
        let e = if i < n {
            io::Error::from(KINDS[i])
        } else if i < 2 * n {
            io::Error::new(KINDS[i - n], MESSAGE.with(|m| m.get()))
        } else {
            io::Error::from_raw_os_error([libc::ENOENT, libc::EACCES][i - 2 * n])
        };
        let o = Out { status: if e.kind() == ErrorKind::NotFound { Some(404) } else { None }, body: e.to_string().into_bytes() };
        (e, o)
    }
    fn show(i: usize) -> String {
        format!("{:?}", Self::make(i).0)
    }
}
impl<T: All> All for Option<T> {
    fn count() -> usize {
        1 + T::count()
    }
    fn make(i: usize) -> (Self, Out) {
        if i == 0 {
            (None, Out { status: Some(404), body: vec![] })
        } else {
            let (v, o) = T::make(i - 1);
            (Some(v), o)
        }
    }
    fn show(i: usize) -> String {
        if i == 0 {
            "None".into()
        } else {
            format!("Some({})", T::show(i - 1))
        }
    }
}
impl<T: All, U: All> All for Result<T, U> {
    fn count() -> usize {
        T::count() + U::count()
    }
    fn make(i: usize) -> (Self, Out) {
        if i < T::count() {
            let (v, o) = T::make(i);
            (Ok(v), Out { status: o.status.or(Some(200)), body: o.body })
        } else {
            let (v, o) = U::make(i - T::count());
            (Err(v), Out { status: o.status.or(Some(500)), body: o.body })
        }
    }
    fn show(i: usize) -> String {
        if i < T::count() {
            format!("Ok({})", T::show(i))
        } else {
            format!("Err({})", U::show(i - T::count()))
        }
    }
}

/// Data of many sizes.
struct Big(Vec<u8>);
thread_local!(static DATA: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(vec![]) });
thread_local!(static SIZES: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) });
impl All for Big {
    fn count() -> usize {
        SIZES.with(|s| s.borrow().len()) + DATA.with(|d| d.borrow().len())
    }
    fn make(i: usize) -> (Self, Out) {
        let n = SIZES.with(|s| s.borrow().len());
        let v = if i < n { vec![b'b'; SIZES.with(|s| s.borrow()[i])] } else { DATA.with(|d| d.borrow()[i - n].clone()) };
        (Big(v.clone()), Out { status: None, body: v })
    }
    fn show(i: usize) -> String {
        let v = Self::make(i).0 .0;
        format!("{:?} ({} bytes)", gen::esc(&v[..v.len().min(70)]), v.len())
    }
}
impl<'a> Into<Data<'a>> for Big {
    fn into(self) -> Data<'a> {
        self.0.into()
    }
}

/// Adds its mark to head and body, to see that filters still apply.
struct Mark;
impl ResponseFilter for Mark {
    fn begin(&self, _: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        h.set_raw("x-status", vec![s.to_u16().to_string().into_bytes()]);
        (s, ResponseAction::next(None::<&str>))
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::next(c)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(None::<&str>)
    }
}
struct Abort;
impl ResponseFilter for Abort {
    fn begin(&self, _: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        (s, ResponseAction::next(None::<&str>))
    }
    fn write<'a>(&'a self, _: FilterContext, _: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::abort("no".into())
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(None::<&str>)
    }
}

thread_local!(static BEFORES_ALL: std::cell::RefCell<Vec<u16>> = std::cell::RefCell::new(vec![200, 201, 404, 503]));
thread_local! {
    static WHICH: Cell<usize> = const { Cell::new(0) };
    static BEFORE: Cell<u16> = const { Cell::new(200) };
    static WAY: Cell<usize> = const { Cell::new(0) };
    static RESULT: Cell<u8> = const { Cell::new(0) };
}

/// A handler that sends value number WHICH of the type.
struct Sender<T>(PhantomData<fn() -> T>);
impl<T: All + 'static> Handler for Sender<T>
where
    T: for<'a, 'b> SendResponse<'a, 'b, Error = Error>,
{
    fn handle(&self, _: Context, mut r: Response) {
        let (v, _) = T::make(WHICH.with(|w| w.get()));
        let s = BEFORE.with(|b| b.get());
        if s != 200 {
            r.set_status(StatusCode::from_u16(s));
        }
        r.headers_mut().set_raw("x-kept", vec![b"1".to_vec()]);
        match WAY.with(|w| w.get()) {
            0 => {
                let ok = match r.try_send(v) {
                    Ok(()) => 1,
                    Err(Error::Io(_)) => 2,
                    Err(Error::Filter(ref m)) if m == "no" => 3,
                    Err(Error::Filter(_)) => 4,
                };
                RESULT.with(|r| r.set(ok));
            }
            1 => r.send(v),
            _ => {
                let ok = v.send_response(r).is_ok();
                RESULT.with(|r| r.set(ok as u8));
            }
        }
    }
}

const GET: &[u8] = b"GET /p HTTP/1.1\r\nHost: h\r\n\r\n";

thread_local!(static REQUEST: std::cell::RefCell<Option<(Vec<u8>, bool, bool)>> = const { std::cell::RefCell::new(None) });

fn values<T: All + 'static>(sh: &mut Shard, name: &str)
where
    T: for<'a, 'b> SendResponse<'a, 'b, Error = Error>,
{
    let with = |f: Option<bool>| {
        let mut c = srv::config(Sender::<T>(PhantomData));
        match f {
            Some(true) => c.response_filters.push(Box::new(Mark)),
            Some(false) => c.response_filters.push(Box::new(Abort)),
            None => {}
        }
        c.build()
    };
    let (get, head, routable) = REQUEST.with(|r| r.borrow().clone()).unwrap_or_else(|| (GET.to_vec(), false, true));
    let (plain, mark, abort) = (with(None), with(Some(true)), with(Some(false)));
    let factory = srv::instance(ContentFactory(|_: Context| T::make(WHICH.with(|w| w.get())).0));
    let mut router = DefaultRouter::<ContentFactory<fn(Context) -> T>>::new();
    fn make<T: All>(_: Context) -> T {
        T::make(WHICH.with(|w| w.get())).0
    }
    router.build().path("p").then().on_get(make::<T> as fn(Context) -> T);
    let routed = srv::instance(router);
    for i in 0..T::count() {
        sh.add_states(1);
        let (_, want) = T::make(i);
        WHICH.with(|w| w.set(i));
        let mut ask = |what: &str, before: u16, out: (Vec<u8>, wire::Served), extra: &[(&str, Option<&str>)]| {
            sh.trans(1);
            sh.trace();
            let d = format!("{} {} by {}, status before: {}", name, T::show(i), what, before);
            if let Closed::Panic(p) = out.1.closed {
                sh.violation(format!("{}:panic", what), format!("{}\n{}", d, p));
                return;
            }
            let mut parsed = wire::parse_all(&out.0, &[head]);
            if head && parsed.is_err() {
                // answered with the body, a known finding of C11
                parsed = wire::parse_all(&out.0, &[false]);
            } else if head {
                parsed = parsed.map(|mut r| {
                    r[0].body = want.body.clone();
                    r
                });
            }
            let r = match parsed {
                Ok(mut r) => r.pop().unwrap(),
                Err(e) => {
                    sh.violation(format!("{}:malformed", what), format!("{}\n{}", d, e));
                    return;
                }
            };
            let st = want.status.unwrap_or(before);
            if r.status != st {
                sh.violation(format!("{}:status", what), format!("{}\nexpected {}, got {}", d, st, r.status));
            }
            if r.body != want.body {
                sh.violation(format!("{}:body", what), format!("{}\nexpected {:?}, got {:?}", d, gen::esc(&want.body), gen::esc(&r.body)));
            }
            for (k, v) in extra {
                let st = st.to_string();
                let v = v.unwrap_or(&st);
                if r.one(k) != Some(v) {
                    sh.violation(format!("{}:header", what), format!("{}\n{} is {:?}, expected {:?}", d, k, r.one(k), v));
                }
            }
        };
        for before in BEFORES_ALL.with(|b| b.borrow().clone()) {
            BEFORE.with(|b| b.set(before));
            for (way, n) in [(0, "try_send"), (1, "send"), (2, "send_response")] {
                WAY.with(|w| w.set(way));
                ask(n, before, srv::talk(&plain, &get), &[("x-kept", Some("1"))]);
                ask(n, before, srv::talk(&mark, &get), &[("x-kept", Some("1")), ("x-status", None)]);
                if before == 201 && way != 1 && RESULT.with(|r| r.get()) != 1 {
                    ask("result", before, (vec![], wire::Served { requests: 1, closed: Closed::Panic("sending reported an error".into()) }), &[]);
                }
            }
        }
        ask("factory", 200, srv::talk(&factory, &get), &[]);
        if routable {
            ask("routed factory", 200, srv::talk(&routed, &get), &[]);
        }
        // failing to send: passed on or swallowed
        let none = want.status == Some(404) && want.body.is_empty();
        for (way, n) in [(0, "try_send"), (1, "send")] {
            WAY.with(|w| w.set(way));
            BEFORE.with(|b| b.set(200));
            RESULT.with(|r| r.set(9));
            let s = srv::talk(&abort, &get).1;
            let mut bad = vec![];
            if let Closed::Panic(p) = s.closed {
                bad.push(format!("aborting filter: {}", p));
            }
            if way == 0 && none && RESULT.with(|r| r.get()) == 1 {
                // listed finding: a missing value is answered by dropping the response
                sh.violation("missing-value:error-lost", format!("{} {}: the filter's abort was not passed on", name, T::show(i)));
            } else if way == 0 && RESULT.with(|r| r.get()) != 3 {
                bad.push("the filter's abort was not passed on as it is".into());
            }
            RESULT.with(|r| r.set(9));
            // no buffer between response and transport, so that the failure shows
            let mut headers = Headers::new();
            let mut out = MemOut::new();
            out.faults = vec![(0, wire::Fault::Fail(ErrorKind::BrokenPipe))];
            let r = catch(|| {
                let g = Default::default();
                let res = Response::new(hyper::server::Response::new(&mut out, &mut headers), &[], &g, false);
                if way == 0 {
                    matches!(res.try_send(T::make(i).0), Err(Error::Io(ref e)) if e.kind() == ErrorKind::BrokenPipe)
                } else {
                    res.send(T::make(i).0);
                    true
                }
            });
            match r {
                Ok(true) => {}
                Ok(false) if none => sh.violation("missing-value:error-lost", format!("{} {}: the transport's error was not passed on", name, T::show(i))),
                Ok(false) => bad.push("the transport's error was not passed on".into()),
                Err(p) => bad.push(format!("failing transport: {}", p)),
            }
            sh.trans(2);
            for b in bad {
                sh.violation(format!("{}:failing", n), format!("{} {}\n{}", name, T::show(i), b));
            }
        }
    }
}

// --- panicking handlers ----------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Before {
    Nothing,
    Status(u16),
    Header,
    Storage,
    ReadBody,
    Status2,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    Plain,
    Boxed,
    InCall,
    InFormat,
    Overflow,
    Unwrap,
    Index,
    InDrop,
    /// the handler catches it itself, the response having been moved into the panicking part
    Caught,
    WhileMakingData,
    NonString,
    DroppedContext,
    Resumed,
}
const BEFORES: [Before; 8] = [Before::Nothing, Before::Status(200), Before::Status(201), Before::Status(404), Before::Status(503), Before::Header, Before::Storage, Before::ReadBody];
const HOWS: [How; 13] = [
    How::Plain, How::Boxed, How::InCall, How::InFormat, How::Overflow, How::Unwrap, How::Index, How::InDrop, How::Caught, How::WhileMakingData, How::NonString, How::DroppedContext, How::Resumed,
];
thread_local!(static PANIC: Cell<(Before, Before, How)> = const { Cell::new((Before::Nothing, Before::Nothing, How::Plain)) });

struct Bomb;
impl Drop for Bomb {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            panic!("scripted panic in drop");
        }
    }
}
impl std::fmt::Display for Bomb {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        panic!("scripted panic in fmt")
    }
}
struct Late;
impl<'a> Into<Data<'a>> for Late {
    fn into(self) -> Data<'a> {
        panic!("scripted panic while making data")
    }
}

fn explode(mut c: Context, mut r: Response) {
    let (a, b, how) = PANIC.with(|p| p.get());
    for x in [a, b] {
        match x {
            Before::Nothing | Before::Status2 => {}
            Before::Status(s) => r.set_status(StatusCode::from_u16(s)),
            Before::Header => r.headers_mut().set_raw("x-kept", vec![b"1".to_vec()]),
            Before::Storage => {
                r.filter_storage_mut().insert(5u8);
            }
            Before::ReadBody => {
                use std::io::Read;
                let mut v = vec![];
                let _ = c.body.read_to_end(&mut v);
            }
        }
    }
    let zero = std::hint::black_box(0usize);
    match how {
        How::Plain => panic!("scripted panic"),
        How::Boxed => {
            let _b = Box::new((c, Some(r)));
            panic!("scripted panic")
        }
        How::InCall => {
            fn f(_: Response) {
                panic!("scripted panic")
            }
            f(r)
        }
        How::InFormat => r.send(format!("{}", std::mem::ManuallyDrop::new(Bomb).to_string())),
        How::Overflow => r.send((zero - 1).to_string()),
        How::Unwrap => r.send(c.query.get("missing").unwrap().into_owned()),
        How::Index => r.send([1u8][zero + 1].to_string()),
        How::InDrop => {
            let _r = r;
            let b = Bomb;
            drop(b);
        }
        How::Caught => {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _r = r;
                panic!("scripted panic")
            }));
        }
        How::WhileMakingData => r.send(Late),
        How::NonString => std::panic::panic_any(42u8),
        How::DroppedContext => {
            drop(c);
            panic!("scripted panic")
        }
        How::Resumed => {
            let _r = r;
            std::panic::resume_unwind(Box::new("scripted panic"))
        }
    }
}
struct Explode;
impl Handler for Explode {
    fn handle(&self, c: Context, r: Response) {
        explode(c, r)
    }
}
/// A low level handler, holding the whole environment.
struct LowLevel;
impl HandleRequest for LowLevel {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        explode(e.context, e.response);
        Ok(())
    }
    fn hyperlinks<'a>(&'a self, l: Link<'a>) -> Vec<Link<'a>> {
        vec![l]
    }
}
struct FilterPanic;
impl ContextFilter for FilterPanic {
    fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction {
        if c.headers.get_raw("x-filter-panic").is_some() {
            panic!("scripted panic in a context filter");
        }
        ContextAction::next()
    }
}

fn panics<R: HandleRequest + 'static>(sh: &mut Shard, kind: &str, r: R) {
    let mut c = srv::config(r);
    c.response_filters.push(Box::new(Mark));
    c.context_filters.push(Box::new(FilterPanic));
    let inst = c.build();
    for a in BEFORES {
        for b in BEFORES {
            for h in HOWS {
                for (req, body) in [(&b"GET /p HTTP/1.1\r\nHost: h\r\n\r\n"[..], false), (b"POST /p HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nhelloGET /p HTTP/1.1\r\n\r\n", true), (b"GET /p HTTP/1.1\r\nHost: h\r\nx-filter-panic: 1\r\n\r\n", false)] {
                    let _ = body;
                    PANIC.with(|p| p.set((a, b, h)));
                    sh.add_states(1);
                    sh.trans(1);
                    sh.trace();
                    let mut o = MemOut::new();
                    let s = wire::serve(&inst, &mut MemIn::new(req), &mut o, true);
                    let d = || format!("{}: {:?}, {:?}, panic {:?}", kind, a, b, h);
                    let by_filter = gen::esc(req).contains("x-filter");
                    let escapes = by_filter || h != How::Caught;
                    if escapes != matches!(s.closed, Closed::Panic(_)) {
                        sh.violation("panic:outcome", format!("{}\n{:?}", d(), s));
                        continue;
                    }
                    let out = o.bytes();
                    let mut pos = 0;
                    match wire::parse_response(&out, &mut pos, false) {
                        Ok(r) => {
                            if r.status != 500 {
                                sh.violation("panic:status", format!("{}\nstatus {}", d(), r.status));
                            }
                            if !r.body.is_empty() {
                                sh.violation("panic:body", format!("{}\nbody {:?}", d(), gen::esc(&r.body)));
                            }
                            let kept = !by_filter && [a, b].contains(&Before::Header);
                            if kept != (r.one("x-kept") == Some("1")) {
                                sh.violation("panic:headers", format!("{}\n{:?}", d(), r.headers));
                            }
                        }
                        Err(e) => sh.violation("panic:malformed", format!("{}\n{}", d(), e)),
                    }
                    if escapes && pos != out.len() {
                        sh.violation("panic:extra", format!("{}\n{:?}", d(), gen::esc(&out[pos..])));
                    }
                }
            }
        }
    }
}

type S = &'static str;
type V = Vec<u8>;
type E = io::Error;
type O<T> = Option<T>;
type R<T, U> = Result<T, U>;

type Check = (&'static str, fn(&mut Shard, &str));
macro_rules! list {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), values::<$t> as fn(&mut Shard, &str))),*] };
}
// every type of depth one over text, bytes and I/O errors
macro_rules! with_depth1 {
    ($m:ident $($pre:tt)*) => { $m!($($pre)* ; S, V, E, O<S>, O<V>, O<E>, R<S, S>, R<S, V>, R<S, E>, R<V, S>, R<V, V>, R<V, E>, R<E, S>, R<E, V>, R<E, E>) };
}
macro_rules! opt_of {
    (; $($t:ty),*) => { list!($(O<$t>),*) };
}
macro_rules! ok_of {
    ($x:ty ; $($t:ty),*) => { list!($(R<$t, $x>),*) };
}
fn types() -> Vec<Check> {
    let mut v: Vec<Check> = list!(S, V, E, String, &'static [u8], O<String>, O<&'static [u8]>, R<String, &'static [u8]>, R<&'static [u8], String>, R<String, E>);
    v.extend(with_depth1!(opt_of));
    v.extend(with_depth1!(ok_of S));
    v.extend(with_depth1!(ok_of V));
    v.extend(with_depth1!(ok_of E));
    v.extend(with_depth1!(ok_of O<S>));
    v.extend(with_depth1!(ok_of O<V>));
    v.extend(with_depth1!(ok_of O<E>));
    v.extend(with_depth1!(ok_of R<S, S>));
    v.extend(with_depth1!(ok_of R<S, E>));
    v.extend(with_depth1!(ok_of R<E, S>));
    v.extend(with_depth1!(ok_of R<E, E>));
    // and a selection of deeper ones
    v.extend(list!(
        O<O<O<S>>>, O<O<R<S, E>>>, O<R<O<S>, E>>, O<R<O<E>, O<E>>>, R<O<O<S>>, O<O<E>>>, R<R<R<S, E>, E>, E>, R<S, R<S, R<S, E>>>, R<O<R<S, E>>, O<R<S, E>>>,
        R<R<O<S>, O<E>>, R<O<E>, O<S>>>, O<O<O<O<S>>>>, R<R<R<R<S, S>, E>, O<S>>, O<E>>, O<R<R<S, O<E>>, O<R<E, S>>>>
    ));
    v
}

fn main() {
    check_main(
        "C13",
        Level::ModelChecking,
        "every nesting of Result and Option over text, bytes and I/O errors up to depth two (and a selection up to depth four), every value of each type (all I/O error kinds), every initial status x way of sending x failure; every panicking handler x earlier operations",
        |ctx| {
            ctx.assume("an Err or Some holding a further Result or Option means what that further value means");
            ctx.assume("a panic after the response was sent, or after a streaming response was started, cannot change the status any more");
            let ts = types();
            ctx.par("values", ts.len(), |i, sh| {
                sh.sample(|| ts[i].0.to_string());
                (ts[i].1)(sh, ts[i].0)
            });
            // data and messages of every size
            let lens = gen::ladder(ctx.pick(70_000, 1_100_000));
            let big: Vec<Check> = list!(Big, O<Big>, R<Big, S>, R<S, Big>, R<O<Big>, E>, R<S, R<S, Big>>);
            ctx.par("sizes", big.len() * lens.len(), |i, sh| {
                SIZES.with(|s| *s.borrow_mut() = vec![lens[i / big.len()]]);
                (big[i % big.len()].1)(sh, big[i % big.len()].0)
            });
            // and made of what the code mentions
            let words = dict::forms();
            ctx.par("words", big.len() * words.len().div_ceil(16), |i, sh| {
                DATA.with(|d| *d.borrow_mut() = words.chunks(16).nth(i / big.len()).unwrap().to_vec());
                SIZES.with(|s| s.borrow_mut().clear());
                (big[i % big.len()].1)(sh, big[i % big.len()].0);
                DATA.with(|d| d.borrow_mut().clear());
            });
            let messages: Vec<&'static str> = dict::texts().into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect();
            let errors: Vec<Check> = list!(E, R<S, E>, O<E>);
            let before = || BEFORES_ALL.with(|b| b.borrow().clone());
            ctx.par("messages", errors.len() * messages.len(), |i, sh| {
                let all = before();
                BEFORES_ALL.with(|b| b.borrow_mut().truncate(1));
                MESSAGE.with(|m| m.set(messages[i / errors.len()]));
                (errors[i % errors.len()].1)(sh, errors[i % errors.len()].0);
                MESSAGE.with(|m| m.set("message"));
                BEFORES_ALL.with(|b| *b.borrow_mut() = all);
            });
            // whatever the status was before
            let few: Vec<Check> = list!(S, O<S>, R<S, S>, R<O<S>, E>, R<E, O<E>>);
            let all: Vec<u16> = (200..600).filter(|s| ![204, 304].contains(s)).collect();
            ctx.par("statuses", few.len() * all.len().div_ceil(8), |i, sh| {
                let part = all.chunks(8).nth(i / few.len()).unwrap().to_vec();
                let before = BEFORES_ALL.with(|b| std::mem::replace(&mut *b.borrow_mut(), part));
                (few[i % few.len()].1)(sh, few[i % few.len()].0);
                BEFORES_ALL.with(|b| *b.borrow_mut() = before);
            });
            // whatever is asked for
            let methods = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "get"];
            let heads = [
                "", "Accept: application/json\r\n", "Accept: image/png;q=0\r\n", "Accept-Encoding: gzip\r\n", "If-None-Match: *\r\n", "If-Match: \"x\"\r\n", "If-Modified-Since: Sun, 06 Nov 2094 08:49:37 GMT\r\n", "Range: bytes=0-0\r\n",
                "Connection: close\r\n", "Connection: keep-alive\r\n", "TE: chunked\r\n", "Prefer: return=minimal\r\n", "X-Requested-With: XMLHttpRequest\r\n", "Content-Length: 3\r\n", "Cache-Control: no-store\r\n", "User-Agent: curl/8\r\n",
            ];
            let few: Vec<Check> = list!(S, O<S>, R<S, S>, R<O<S>, E>, R<E, O<E>>, E, O<R<S, E>>, R<S, O<E>>);
            ctx.par("requests", few.len() * methods.len() * heads.len() * 2, |i, sh| {
                let mut d = gen::Digits(i);
                let (t, m, h, v) = (d.take(few.len()), methods[d.take(methods.len())], heads[d.take(heads.len())], ["1.1", "1.0"][d.take(2)]);
                let target = "/p";
                let body = if h.starts_with("Content-Length") { "abc" } else { "" };
                let text = format!("{} {} HTTP/{}\r\nHost: h\r\n{}\r\n{}", m, target, v, h, body);
                REQUEST.with(|r| *r.borrow_mut() = Some((text.into_bytes(), m == "HEAD", m == "GET")));
                (few[t].1)(sh, few[t].0);
                REQUEST.with(|r| *r.borrow_mut() = None);
            });
            let lines = dict::heads();
            let other = dict::methods();
            ctx.par("heads", few.len() * (lines.len() * 2 + other.len()), |i, sh| {
                let (t, k) = (i % few.len(), i / few.len());
                let (m, h) = if k < lines.len() * 2 { (["GET", "POST"][k % 2], &lines[k / 2][..]) } else { (&other[k - lines.len() * 2][..], "") };
                let text = format!("{} /p HTTP/1.1\r\nHost: h\r\n{}\r\n", m, h);
                REQUEST.with(|r| *r.borrow_mut() = Some((text.into_bytes(), false, m == "GET")));
                (few[t].1)(sh, few[t].0);
                REQUEST.with(|r| *r.borrow_mut() = None);
            });
            ctx.par("panics", 4, |i, sh| match i {
                0 => panics(sh, "handler", Explode),
                1 => {
                    let mut r = DefaultRouter::<Explode>::new();
                    r.build().path("*").then().on(rustful::Method::Get, Explode);
                    r.build().path("*").then().on(rustful::Method::Post, Explode);
                    panics(sh, "routed handler", r)
                }
                2 => panics(sh, "low level handler", LowLevel),
                _ => panics(sh, "boxed handler", Box::new(Explode) as Box<dyn Handler>),
            });
        },
    )
}
