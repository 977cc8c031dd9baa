//! C09: context filters run in order and can stop a request.
use mc::gen::*;
use mc::wire::Closed;
use mc::*;
use rustful::context::UriPath;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::handler::{HandleRequest, MethodRouter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::ServerInstance;
use rustful::{Context, DefaultRouter, Handler, Method, Response, StatusCode};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    Pass,
    Store,
    Clear,
    Path,
    MethodPost,
    Query,
    Header,
    Var,
    Star,
    Abort(u16),
    StoreAbort(u16),
}
const ACTS: [Act; 13] = [
    Act::Pass,
    Act::Store,
    Act::Clear,
    Act::Path,
    Act::MethodPost,
    Act::Query,
    Act::Header,
    Act::Var,
    Act::Star,
    Act::Abort(403),
    Act::Abort(200),
    Act::StoreAbort(500),
    Act::Abort(404),
];

/// What any of the parties can see of a request.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct View {
    method: String,
    path: Option<String>,
    query: Option<String>,
    header: Option<String>,
    var: Option<String>,
    store: Option<Vec<usize>>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Filter(usize, View),
    Handler(&'static str, View),
    Begin(usize, u16, Option<Vec<usize>>),
    Write(usize, Option<Vec<usize>>),
    End(usize, Option<Vec<usize>>),
}
#[derive(Clone, Debug, Default)]
struct Store(Vec<usize>);

thread_local! {
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) };
    static MODE: Cell<usize> = const { Cell::new(0) };
}
fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e));
}
fn view(c: &Context, store: Option<&Store>) -> View {
    View {
        method: c.method.to_string(),
        path: c.uri_path.as_path().map(|p| String::from_utf8_lossy(&p[..]).into_owned()),
        query: c.query.get("q").map(|s| s.into_owned()),
        header: c.headers.get_raw("x-f").map(|h| String::from_utf8_lossy(&h.iter().map(|l| l.to_vec()).collect::<Vec<_>>().join(&b'|')).into_owned()),
        var: c.variables.get("v").map(|s| s.into_owned()),
        store: store.map(|s| s.0.clone()),
    }
}

struct F(usize, Act);
impl ContextFilter for F {
    fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
        log(Ev::Filter(self.0, view(c, f.storage.get::<Store>())));
        let st = |u| StatusCode::from_u16(u);
        match self.1 {
            Act::Pass => {}
            Act::Store => f.storage.entry::<Store>().or_insert_with(Default::default).0.push(self.0),
            Act::Clear => {
                f.storage.remove::<Store>();
            }
            Act::Path => c.uri_path = UriPath::Path("/other".to_string().into()),
            Act::MethodPost => c.method = Method::Post,
            Act::Query => {
                c.query.insert("q", format!("q{}", self.0));
            }
            Act::Header => {
                let old = c.headers.get_raw("x-f").map(|h| String::from_utf8_lossy(&h[0]).into_owned()).unwrap_or_default();
                c.headers.set_raw("x-f", vec![format!("{}{}", old, self.0).into_bytes()]);
            }
            Act::Var => {
                c.variables.insert("v", format!("v{}", self.0));
            }
            Act::Star => c.uri_path = UriPath::Asterisk,
            Act::Abort(s) => return ContextAction::abort(st(s)),
            Act::StoreAbort(s) => {
                f.storage.entry::<Store>().or_insert_with(Default::default).0.push(self.0);
                return ContextAction::abort(st(s));
            }
        }
        ContextAction::next()
    }
}

/// Writes down the storage and adds to it.
struct R(usize);
impl ResponseFilter for R {
    fn begin(&self, f: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        log(Ev::Begin(self.0, s.to_u16(), f.storage.get::<Store>().map(|s| s.0.clone())));
        h.set_raw("x-store", vec![format!("{:?}", f.storage.get::<Store>().map(|s| s.0.clone())).into_bytes()]);
        f.storage.entry::<Store>().or_insert_with(Default::default).0.push(70 + self.0);
        (s, ResponseAction::next(None::<&str>))
    }
    fn write<'a>(&'a self, f: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        // whether an empty body is offered to the filters is left open
        if c.as_ref().map_or(false, |c| !c.as_bytes().is_empty()) {
            log(Ev::Write(self.0, f.storage.get::<Store>().map(|s| s.0.clone())));
        }
        ResponseAction::next(c)
    }
    fn end(&self, f: FilterContext) -> ResponseAction {
        log(Ev::End(self.0, f.storage.get::<Store>().map(|s| s.0.clone())));
        ResponseAction::next(None::<&str>)
    }
}

struct H(&'static str);
impl Handler for H {
    fn handle(&self, c: Context, mut r: Response) {
        log(Ev::Handler(self.0, view(&c, r.filter_storage().get::<Store>())));
        match MODE.with(|m| m.get()) {
            0 => r.send(self.0),
            1 => {
                let mut ch = r.into_chunked();
                ch.filter_storage_mut().entry::<Store>().or_insert_with(Default::default).0.push(91);
                let _ = ch.try_send(self.0);
            }
            2 => {}
            _ => {
                r.filter_storage_mut().entry::<Store>().or_insert_with(Default::default).0.push(90);
                r.send(self.0)
            }
        }
    }
}

fn router() -> DefaultRouter<H> {
    let mut r = DefaultRouter::<H>::new();
    r.build().path("/a").then().on(Method::Get, H("get a"));
    r.build().path("/a").then().on(Method::Post, H("post a"));
    r.build().path("/other").then().on(Method::Get, H("get other"));
    r
}

struct Expect {
    log: Vec<Ev>,
    status: u16,
    body: &'static str,
    store_header: String,
}

/// The documented meaning of a list of context filters.
fn model(acts: &[Act], responses: usize, routed: bool, mode: usize, method: &str, target: Option<&str>, sent_header: Option<&str>) -> Expect {
    let mut log = vec![];
    let mut v = View { method: method.into(), path: target.map(|t| t.into()), header: sent_header.map(|s| s.into()), ..View::default() };
    let mut abort = None;
    for (i, a) in acts.iter().enumerate() {
        log.push(Ev::Filter(i, v.clone()));
        match *a {
            Act::Pass => {}
            Act::Store => v.store.get_or_insert(vec![]).push(i),
            Act::Clear => v.store = None,
            Act::Path => v.path = Some("/other".into()),
            Act::MethodPost => v.method = "POST".into(),
            Act::Query => v.query = Some(format!("q{}", i)),
            Act::Header => v.header = Some(format!("{}{}", v.header.unwrap_or_default(), i)),
            Act::Var => v.var = Some(format!("v{}", i)),
            Act::Star => v.path = None,
            Act::Abort(s) => abort = Some(s),
            Act::StoreAbort(s) => {
                v.store.get_or_insert(vec![]).push(i);
                abort = Some(s)
            }
        }
        if abort.is_some() {
            break;
        }
    }
    let (status, id) = match (abort, v.path.as_ref().map(|p| &p[..]), &v.method[..]) {
        (Some(s), _, _) => (s, None),
        (_, None, _) => (200, None),
        (_, Some(_), _) if !routed => (200, Some("any")),
        (_, Some("/a"), "GET") => (200, Some("get a")),
        (_, Some("/a"), "POST") => (200, Some("post a")),
        (_, Some("/other"), "GET") => (200, Some("get other")),
        (_, Some("/a"), _) | (_, Some("/other"), _) => (405, None),
        _ => (404, None),
    };
    if let Some(id) = id {
        let mut hv = v.clone();
        if routed {
            hv.var = None; // the router sets the variables of its own route
        }
        log.push(Ev::Handler(id, hv));
    }
    let mut store = v.store;
    if id.is_some() && mode == 3 {
        store.get_or_insert(vec![]).push(90);
    }
    let mut store_header = String::new();
    for i in 0..responses {
        log.push(Ev::Begin(i, status, store.clone()));
        store_header = format!("{:?}", store);
        store.get_or_insert(vec![]).push(70 + i);
    }
    if id.is_some() && mode == 1 {
        store.get_or_insert(vec![]).push(91);
    }
    if id.is_some() && mode != 2 {
        for i in 0..responses {
            log.push(Ev::Write(i, store.clone()));
        }
    }
    for i in (0..responses).rev() {
        log.push(Ev::End(i, store.clone()));
    }
    Expect { log, status, body: if mode == 2 { "" } else { id.unwrap_or("") }, store_header }
}

const REQS: [(&str, Option<&str>, Option<&str>); 6] = [
    ("GET", Some("/a"), None),
    ("POST", Some("/a"), Some("7")),
    ("PUT", Some("/a"), None),
    ("GET", Some("/other"), None),
    ("GET", Some("/none"), None),
    ("OPTIONS", None, Some("8")),
];

/// A request, as it should be seen, and what else its head says.
#[derive(Clone, Debug)]
struct Req {
    method: String,
    path: Option<String>,
    encoded: String,
    header: Option<String>,
    line: String,
}
impl Req {
    fn of(i: usize) -> Req {
        let (m, t, h) = REQS[i];
        Req { method: m.into(), path: t.map(|t| t.into()), encoded: t.unwrap_or("*").into(), header: h.map(|h| h.into()), line: String::new() }
    }
    fn wire(&self) -> Vec<u8> {
        format!("{} {} HTTP/1.1\r\nHost: h\r\n{}{}\r\n", self.method, self.encoded, self.header.as_ref().map(|h| format!("X-F: {}\r\n", h)).unwrap_or_default(), self.line).into_bytes()
    }
}

enum Inst {
    Plain(ServerInstance<H>),
    Routed(ServerInstance<DefaultRouter<H>>),
}
fn instance(acts: &[Act], responses: usize, routed: bool) -> Inst {
    fn fill<T: HandleRequest>(mut c: rustful::Server<T>, acts: &[Act], responses: usize) -> ServerInstance<T> {
        for (i, a) in acts.iter().enumerate() {
            c.context_filters.push(Box::new(F(i, *a)));
        }
        for i in 0..responses {
            c.response_filters.push(Box::new(R(i)));
        }
        c.build()
    }
    if routed {
        Inst::Routed(fill(srv::config(router()), acts, responses))
    } else {
        Inst::Plain(fill(srv::config(H("any")), acts, responses))
    }
}

fn run(sh: &mut Shard, inst: &Inst, acts: &[Act], responses: usize, routed: bool, mode: usize, reqs: &[usize]) {
    let reqs: Vec<Req> = reqs.iter().map(|&r| Req::of(r)).collect();
    run_all(sh, inst, acts, responses, routed, mode, &reqs)
}
fn run_all(sh: &mut Shard, inst: &Inst, acts: &[Act], responses: usize, routed: bool, mode: usize, reqs: &[Req]) {
    MODE.with(|m| m.set(mode));
    LOG.with(|l| l.borrow_mut().clear());
    let input: Vec<u8> = reqs.iter().flat_map(|r| r.wire()).collect();
    let (out, served) = match inst {
        Inst::Plain(i) => srv::talk(i, &input),
        Inst::Routed(i) => srv::talk(i, &input),
    };
    sh.trans(reqs.len() as u64);
    sh.trace();
    let got = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let exp: Vec<Expect> = reqs.iter().map(|r| model(acts, responses, routed, mode, &r.method, r.path.as_ref().map(|p| &p[..]), r.header.as_ref().map(|h| &h[..]))).collect();
    let want: Vec<Ev> = exp.iter().flat_map(|e| e.log.clone()).collect();
    let d = || format!("context filters {:?}, {} response filters, {}, mode {}, requests {:?}", acts, responses, if routed { "routed" } else { "one handler" }, mode, reqs);
    if let Closed::Panic(ref p) = served.closed {
        sh.violation(format!("panic:{}", norm(p)), format!("{}\n{}", d(), p));
        return;
    }
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let kind = |e: Option<&Ev>| match e {
            None => "nothing",
            Some(Ev::Filter(..)) => "filter",
            Some(Ev::Handler(..)) => "handler",
            Some(Ev::Begin(..)) => "begin",
            Some(Ev::Write(..)) => "write",
            Some(Ev::End(..)) => "end",
        };
        sh.violation(
            format!("order:{}-instead-of-{}", kind(got.get(i)), kind(want.get(i))),
            format!("{}\nstep {} expected {:?}\ngot {:?}\nall: {:?}", d(), i, want.get(i), got.get(i), got),
        );
        return;
    }
    match wire::parse_all(&out, &vec![false; reqs.len()]) {
        Err(e) => sh.violation("response", format!("{}\n{} in {:?}", d(), e, esc(&out))),
        Ok(rs) => {
            for (r, e) in rs.iter().zip(&exp) {
                if r.status != e.status {
                    sh.violation("status", format!("{}\nexpected {}, got {}", d(), e.status, r.status));
                } else if r.body != e.body.as_bytes() {
                    sh.violation("body", format!("{}\nexpected {:?}, got {:?}", d(), e.body, esc(&r.body)));
                } else if responses > 0 && r.one("x-store") != Some(&e.store_header) {
                    sh.violation("response filter header", format!("{}\nexpected {:?}, got {:?}", d(), e.store_header, r.all("x-store")));
                }
            }
        }
    }
}

fn main() {
    check_main(
        "C09",
        Level::ModelChecking,
        "every list of context filters over the behaviours up to the bound x requests x response filters x response kinds, in histories of up to three requests on one connection and one instance; state = one (filter list, request)",
        |ctx| {
            ctx.assume("route variables set by a context filter are replaced by a Variables router (checked without a router only)");
            let k = ACTS.len();
            let max = ctx.pick(4, 5);
            ctx.par("lists", strings_upto(k, max), |i, sh| {
                let acts: Vec<Act> = string_at(k, i).iter().map(|&a| ACTS[a]).collect();
                let deep = acts.len() >= 4;
                for routed in [false, true] {
                    for responses in if deep { vec![1] } else { vec![0, 1, 2] } {
                        let inst = instance(&acts, responses, routed);
                        for mode in if deep { 0..1 } else { 0..4 } {
                            for r in 0..REQS.len() {
                                sh.state(&(&acts, r));
                                run(sh, &inst, &acts, responses, routed, mode, &[r]);
                            }
                        }
                    }
                }
                if acts.len() == 3 {
                    sh.sample(|| format!("{:?}: {:?}", acts, model(&acts, 1, true, 0, "GET", Some("/a"), None).log));
                }
            });
            // long lists: something done by one filter among many, and a filter that aborts (or none)
            let kinds = ACTS.len() - 1;
            let top = ctx.pick(70, 140);
            ctx.par("many", top * kinds, |i, sh| {
                let (n, kind) = (1 + i / kinds, ACTS[1 + i % kinds]);
                let spots = [0, n / 2, n - 1];
                let base = |j: usize| if j % 3 == 1 { Act::Store } else { Act::Pass };
                for &at in &spots {
                    for abort in [None, Some(0), Some(n / 2), Some(n - 1)] {
                        let acts: Vec<Act> = (0..n).map(|j| if j == at { kind } else if Some(j) == abort { Act::Abort(403) } else { base(j) }).collect();
                        sh.state(&acts);
                        for routed in [false, true] {
                            let inst = instance(&acts, 1, routed);
                            run(sh, &inst, &acts, 1, routed, 0, &[0]);
                            run(sh, &inst, &acts, 1, routed, 0, &[4, 0]);
                        }
                    }
                }
                // as many response filters
                let acts: Vec<Act> = (0..n).map(|j| if j == n - 1 { kind } else { base(j) }).collect();
                let inst = instance(&acts, n, true);
                for mode in 0..4 {
                    run(sh, &inst, &acts, n, true, mode, &[0, 1]);
                }
            });
            // many requests, one after the other
            ctx.par("series", ctx.pick(60, 120) * kinds, |i, sh| {
                let (n, kind) = (2 + i / kinds, ACTS[1 + i % kinds]);
                let acts = [Act::Store, kind, Act::Header, Act::Pass];
                for routed in [false, true] {
                    let inst = instance(&acts, 1, routed);
                    let reqs: Vec<usize> = (0..n).map(|j| (j * j + i) % REQS.len()).collect();
                    run(sh, &inst, &acts, 1, routed, n % 4, &reqs);
                }
            });
            // every status
            let statuses: Vec<u16> = (200..600).filter(|s| ![204, 205, 304].contains(s)).collect();
            ctx.par("statuses", statuses.len() * 2, |i, sh| {
                let act = [Act::Abort(statuses[i / 2]), Act::StoreAbort(statuses[i / 2])][i % 2];
                for acts in [vec![act], vec![Act::Store, act, Act::Store], vec![Act::Header, Act::Pass, act], vec![act, act], vec![Act::Star, act]] {
                    for routed in [false, true] {
                        for responses in 0..3 {
                            let inst = instance(&acts, responses, routed);
                            sh.state(&acts);
                            for reqs in [[0, 4], [5, 1], [2, 3]] {
                                run(sh, &inst, &acts, responses, routed, 0, &reqs);
                            }
                        }
                    }
                }
            });
            // other lines of the head, other methods, and other paths and values
            let lines: Vec<String> = dict::heads().into_iter().filter(|l| !l.starts_with("Connection: close") && !l.starts_with("Connection: x-a")).collect();
            let names = dict::methods();
            let words = dict::forms();
            let values = dict::values();
            let lists: Vec<Vec<Act>> = (0..strings_upto(k, 1)).map(|i| string_at(k, i).iter().map(|&a| ACTS[a]).collect()).chain([vec![Act::Store, Act::Header, Act::Abort(403), Act::Store], vec![Act::Store, Act::Path, Act::Store], vec![Act::MethodPost, Act::StoreAbort(500)]]).collect();
            let total = lines.len() + names.len() + words.len() + values.len();
            ctx.par("requests", total * lists.len(), |i, sh| {
                let (mut at, acts) = (i / lists.len(), &lists[i % lists.len()]);
                let mut reqs = vec![];
                if at < lines.len() {
                    for r in 0..REQS.len() {
                        reqs.push(Req { line: lines[at].clone(), ..Req::of(r) });
                    }
                } else {
                    at -= lines.len();
                    if at < names.len() {
                        for r in 0..REQS.len() - 1 {
                            reqs.push(Req { method: names[at].clone(), ..Req::of(r) });
                        }
                    } else if at < names.len() + words.len() {
                        let w = &words[at - names.len()];
                        for r in 0..2 {
                            for pre in ["/", "/a/"] {
                                let path = format!("{}{}", pre, String::from_utf8_lossy(w));
                                if path != "/a" && path != "/other" && path != "/" && path != "/a/" {
                                    reqs.push(Req { path: Some(path), encoded: format!("{}{}", pre, dict::encoded(w)), ..Req::of(r) });
                                }
                            }
                        }
                        // trailing and leading slashes are for C06 and C01 to judge
                        if w.contains(&b'/') || w.is_empty() {
                            return;
                        }
                    } else {
                        for r in 0..REQS.len() {
                            reqs.push(Req { header: Some(values[at - names.len() - words.len()].clone()), ..Req::of(r) });
                        }
                    }
                }
                sh.state(&i);
                for routed in [false, true] {
                    let inst = instance(acts, 1, routed);
                    run_all(sh, &inst, acts, 1, routed, 0, &reqs);
                    for r in &reqs {
                        run_all(sh, &inst, acts, 1, routed, 1, &[r.clone(), Req::of(0)]);
                    }
                }
            });
            ctx.par("histories", strings_upto(k, ctx.pick(2, 3)), |i, sh| {
                let acts: Vec<Act> = string_at(k, i).iter().map(|&a| ACTS[a]).collect();
                for routed in [false, true] {
                    let inst = instance(&acts, 2, routed);
                    for mode in 0..4 {
                        for h in 0..REQS.len() * REQS.len() * REQS.len() {
                            let mut d = Digits(h);
                            let reqs = [d.take(6), d.take(6), d.take(6)];
                            run(sh, &inst, &acts, 2, routed, mode, &reqs);
                        }
                    }
                }
            });
        },
    )
}
