//! Reference model of path routing (written from the documentation, not from the code), and a
//! driver that runs one request against a real router.
use rustful::context::hypermedia::SegmentType;
use rustful::handler::routing::RouteState;
use rustful::handler::{Environment, HandleRequest};
use rustful::server::Global;
use rustful::{Context, Handler, Method, Response, StatusCode};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub type Seg = Vec<u8>;

/// One leading and one trailing slash make no difference; the rest is split at slashes.
pub fn segments(p: &[u8]) -> Vec<Seg> {
    let p = p.strip_prefix(b"/").unwrap_or(p);
    let p = p.strip_suffix(b"/").unwrap_or(p);
    if p.is_empty() {
        vec![]
    } else {
        p.split(|&c| c == b'/').map(|s| s.to_vec()).collect()
    }
}

/// A handler as the model sees it: its number and the labels on its route.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MHandler {
    pub id: usize,
    pub names: Vec<Seg>,
}

#[derive(Clone, Debug, Default)]
pub struct Node {
    pub stat: BTreeMap<Seg, Node>,
    pub var: Option<Box<Node>>,
    pub seq: Option<Box<Node>>,
    /// by method name
    pub handlers: BTreeMap<String, MHandler>,
    /// The labels on the path that first created this node.
    pub made_as: Vec<Seg>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Match {
    /// Position of the node in the tree.
    pub place: Vec<Seg>,
    /// One entry per variable on the way: its matched segments joined by '/'.
    pub values: Vec<Seg>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expect {
    Handler { id: usize, place: Vec<Seg>, vars: Vec<(Seg, Vec<Seg>)> },
    /// No handler runs; one of these statuses.
    Reject(Vec<u16>),
}

impl Node {
    pub fn at_mut(&mut self, path: &[u8]) -> &mut Node {
        let mut n = self;
        let mut names: Vec<Seg> = vec![];
        for s in segments(path) {
            let kind = s.first().cloned();
            if kind == Some(b':') || kind == Some(b'*') {
                names.push(s[1..].to_vec());
            }
            let fresh = || Node { made_as: names.clone(), ..Node::default() };
            n = match kind {
                Some(b':') => n.var.get_or_insert_with(|| Box::new(fresh())),
                Some(b'*') => n.seq.get_or_insert_with(|| Box::new(fresh())),
                _ => n.stat.entry(s).or_insert_with(fresh),
            };
        }
        n
    }
    pub fn at(&self, path: &[u8]) -> Option<&Node> {
        let mut n = self;
        for s in segments(path) {
            n = match s.first() {
                Some(b':') => n.var.as_deref()?,
                Some(b'*') => n.seq.as_deref()?,
                _ => n.stat.get(&s)?,
            };
        }
        Some(n)
    }
    pub fn add(&mut self, method: &str, path: &[u8], id: usize) {
        let names = labels(path);
        self.at_mut(path).handlers.insert(method.to_string(), MHandler { id, names });
    }

    /// Every way the segments match, most specific first.
    pub fn matches(&self, segs: &[Seg]) -> Vec<(Match, &Node)> {
        let mut out = vec![];
        self.rec(segs, 0, &mut vec![], &mut vec![], &mut out);
        out
    }
    /// The length of the longest route below, if no sequence is.
    fn depth(&self) -> Option<usize> {
        if self.seq.is_some() {
            return None;
        }
        self.stat.values().chain(self.var.iter().map(|n| &**n)).try_fold(0, |m, n| n.depth().map(|d| m.max(d + 1)))
    }
    fn rec<'n>(&'n self, segs: &[Seg], i: usize, place: &mut Vec<Seg>, values: &mut Vec<Seg>, out: &mut Vec<(Match, &'n Node)>) {
        if i == segs.len() {
            out.push((Match { place: place.clone(), values: values.clone() }, self));
            return;
        }
        if let Some(n) = self.stat.get(&segs[i]) {
            place.push(segs[i].clone());
            n.rec(segs, i + 1, place, values, out);
            place.pop();
        }
        if let Some(ref n) = self.var {
            place.push(b":".to_vec());
            values.push(segs[i].clone());
            n.rec(segs, i + 1, place, values, out);
            values.pop();
            place.pop();
        }
        if let Some(ref n) = self.seq {
            place.push(b"*".to_vec());
            // what is left for the places below is at most as long as they are
            let left = segs.len() - i;
            for k in n.depth().map_or(1, |d| left.saturating_sub(d).max(1))..=left {
                values.push(segs[i..i + k].join(&b'/'));
                n.rec(segs, i + k, place, values, out);
                values.pop();
            }
            place.pop();
        }
    }

    /// What a request must result in.
    pub fn resolve(&self, method: &str, path: &[u8]) -> Expect {
        let ms = self.matches(&segments(path));
        for (m, n) in &ms {
            if let Some(h) = n.handlers.get(method) {
                return Expect::Handler { id: h.id, place: m.place.clone(), vars: vars_of(&h.names, &m.values) };
            }
        }
        Expect::Reject(if ms.iter().any(|(_, n)| !n.handlers.is_empty()) {
            vec![405]
        } else if ms.is_empty() {
            vec![404]
        } else {
            vec![404, 405]
        })
    }

    /// The links for a handled request: (method, path segment label and kind).
    pub fn links(&self, method: &str, path: &[u8]) -> Vec<LinkV> {
        let mut set = BTreeSet::new();
        for (_, n) in self.matches(&segments(path)) {
            for m in n.handlers.keys() {
                if m != method {
                    set.insert((Some(m.clone()), vec![]));
                }
            }
            for s in n.stat.keys() {
                set.insert((None, vec![(s.clone(), 0)]));
            }
            if n.var.is_some() {
                set.insert((None, vec![(vec![], 1)]));
            }
            if n.seq.is_some() {
                set.insert((None, vec![(vec![], 2)]));
            }
        }
        set.into_iter().collect()
    }
}

/// (method, [(label, 0 static | 1 variable | 2 sequence)])
pub type LinkV = (Option<String>, Vec<(Seg, u8)>);

pub fn labels(path: &[u8]) -> Vec<Seg> {
    segments(path).into_iter().filter(|s| matches!(s.first(), Some(b':') | Some(b'*'))).map(|s| s[1..].to_vec()).collect()
}

/// Named values, each name with every value it may have (several when a name is repeated in one
/// pattern, which leaves the choice open).
pub fn vars_of(names: &[Seg], values: &[Seg]) -> Vec<(Seg, Vec<Seg>)> {
    let mut m: BTreeMap<Seg, Vec<Seg>> = BTreeMap::new();
    for (n, v) in names.iter().zip(values) {
        if !n.is_empty() {
            m.entry(n.clone()).or_default().push(v.clone());
        }
    }
    m.into_iter().collect()
}

pub fn vars_ok(expected: &[(Seg, Vec<Seg>)], got: &[(Seg, Seg)]) -> bool {
    expected.len() == got.len() && expected.iter().zip(got).all(|(e, g)| e.0 == g.0 && e.1.contains(&g.1))
}

// ---------------------------------------------------------------------------------------------

/// What a handler saw.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Ran {
    pub id: usize,
    pub status: u16,
    pub vars: Vec<(Seg, Seg)>,
    pub links: Vec<LinkV>,
    /// for every method link, the description of the handler it points at
    pub link_handlers: Vec<(String, Option<String>)>,
    /// every link with a handler, and its description
    pub linked: Vec<(LinkV, Option<String>)>,
    pub method: String,
    pub path: Option<Seg>,
    pub query: Vec<(Seg, Seg)>,
    pub fragment: Option<Seg>,
    pub headers: String,
    /// the version and the address of the client
    pub client: String,
}

thread_local! {
    pub static RAN: RefCell<Vec<Ran>> = const { RefCell::new(vec![]) };
    pub static DEEP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn sorted(p: &rustful::context::Parameters) -> Vec<(Seg, Seg)> {
    let mut v: Vec<(Seg, Seg)> = p.iter().map(|(k, v)| (k[..].to_vec(), v[..].to_vec())).collect();
    v.sort();
    v
}

pub fn link_views(c: &Context) -> Vec<LinkV> {
    c.hyperlinks
        .iter()
        .map(|l| {
            (
                l.method.as_ref().map(|m| m.to_string()),
                l.path
                    .iter()
                    .map(|s| {
                        (
                            s.label[..].to_vec(),
                            match s.ty {
                                SegmentType::Static => 0,
                                SegmentType::VariableSegment => 1,
                                SegmentType::VariableSequence => 2,
                            },
                        )
                    })
                    .collect(),
            )
        })
        .collect()
}

pub fn observe(id: usize, c: &Context, status: StatusCode) -> Ran {
    let mut r = Ran { id, status: status.to_u16(), vars: sorted(&c.variables), links: link_views(c), ..Ran::default() };
    if DEEP.with(|d| d.get()) {
        r.link_handlers = c
            .hyperlinks
            .iter()
            .filter(|l| l.method.is_some())
            .map(|l| (l.method.as_ref().unwrap().to_string(), l.handler.and_then(|h| h.description()).map(|d| d.into_owned())))
            .collect();
        r.linked = link_views(c).into_iter().zip(c.hyperlinks.iter()).filter_map(|(v, l)| l.handler.map(|h| (v, h.description().map(|d| d.into_owned())))).collect();
        r.method = c.method.to_string();
        r.path = c.uri_path.as_path().map(|p| p[..].to_vec());
        r.query = sorted(&c.query);
        r.fragment = c.fragment.as_ref().map(|f| f[..].to_vec());
        r.headers = c.headers.to_string();
        r.client = format!("{} {}", c.http_version, c.address);
    }
    r
}

/// A handler that writes down what it sees.
#[derive(Clone, Debug)]
pub struct H(pub usize);

impl Handler for H {
    fn handle(&self, context: Context, response: Response) {
        let r = observe(self.0, &context, response.status());
        RAN.with(|v| v.borrow_mut().push(r));
        if response.status() == StatusCode::Ok {
            response.send(format!("h{}", self.0));
        }
    }
    fn description(&self) -> Option<std::borrow::Cow<'static, str>> {
        Some(format!("h{}", self.0).into())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    pub ran: Vec<Ran>,
    /// Status of the returned response, when it was rejected.
    pub rejected: Option<u16>,
    /// After a rejection: is the path unconsumed, and no variables or links left?
    pub intact: bool,
}

/// Run one request directly on a router.
pub fn drive<R: HandleRequest>(router: &R, global: &Global, method: Method, path: &[u8]) -> Outcome {
    RAN.with(|v| v.borrow_mut().clear());
    let context = Context::mock(method, "", rustful::header::Headers::new(), global);
    drive_env(router, global, context, path)
}

pub fn drive_env<R: HandleRequest>(router: &R, global: &Global, context: Context, path: &[u8]) -> Outcome {
    drive_from(router, global, context, path, StatusCode::Ok, 0, false)
}

/// Start with a status, and with the first segments of the path already passed (and kept?).
pub fn drive_from<R: HandleRequest>(router: &R, global: &Global, context: Context, path: &[u8], status: StatusCode, passed: usize, kept: bool) -> Outcome {
    RAN.with(|v| v.borrow_mut().clear());
    // the path only needs to live as long as the global data; both do here
    let path: &[u8] = unsafe { std::mem::transmute(path) };
    let global: &Global = unsafe { std::mem::transmute(global) };
    let context: Context = unsafe { std::mem::transmute(context) };
    let (vars, links) = (sorted(&context.variables), link_views(&context));
    let mut response = Response::mock(global);
    if status != StatusCode::Ok {
        response.set_status(status);
    }
    let mut route_state = RouteState::from(path);
    for _ in 0..passed {
        if kept {
            route_state.keep();
        } else {
            route_state.skip();
        }
    }
    let at = (route_state.snapshot(), route_state.get(), route_state.is_empty());
    let res = router.handle_request(Environment { context, response, route_state });
    let (rejected, intact) = match res {
        Ok(()) => (None, true),
        Err(e) => {
            let ok = (e.route_state.snapshot(), e.route_state.get(), e.route_state.is_empty()) == at && sorted(&e.context.variables) == vars && link_views(&e.context) == links;
            (Some(e.response.status().to_u16()), ok)
        }
    };
    Outcome { ran: RAN.with(|v| std::mem::take(&mut *v.borrow_mut())), rejected, intact }
}

pub fn show(p: &[u8]) -> String {
    crate::gen::esc(p)
}
