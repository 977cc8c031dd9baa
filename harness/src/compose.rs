//! Compositions of routers: a grammar, how to build them, and what they must do.
use crate::gen::*;
use crate::routes::*;
use rustful::context::hypermedia::Link;
use rustful::handler::{ApplyContext, Build, BuilderContext, Environment, FromHandler, HandleRequest, MethodRouter, OrElse, StatusRouter, TreeRouter, VariableNames, Variables};
use rustful::{Context, Handler, Method, Response, StatusCode};
use std::collections::BTreeSet;
use std::io::Read;

/// A composition of routers.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    H(usize),
    None,
    /// rejects after setting a status
    Rej(u16),
    /// rejects without touching anything
    Keep,
    Opt(Box<T>),
    Method(Vec<(&'static str, T)>),
    Status(Vec<(u16, T)>),
    Or(Box<T>, Box<T>),
    Vars(Box<T>),
    Tree(bool, Vec<(&'static str, T)>),
    /// a router of our own, that takes the next segments: keeps, skips or fuses them
    Walk(&'static str, Box<T>),
}

pub struct Walker(&'static str, Any);
impl HandleRequest for Walker {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let before = e.route_state.snapshot();
        for c in self.0.chars() {
            if e.route_state.get().is_none() {
                e.route_state.go_to(before);
                e.response.set_status(StatusCode::NotFound);
                return Err(e);
            }
            match c {
                'k' => e.route_state.keep(),
                's' => e.route_state.skip(),
                _ => e.route_state.fuse(),
            }
        }
        self.1.handle_request(e).map_err(|mut e| {
            e.route_state.go_to(before);
            e
        })
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.1.hyperlinks(base)
    }
}
/// The names of what a walk keeps.
fn walk_names(ops: &str) -> Vec<String> {
    (0..ops.matches('k').count()).map(|i| format!("w{}", i)).collect()
}

pub struct Reject(pub Option<u16>);
impl HandleRequest for Reject {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        if let Some(s) = self.0 {
            e.response.set_status(StatusCode::from_u16(s));
        }
        Err(e)
    }
    fn hyperlinks<'a>(&'a self, _: Link<'a>) -> Vec<Link<'a>> {
        vec![]
    }
}

/// Any router, so that every composition is one type.
pub struct Any(pub Box<dyn HandleRequest>);
impl HandleRequest for Any {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        self.0.handle_request(e)
    }
    fn hyperlinks<'a>(&'a self, l: Link<'a>) -> Vec<Link<'a>> {
        self.0.hyperlinks(l)
    }
}
impl Default for Any {
    fn default() -> Any {
        Any(Box::new(None::<Leaf>))
    }
}
impl ApplyContext for Any {
    fn apply_context(&mut self, _: BuilderContext) {}
    fn prepend_context(&mut self, _: BuilderContext) {}
}

/// A handler that also reads the body.
pub struct Leaf(pub usize);
thread_local!(pub static BODY: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) });
impl Handler for Leaf {
    fn handle(&self, mut context: Context, response: Response) {
        let r = observe(self.0, &context, response.status());
        RAN.with(|v| v.borrow_mut().push(r));
        let mut b = vec![];
        let _ = context.body.read_to_end(&mut b);
        BODY.with(|x| *x.borrow_mut() = b);
        response.send(format!("h{}", self.0));
    }
    fn description(&self) -> Option<std::borrow::Cow<'static, str>> {
        Some(format!("h{}", self.0).into())
    }
}

impl<'t> FromHandler<&'t T> for Any {
    fn from_handler(ctx: BuilderContext, t: &'t T) -> Any {
        Any(match *t {
            T::H(id) => Box::new(Leaf(id)),
            T::None => Box::new(None::<Leaf>),
            T::Rej(s) => Box::new(Reject(Some(s))),
            T::Keep => Box::new(Reject(None)),
            T::Opt(ref t) => Box::new(Option::<Any>::from_handler(ctx, &**t)),
            T::Method(ref l) => {
                let mut m: MethodRouter<Any> = MethodRouter::new();
                for (k, t) in l {
                    m.get_builder(ctx.clone()).on(k.parse::<Method>().unwrap(), t);
                }
                Box::new(m)
            }
            T::Status(ref l) => {
                let mut m: StatusRouter<Any> = StatusRouter::new();
                for (k, t) in l {
                    m.get_builder(ctx.clone()).on(StatusCode::from_u16(*k), t);
                }
                Box::new(m)
            }
            T::Or(ref a, ref b) => Box::new(OrElse::new(Any::from_handler(ctx.clone(), &**a), Any::from_handler(ctx, &**b))),
            T::Vars(ref t) => Box::new(Variables::<Any>::from_handler(ctx, &**t)),
            T::Tree(links, ref l) => {
                let mut m: TreeRouter<Any> = TreeRouter::new();
                m.find_hyperlinks = links;
                for (p, t) in l {
                    m.get_builder(ctx.clone()).path(p).handler(t);
                }
                Box::new(m)
            }
            T::Walk(ops, ref t) => {
                let mut ctx = ctx;
                let mut names = ctx.remove::<VariableNames>().map_or(vec![], |n| n.0);
                names.extend(walk_names(ops).into_iter().map(|n| n.into()));
                ctx.insert(VariableNames(names));
                Box::new(Walker(ops, Any::from_handler(ctx, &**t)))
            }
        })
    }
}

// ------------------------------------------------------------------------------------ model

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Res {
    Handled { id: usize, status: u16, vars: Vec<(Seg, Vec<Seg>)>, links: Vec<LinkV>, linked: Vec<(LinkV, usize)> },
    Rejected(u16),
}

#[derive(Clone)]
pub struct St<'s> {
    method: &'s str,
    segs: &'s [Seg],
    status: u16,
    values: Vec<Seg>,
    names: Vec<Seg>,
    vars: Vec<(Seg, Vec<Seg>)>,
    /// the links of the innermost tree, and the handlers that each of them may point at
    links: Vec<(LinkV, Option<usize>)>,
}

fn only_links(l: &[(LinkV, Option<usize>)]) -> Vec<LinkV> {
    l.iter().map(|l| l.0.clone()).collect::<BTreeSet<_>>().into_iter().collect()
}

/// What a node offers: the links of what is there, and one for every way on.
fn node_links(l: &[(&str, T)], n: &Node, base: &LinkV) -> Vec<(LinkV, Option<usize>)> {
    let mut v = n.handlers.get("t").map_or(vec![], |h| links_of(&l[h.id].1, base));
    let mut on = |s: Seg, k: u8| {
        let mut link = base.clone();
        link.1.push((s, k));
        v.push((link, None));
    };
    for s in n.stat.keys() {
        on(s.clone(), 0);
    }
    if n.var.is_some() {
        on(vec![], 1);
    }
    if n.seq.is_some() {
        on(vec![], 2);
    }
    v
}

/// The links that a router contributes at its place: those of all its alternatives.
pub fn links_of(t: &T, base: &LinkV) -> Vec<(LinkV, Option<usize>)> {
    match *t {
        T::H(id) => vec![(base.clone(), Some(id))],
        T::None | T::Rej(_) | T::Keep => vec![],
        T::Opt(ref t) | T::Vars(ref t) | T::Walk(_, ref t) => links_of(t, base),
        // the last one registered for a key is the one that is there
        T::Method(ref l) => (0..l.len()).filter(|&i| l[i + 1..].iter().all(|e| e.0 != l[i].0)).flat_map(|i| links_of(&l[i].1, &(Some(l[i].0.to_string()), base.1.clone()))).collect(),
        T::Status(ref l) => (0..l.len()).filter(|&i| l[i + 1..].iter().all(|e| e.0 != l[i].0)).flat_map(|i| links_of(&l[i].1, base)).collect(),
        T::Or(ref a, ref b) => links_of(a, base).into_iter().chain(links_of(b, base)).collect(),
        T::Tree(_, ref l) => {
            let mut n = Node::default();
            for (i, (p, _)) in l.iter().enumerate() {
                n.add("t", p.as_bytes(), i);
            }
            node_links(l, &n, base)
        }
    }
}

/// Every allowed result (more than one only where several different rejections compete).
pub fn eval(t: &T, st: &St) -> Vec<Res> {
    let mut out = match *t {
        T::H(id) => vec![Res::Handled { id, status: st.status, vars: st.vars.clone(), links: only_links(&st.links), linked: st.links.iter().filter_map(|l| l.1.map(|h| (l.0.clone(), h))).collect() }],
        T::None => vec![Res::Rejected(404)],
        T::Rej(s) => vec![Res::Rejected(s)],
        T::Keep => vec![Res::Rejected(st.status)],
        T::Opt(ref t) => eval(t, st),
        T::Method(ref l) => match l.iter().rev().find(|e| e.0 == st.method) {
            Some((_, t)) => eval(t, st),
            None => vec![Res::Rejected(405)],
        },
        T::Status(ref l) => match l.iter().rev().find(|e| e.0 == st.status) {
            Some((_, t)) => eval(t, st),
            None => vec![Res::Rejected(st.status)],
        },
        T::Or(ref a, ref b) => {
            let mut v = vec![];
            for r in eval(a, st) {
                match r {
                    Res::Rejected(s) => v.extend(eval(b, &St { status: s, ..st.clone() })),
                    h => v.push(h),
                }
            }
            v
        }
        T::Vars(ref t) => {
            let vars = vars_of(&st.names, &st.values);
            eval(t, &St { vars, names: vec![], ..st.clone() })
        }
        T::Walk(ops, ref t) => {
            if ops.len() > st.segs.len() {
                vec![Res::Rejected(404)]
            } else {
                let mut values = st.values.clone();
                let mut pending: Vec<Seg> = vec![];
                for (c, s) in ops.chars().zip(st.segs) {
                    if c != 's' {
                        pending.push(s.clone());
                    }
                    if c == 'k' {
                        values.push(pending.join(&b'/'));
                        pending.clear();
                    }
                }
                let mut names = st.names.clone();
                names.extend(walk_names(ops).into_iter().map(|n| n.into_bytes()));
                eval(t, &St { names, values, segs: &st.segs[ops.len()..], ..st.clone() })
            }
        }
        T::Tree(links, ref l) => {
            let mut n = Node::default();
            for (i, (p, _)) in l.iter().enumerate() {
                n.add("t", p.as_bytes(), i);
            }
            // (already rejected statuses) so far
            let mut alive: Vec<Vec<u16>> = vec![vec![]];
            let mut v = vec![];
            let mut found = vec![];
            if links {
                for (_, node) in n.matches(st.segs) {
                    found.extend(node_links(l, node, &(None, vec![])).into_iter().filter(|f| f.0 .0.as_deref() != Some(st.method) || !f.0 .1.is_empty()));
                }
            }
            for (m, node) in n.matches(st.segs) {
                let mut next = vec![];
                let results = match node.handlers.get("t") {
                    None => vec![Res::Rejected(404)],
                    Some(h) => {
                        let mut names = st.names.clone();
                        names.extend(h.names.iter().cloned());
                        let mut values = st.values.clone();
                        values.extend(m.values.iter().cloned());
                        eval(&l[h.id].1, &St { names, values, segs: &[], links: found.clone(), ..st.clone() })
                    }
                };
                for r in results {
                    match r {
                        Res::Rejected(s) => {
                            for a in &alive {
                                let mut a = a.clone();
                                if !a.contains(&s) {
                                    a.push(s);
                                    a.sort();
                                }
                                if !next.contains(&a) {
                                    next.push(a);
                                }
                            }
                        }
                        h => v.push(h),
                    }
                }
                alive = next;
            }
            for a in alive {
                let better: Vec<u16> = a.iter().cloned().filter(|&s| s != 404).collect();
                if better.is_empty() {
                    v.push(Res::Rejected(404));
                }
                for s in better {
                    v.push(Res::Rejected(s));
                }
            }
            v
        }
    };
    out.sort();
    out.dedup();
    out
}

pub fn number(t: &mut T, n: &mut usize) {
    match *t {
        T::H(ref mut id) => {
            *id = *n;
            *n += 1;
        }
        T::Opt(ref mut t) | T::Vars(ref mut t) | T::Walk(_, ref mut t) => number(t, n),
        T::Or(ref mut a, ref mut b) => {
            number(a, n);
            number(b, n);
        }
        T::Method(ref mut l) => l.iter_mut().for_each(|e| number(&mut e.1, n)),
        T::Status(ref mut l) => l.iter_mut().for_each(|e| number(&mut e.1, n)),
        T::Tree(_, ref mut l) => l.iter_mut().for_each(|e| number(&mut e.1, n)),
        _ => {}
    }
}

pub fn has_vars(t: &T) -> bool {
    match *t {
        T::Vars(_) => true,
        T::Opt(ref t) | T::Walk(_, ref t) => has_vars(t),
        T::Or(ref a, ref b) => has_vars(a) || has_vars(b),
        T::Method(ref l) => l.iter().any(|e| has_vars(&e.1)),
        T::Status(ref l) => l.iter().any(|e| has_vars(&e.1)),
        T::Tree(_, ref l) => l.iter().any(|e| has_vars(&e.1)),
        _ => false,
    }
}

pub fn b(t: &T) -> Box<T> {
    Box::new(t.clone())
}

pub const PATS: [&str; 5] = ["", "a", ":x", "*y", "a/:z"];

/// Compositions over smaller ones.
pub fn grow(inner: &[T], full: bool) -> Vec<T> {
    let mut v = vec![];
    for t in inner {
        v.push(T::Method(vec![("GET", t.clone())]));
        v.push(T::Method(vec![("POST", t.clone())]));
        for s in [200, 403, 404, 405] {
            v.push(T::Status(vec![(s, t.clone())]));
        }
        for p in PATS {
            for links in [false, true] {
                v.push(T::Tree(links, vec![(p, t.clone())]));
                if full {
                    if !has_vars(t) {
                        v.push(T::Tree(links, vec![(p, T::Vars(b(t)))]));
                    }
                    for q in PATS {
                        if p != q {
                            v.push(T::Tree(links, vec![(p, t.clone()), (q, T::H(0))]));
                        }
                    }
                }
            }
        }
        if full {
            v.push(T::Opt(b(t)));
            v.push(T::Method(vec![("GET", t.clone()), ("POST", T::H(0))]));
            v.push(T::Status(vec![(404, t.clone()), (405, T::H(0))]));
            if !has_vars(t) {
                v.push(T::Vars(b(t)));
            }
        }
    }
    v
}

pub fn ors(a: &[T], bb: &[T]) -> Vec<T> {
    a.iter().flat_map(|x| bb.iter().map(move |y| T::Or(b(x), b(y)))).collect()
}

pub const REQS: [(&str, &str); 8] = [("GET", "/"), ("POST", "/"), ("GET", "/a"), ("POST", "/a"), ("GET", "/c"), ("GET", "/a/c"), ("POST", "/a/c"), ("GET", "/c/c")];

pub fn expected(t: &T, m: &str, p: &str) -> Vec<Res> {
    expected_from(t, m, p, &Start::default())
}

/// What a router may find when its turn comes.
#[derive(Clone, Debug, Default)]
pub struct Start {
    /// a variable and a link from before
    pub set: bool,
    pub status: Option<u16>,
    /// the segment "p" in front of the path has been passed, and kept as a value?
    pub passed: Option<bool>,
}
pub fn starts() -> Vec<Start> {
    let s = |set, status, passed| Start { set, status, passed };
    vec![s(false, None, None), s(true, None, Some(false)), s(false, Some(403), Some(true)), s(true, Some(404), None), s(true, Some(403), Some(true))]
}
pub fn old_link() -> LinkV {
    (None, vec![(b"old".to_vec(), 0)])
}
impl Start {
    pub fn builder_context(&self) -> BuilderContext {
        let mut c = BuilderContext::new();
        if self.passed == Some(true) {
            c.insert(VariableNames(vec!["o".to_string().into()]));
        }
        c
    }
}

pub fn expected_from(t: &T, m: &str, p: &str, s: &Start) -> Vec<Res> {
    let segs = segments(p.as_bytes());
    let kept = |v: &[u8]| if s.passed == Some(true) { vec![v.to_vec()] } else { vec![] };
    eval(
        t,
        &St {
            method: m,
            segs: &segs,
            status: s.status.unwrap_or(200),
            values: kept(b"p"),
            names: kept(b"o"),
            vars: if s.set { vec![(b"pre".to_vec(), vec![b"set".to_vec()])] } else { vec![] },
            links: if s.set { vec![(old_link(), None)] } else { vec![] },
        },
    )
}

pub fn fits(r: &Ran, want: &Res) -> bool {
    match *want {
        Res::Handled { id, status, ref vars, ref links, .. } => r.id == id && r.status == status && vars_ok(vars, &r.vars) && r.links == *links,
        _ => false,
    }
}


/// Every handler that a link carries must be one that is registered where the link leads.
pub fn linked_ok(r: &Ran, want: &Res) -> bool {
    match *want {
        Res::Handled { ref linked, .. } => r.linked.iter().all(|(l, d)| linked.iter().any(|(w, id)| w == l && *d == Some(format!("h{}", id)))) && linked.iter().all(|(w, _)| r.linked.iter().any(|(l, _)| l == w)),
        _ => false,
    }
}

/// Small alternatives of every kind.
pub fn small() -> Vec<T> {
    vec![
        T::H(0), T::None, T::Rej(403), T::Keep,
        T::Method(vec![("GET", T::H(0))]), T::Method(vec![("POST", T::H(0))]),
        T::Status(vec![(404, T::H(0))]), T::Status(vec![(405, T::H(0))]), T::Status(vec![(403, T::H(0)), (200, T::Rej(403))]),
        T::Tree(false, vec![("", T::Keep), ("b", T::H(0))]), T::Tree(true, vec![("", T::Rej(403)), (":v", T::H(0))]),
    ]
}
