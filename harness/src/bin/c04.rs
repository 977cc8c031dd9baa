//! C04: every way of building a router yields the same router.
use mc::gen::*;
use mc::routes::*;
use mc::*;
use rustful::handler::{ApplyContext, FromHandler, HandleRequest, Merge, MethodRouter, OrElse, StatusRouter, TreeRouter, Variables};
use rustful::server::Global;
use rustful::context::hypermedia::Link;
use rustful::{Context, ContentFactory, CreateContent, DefaultRouter, Method, StatusCode};

fn join(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for s in segments(a).into_iter().chain(segments(b)) {
        v.push(b'/');
        v.extend(s);
    }
    if v.last() == Some(&b'/') {
        v.push(b'/'); // the last segment is empty
    }
    v
}

/// Model of merging a router under a path.
fn merge_model(to: &mut Node, at: &[u8], other: &Node) {
    merge_model_with(to, at, other, false)
}

/// `listed`: with the listed finding, a node without a handler in the other router renames the
/// variables of the handler it meets.
fn merge_model_with(to: &mut Node, at: &[u8], other: &Node, listed: bool) {
    let names = labels(at);
    fn rec(to: &mut Node, other: &Node, names: &[Seg], listed: bool) {
        if listed && other.handlers.is_empty() {
            for h in to.handlers.values_mut() {
                h.names = names.iter().chain(&other.made_as).cloned().collect();
            }
        }
        for (m, h) in &other.handlers {
            let mut n = names.to_vec();
            n.extend(h.names.iter().cloned());
            to.handlers.insert(m.clone(), MHandler { id: h.id, names: n });
        }
        for (s, o) in &other.stat {
            rec(to.stat.entry(s.clone()).or_default(), o, names, listed);
        }
        if let Some(ref o) = other.var {
            rec(to.var.get_or_insert_with(Default::default), o, names, listed);
        }
        if let Some(ref o) = other.seq {
            rec(to.seq.get_or_insert_with(Default::default), o, names, listed);
        }
    }
    rec(to.at_mut(at), other, &names, listed);
}

/// The same routes, registered one by one in the plainest way.
fn reference(m: &Node) -> DefaultRouter<H> {
    fn rec(n: &Node, place: &mut Vec<Seg>, r: &mut DefaultRouter<H>) {
        for (me, h) in &n.handlers {
            let mut names = h.names.iter();
            let mut path = vec![];
            for s in place.iter() {
                path.push(b'/');
                path.extend_from_slice(s);
                if s == b":" || s == b"*" {
                    path.extend_from_slice(names.next().map_or(&b""[..], |n| &n[..]));
                }
            }
            if path.last() == Some(&b'/') {
                path.push(b'/');
            }
            let me: Method = if me == "any" { Method::Get } else { me.parse().unwrap() };
            r.build().path(path).then().on(me, H(h.id));
        }
        for (s, c) in &n.stat {
            place.push(s.clone());
            rec(c, place, r);
            place.pop();
        }
        for (s, c) in [(b":", &n.var), (b"*", &n.seq)] {
            if let Some(c) = c {
                place.push(s.to_vec());
                rec(c, place, r);
                place.pop();
            }
        }
    }
    let mut r = DefaultRouter::new();
    rec(m, &mut vec![], &mut r);
    r
}

fn requests(max: usize) -> Vec<Vec<u8>> {
    (0..strings_upto(2, max)).map(|i| string_at(2, i).iter().flat_map(|&c| [b"/a", b"/c"][c].to_vec()).collect()).collect()
}

/// Compare a built router with the model on every request. `any`: handlers take every method.
fn compare<R: HandleRequest>(sh: &mut Shard, r: &R, model: &Node, reqs: &[Vec<u8>], methods: &[Method], any: bool, with_vars: bool, key: &str, desc: &dyn Fn() -> String) {
    compare_alt(sh, r, model, None, reqs, methods, any, with_vars, key, desc)
}

fn compare_alt<R: HandleRequest>(sh: &mut Shard, r: &R, model: &Node, alt: Option<&Node>, reqs: &[Vec<u8>], methods: &[Method], any: bool, with_vars: bool, key: &str, desc: &dyn Fn() -> String) {
    let global = Global::default();
    for m in methods {
        for p in reqs {
            let o = drive(r, &global, m.clone(), p);
            sh.trans(1);
            sh.trace();
            let want = model.resolve(if any { "any" } else { m.as_ref() }, p);
            let ok = match want {
                Expect::Handler { id, ref vars, .. } => o.ran.len() == 1 && o.ran[0].id == id && (!with_vars || vars_ok(vars, &o.ran[0].vars)),
                Expect::Reject(_) => o.ran.is_empty() && (matches!(o.rejected, Some(404) | Some(405)) || o.rejected == Some(200) && key.contains("status")),
            };
            if !ok {
                // is it the building that went wrong, or the routing of any such router?
                let plain = reference(model);
                let e = drive(&plain, &global, m.clone(), p);
                let view = |o: &Outcome| o.ran.iter().map(|r| (r.id, if with_vars { r.vars.clone() } else { vec![] })).collect::<Vec<_>>();
                if view(&e) == view(&o) && key != "strings" {
                    sh.note("the same as with plain registration, although not as modelled", 1);
                    continue;
                }
                let what = match want {
                    Expect::Handler { id, .. } if o.ran.len() == 1 && o.ran[0].id == id => match alt.map(|a| a.resolve(if any { "any" } else { m.as_ref() }, p)) {
                        Some(Expect::Handler { ref vars, .. }) if vars_ok(vars, &o.ran[0].vars) => "variables-renamed-by-empty-node",
                        _ => "variables",
                    },
                    Expect::Handler { .. } if o.ran.is_empty() => "lost-handler",
                    Expect::Handler { .. } => "wrong-handler",
                    Expect::Reject(_) => "extra-handler",
                };
                sh.violation(
                    format!("{}:{}", key, what),
                    format!("{}\nrequest {} {:?}\nexpected {:?}\ngot {:?}, rejected {:?}", desc(), m, show(p), want, o.ran.iter().map(|r| (r.id, r.vars.iter().map(|(k, v)| format!("{}={}", show(k), show(v))).collect::<Vec<_>>())).collect::<Vec<_>>(), o.rejected),
                );
            }
        }
    }
}

// --------------------------------------------------------------------------- DefaultRouter

#[derive(Clone, Debug)]
enum Op {
    On(&'static str, Method),
    Nested(&'static str, &'static str, Method),
    Many(&'static str, &'static str, &'static str),
    Touch(&'static str),
    Get(&'static str, Method),
    GetNested(&'static str, &'static str, Method),
    Merge(&'static str, usize),
    MergeTrait(usize),
    MergeMethods(&'static str, u8),
}

const SUBS: usize = 7;
fn sub(k: usize, base: usize) -> (DefaultRouter<H>, Node) {
    let list: Vec<(Method, &str)> = match k {
        0 => vec![(Method::Get, "")],
        1 => vec![(Method::Get, ":s"), (Method::Post, "/")],
        2 => vec![(Method::Get, "*t/a")],
        3 => vec![(Method::Get, "a"), (Method::Get, ":q/c"), (Method::Post, "a/*")],
        4 => vec![(Method::Get, ":"), (Method::Post, ":m")],
        _ => vec![(Method::Get, "a/:u")],
    };
    let mut r: DefaultRouter<H> = DefaultRouter::new();
    let mut m = Node::default();
    for (j, (me, p)) in list.iter().enumerate() {
        r.build().path(p).then().on(me.clone(), H(base + j));
        m.add(me.as_ref(), p.as_bytes(), base + j);
    }
    if k == 6 {
        // a router that was itself merged under a path
        let (r2, m2) = sub(1, base + 5);
        r.build().path(":o").merge(r2);
        merge_model(&mut m, b":o", &m2);
    }
    (r, m)
}

fn ops_default() -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    for p in ["", "a", ":x", ":w", "*y", "a/:z", ":x/a", "*"] {
        v.push(On(p, Method::Get));
    }
    for p in ["", "a", ":p", "*q"] {
        v.push(On(p, Method::Post));
    }
    for a in ["a", ":x", "*y"] {
        for b in ["a", ":n", "/"] {
            v.push(Nested(a, b, Method::Get));
        }
    }
    v.push(Many("a", "c", ":k"));
    v.push(Many(":x", "a", "*k"));
    for p in ["a/c", ":x/:y", "*y"] {
        v.push(Touch(p));
    }
    for p in ["a", ":g", "*g", "a/:g"] {
        v.push(Get(p, Method::Get));
    }
    v.push(GetNested(":g", ":h", Method::Get));
    v.push(GetNested("a", "c", Method::Post));
    for p in ["", "a", ":b", "*b"] {
        for k in 0..SUBS {
            v.push(Merge(p, k));
        }
    }
    v.push(MergeTrait(1));
    v.push(MergeTrait(3));
    for p in ["", "a", ":e"] {
        v.push(MergeMethods(p, 1));
        v.push(MergeMethods(p, 3));
    }
    v
}

fn apply_default(op: &Op, i: usize, r: &mut DefaultRouter<H>, m: &mut Node) {
    let base = 10 * (i + 1);
    match *op {
        Op::On(p, ref me) => {
            r.build().path(p).then().on(me.clone(), H(base));
            m.add(me.as_ref(), p.as_bytes(), base);
        }
        Op::Nested(a, b, ref me) => {
            r.build().path(a).path(b).then().on(me.clone(), H(base));
            m.add(me.as_ref(), &join(a.as_bytes(), b.as_bytes()), base);
        }
        Op::Many(a, b, c) => {
            r.build().path(a).many(|n| {
                n.path(b).then().many(|m| {
                    m.on_get(H(base));
                    m.on_post(H(base + 1));
                });
                n.path(c).then().on_get(H(base + 2));
                n.then().on_post(H(base + 3));
            });
            m.add("GET", &join(a.as_bytes(), b.as_bytes()), base);
            m.add("POST", &join(a.as_bytes(), b.as_bytes()), base + 1);
            m.add("GET", &join(a.as_bytes(), c.as_bytes()), base + 2);
            m.add("POST", a.as_bytes(), base + 3);
        }
        Op::Touch(p) => {
            r.build().path(p);
            m.at_mut(p.as_bytes());
        }
        Op::Get(p, ref me) => {
            let there = m.at(p.as_bytes()).is_some();
            match r.build().get_path(p) {
                Some(mut b) => {
                    assert!(there, "get_path({:?}) found a node that was never built", p);
                    b.then().on(me.clone(), H(base));
                    m.add(me.as_ref(), p.as_bytes(), base);
                }
                None => assert!(!there, "get_path({:?}) did not find an existing node", p),
            }
        }
        Op::GetNested(a, b, ref me) => {
            if let Some(mut n) = r.build().get_path(a) {
                n.path(b).then().on(me.clone(), H(base));
                m.add(me.as_ref(), &join(a.as_bytes(), b.as_bytes()), base);
            } else {
                assert!(m.at(a.as_bytes()).is_none(), "get_path({:?}) did not find an existing node", a);
            }
        }
        Op::Merge(p, k) => {
            let (o, om) = sub(k, base);
            r.build().path(p).merge(o);
            merge_model(m, p.as_bytes(), &om);
        }
        Op::MergeTrait(k) => {
            let (o, om) = sub(k, base);
            Merge::merge(r, o);
            merge_model(m, b"", &om);
        }
        Op::MergeMethods(p, mask) => {
            let mut mr: MethodRouter<Variables<H>> = MethodRouter::new();
            if mask & 1 != 0 {
                mr.build().on_get(H(base));
                m.add("GET", p.as_bytes(), base);
            }
            if mask & 2 != 0 {
                mr.build().on_post(H(base + 1));
                m.add("POST", p.as_bytes(), base + 1);
            }
            r.build().path(p).then().merge(mr);
        }
    }
}

// --------------------------------------------------------------------------- other endpoints

#[derive(Clone, Debug)]
enum Op2 {
    OnPath(&'static str),
    Handler(&'static str),
    Route(&'static str, &'static str),
    RouteOn(&'static str, &'static str),
    PathOn(&'static str, &'static str),
    Many(&'static str),
    Touch(&'static str),
    Get(&'static str),
    Merge(&'static str, usize),
}

const SUB2: usize = 5;
fn sub2<T: Default + ApplyContext + FromHandler<H> + Merge>(k: usize, base: usize) -> (TreeRouter<T>, Node) {
    let list: &[&str] = match k {
        0 => &[""],
        1 => &[":s", "/"],
        2 => &["*t/a"],
        3 => &["a", ":q/c", "a/*"],
        _ => &["a/:u", "a"],
    };
    let mut r: TreeRouter<T> = TreeRouter::new();
    let mut m = Node::default();
    for (j, p) in list.iter().enumerate() {
        r.build().on_path(p, H(base + j));
        m.add("any", p.as_bytes(), base + j);
    }
    (r, m)
}

fn ops2() -> Vec<Op2> {
    use Op2::*;
    let mut v = vec![];
    for p in ["", "a", ":x", ":w", "*y", "a/:z", ":x/a", "*"] {
        v.push(OnPath(p));
    }
    for p in ["", "a", ":h", "*h", "a/:h"] {
        v.push(Handler(p));
    }
    for a in ["", "a", ":x", "*y"] {
        for b in ["a", ":r", "*r", "", "/"] {
            v.push(Route(a, b));
        }
    }
    for (a, b) in [(":", ":r"), (":x", ":"), ("*", ":r"), ("*y", "*"), ("", ":"), ("", "*")] {
        v.push(Route(a, b));
    }
    v.push(RouteOn(":", ":p"));
    v.push(RouteOn("*", "a/:p"));
    v.push(RouteOn(":o", ":"));
    v.push(RouteOn(":o", ":p"));
    v.push(RouteOn("a", "c"));
    v.push(PathOn(":o", "a/:p"));
    v.push(PathOn("*o", "a"));
    v.push(Many("a"));
    v.push(Many(":m"));
    v.push(Touch("a/c"));
    v.push(Touch(":x/:y"));
    for p in ["a", ":g", "*g", "a/:g", ""] {
        v.push(Get(p));
    }
    for p in ["", "a", ":b", "*b"] {
        for k in 0..SUB2 {
            v.push(Merge(p, k));
        }
    }
    v
}

fn apply2<T: Default + ApplyContext + FromHandler<H> + Merge>(op: &Op2, i: usize, r: &mut TreeRouter<T>, m: &mut Node, listed: bool) {
    let base = 10 * (i + 1);
    match *op {
        Op2::OnPath(p) => {
            r.build().on_path(p, H(base));
            m.add("any", p.as_bytes(), base);
        }
        Op2::Handler(p) => {
            r.build().path(p).handler(H(base));
            m.add("any", p.as_bytes(), base);
        }
        Op2::Route(a, b) => {
            r.build().path(a).on_route(b, H(base));
            m.add("any", &join(a.as_bytes(), b.as_bytes()), base);
        }
        Op2::RouteOn(a, b) => {
            r.build().on_route(a, H(base)).on_path(b, H(base + 1)).handler(H(base + 2));
            m.add("any", a.as_bytes(), base);
            m.add("any", &join(a.as_bytes(), b.as_bytes()), base + 2);
        }
        Op2::PathOn(a, b) => {
            r.build().on_path(a, H(base)).on_path(b, H(base + 1));
            m.add("any", a.as_bytes(), base);
            m.add("any", &join(a.as_bytes(), b.as_bytes()), base + 1);
        }
        Op2::Many(a) => {
            r.build().on_path(a, H(base)).many(|n| {
                n.on_route("c", H(base + 1));
                n.on_route(":v", H(base + 2)).on_route("a", H(base + 3));
                n.on_path("a/a", H(base + 4));
            });
            m.add("any", a.as_bytes(), base);
            m.add("any", &join(a.as_bytes(), b"c"), base + 1);
            m.add("any", &join(a.as_bytes(), b":v"), base + 2);
            m.add("any", &join(a.as_bytes(), b":v/a"), base + 3);
            m.add("any", &join(a.as_bytes(), b"a/a"), base + 4);
        }
        Op2::Touch(p) => {
            r.build().path(p);
            m.at_mut(p.as_bytes());
        }
        Op2::Get(p) => {
            let there = m.at(p.as_bytes()).is_some();
            match r.build().get_path(p) {
                Some(mut b) => {
                    assert!(there, "get_path({:?}) found a node that was never built", p);
                    b.handler(H(base));
                    m.add("any", p.as_bytes(), base);
                }
                None => assert!(!there, "get_path({:?}) did not find an existing node", p),
            }
        }
        Op2::Merge(p, k) => {
            let (o, om) = sub2::<T>(k, base);
            r.build().path(p).merge(o);
            merge_model_with(m, p.as_bytes(), &om, listed);
        }
    }
}

fn explore2<T: Default + ApplyContext + FromHandler<H> + Merge + HandleRequest>(ctx: &Ctx, name: &str, len: usize, vars: bool) {
    let ops = ops2();
    let reqs = requests(3);
    ctx.par(name, strings_upto(ops.len(), len), |i, sh| {
        let hist = string_at(ops.len(), i);
        let mut r: TreeRouter<T> = TreeRouter::new();
        let mut m = Node::default();
        for (j, &o) in hist.iter().enumerate() {
            apply2(&ops[o], j, &mut r, &mut m, false);
        }
        let alt = if name == "tree-variables-option" {
            let (mut r2, mut m2) = (TreeRouter::<T>::new(), Node::default());
            for (j, &o) in hist.iter().enumerate() {
                apply2(&ops[o], j, &mut r2, &mut m2, true);
            }
            Some(m2)
        } else {
            None
        };
        sh.add_states(1);
        let desc = || format!("{} built with {:?}", name, hist.iter().map(|&o| &ops[o]).collect::<Vec<_>>());
        sh.sample(|| desc());
        compare_alt(sh, &r, &m, alt.as_ref(), &reqs, &[Method::Get], true, vars, name, &desc);
    });
}

// --------------------------------------------------------------------------- layers under nodes

/// Names depend on nothing but the place, so that it doesn't matter whose names are kept where
/// one set of names serves several handlers.
fn named(base: &str, rel: &str) -> String {
    let mut at: String = base.to_string();
    let mut out = vec![];
    for s in rel.split('/').filter(|s| !s.is_empty()) {
        at.push('/');
        at.push_str(s);
        out.push(if s == ":" || s == "*" { format!("{}{}", s, at.trim_start_matches('/').replace('/', "_").replace(':', "v").replace('*', "w")) } else { s.to_string() });
    }
    out.join("/")
}

#[derive(Clone, Debug)]
enum Op3 {
    On(&'static str, Method),
    Split(&'static str, &'static str),
    Got(&'static str, &'static str),
    Touch(&'static str),
    Sub(&'static str, usize),
    SubSub(&'static str, &'static str),
    Item(&'static str),
}
fn ops3() -> Vec<Op3> {
    use Op3::*;
    let mut v = vec![];
    for p in ["", "a", ":", "*", "a/:", ":/:", ":/a", "*/:"] {
        v.push(On(p, Method::Get));
    }
    for p in ["", ":", "a/:", ":/a"] {
        v.push(On(p, Method::Post));
    }
    for (a, b) in [(":", ":"), ("a", ":"), (":", "a"), ("*", "c"), (":", "")] {
        v.push(Split(a, b));
    }
    for (a, b) in [(":", ""), ("", ":/:"), (":", ":"), ("a", ":")] {
        v.push(Got(a, b));
    }
    for p in [":/:", "a/:", "*"] {
        v.push(Touch(p));
    }
    for p in ["", "a", ":", "*"] {
        for k in 0..4 {
            v.push(Sub(p, k));
        }
    }
    v.push(SubSub(":", ":"));
    v.push(SubSub("a", ":"));
    v.push(SubSub("", ":"));
    for p in ["", ":", "a/:", ":/:"] {
        v.push(Item(p));
    }
    v
}

type Put<T> = fn(&mut TreeRouter<T>, &[&str], bool, Method, H);
fn layered<T: Default + ApplyContext + Merge + HandleRequest>(ctx: &Ctx, name: &str, len: usize, put: Put<T>, item: fn(&mut TreeRouter<T>, &str, H)) {
    let ops = ops3();
    let reqs = requests(3);
    let two = [Method::Get, Method::Post];
    ctx.par(name, strings_upto(ops.len(), len), |i, sh| {
        let hist = string_at(ops.len(), i);
        let mut r: TreeRouter<T> = TreeRouter::new();
        let mut m = Node::default();
        for (j, &o) in hist.iter().enumerate() {
            let base = 10 * (j + 1);
            let sub = |at: &str, k: usize| {
                let mut t: TreeRouter<T> = TreeRouter::new();
                let mut list = vec![];
                for (n, (me, p)) in [vec![(Method::Get, "")], vec![(Method::Get, ":"), (Method::Post, "")], vec![(Method::Post, "a/:"), (Method::Get, "*")], vec![(Method::Get, ":/:")]][k].iter().enumerate() {
                    let p = named(at, p);
                    put(&mut t, &[&p], false, me.clone(), H(base + n));
                    list.push((me.clone(), p, base + n));
                }
                (t, list)
            };
            match ops[o] {
                Op3::On(p, ref me) => {
                    let p = named("", p);
                    put(&mut r, &[&p], false, me.clone(), H(base));
                    m.add(me.as_ref(), p.as_bytes(), base);
                }
                Op3::Split(a, b) => {
                    let (x, y) = (named("", a), named(&format!("/{}", a), b));
                    put(&mut r, &[&x, &y], false, Method::Get, H(base));
                    m.add("GET", &join(x.as_bytes(), y.as_bytes()), base);
                }
                Op3::Got(a, b) => {
                    let (x, y) = (named("", a), named(if a.is_empty() { "".into() } else { format!("/{}", a) }.as_str(), b));
                    put(&mut r, &[&x, &y], true, Method::Get, H(base));
                    m.add("GET", &join(x.as_bytes(), y.as_bytes()), base);
                }
                Op3::Touch(p) => {
                    r.build().path(named("", p));
                    m.at_mut(named("", p).as_bytes());
                }
                Op3::Sub(p, k) => {
                    let at = if p.is_empty() { String::new() } else { format!("/{}", p) };
                    let (t, list) = sub(&at, k);
                    let x = named("", p);
                    r.build().path(&x).merge(t);
                    for (me, q, id) in list {
                        m.add(me.as_ref(), &join(x.as_bytes(), q.as_bytes()), id);
                    }
                }
                Op3::SubSub(p, q) => {
                    let at = if p.is_empty() { String::new() } else { format!("/{}", p) };
                    let (t, list) = sub(&format!("{}/{}", at, q), 1);
                    let (x, y) = (named("", p), named(&at, q));
                    let mut outer: TreeRouter<T> = TreeRouter::new();
                    outer.build().path(&y).merge(t);
                    r.build().path(&x).merge(outer);
                    for (me, z, id) in list {
                        m.add(me.as_ref(), &join(&join(x.as_bytes(), y.as_bytes()), z.as_bytes()), id);
                    }
                }
                Op3::Item(p) => {
                    let x = named("", p);
                    item(&mut r, &x, H(base));
                    m.add("POST", x.as_bytes(), base);
                }
            }
        }
        sh.add_states(1);
        let desc = || format!("{} built with {:?}", name, hist.iter().map(|&o| &ops[o]).collect::<Vec<_>>());
        sh.sample(|| desc());
        compare(sh, &r, &m, &reqs, &two, false, true, name, &desc);
    });
}

/// Go to a node, through one or several builders, and put a handler there.
macro_rules! putting {
    ($item:ty, |$b:ident, $m:ident, $h:ident| $on:expr) => {{
        fn put(r: &mut TreeRouter<$item>, parts: &[&str], got: bool, $m: Method, $h: H) {
            let mut b0 = r.build();
            if parts.len() == 1 {
                let mut n = b0.path(parts[0]);
                let mut $b = n.then();
                $on;
            } else {
                let mut n0 = b0.path(parts[0]);
                if got {
                    n0.path(parts[1]);
                    let mut n = n0.get_path(parts[1]).expect("get_path did not find what path has just made");
                    let mut $b = n.then();
                    $on;
                } else {
                    let mut n = n0.path(parts[1]);
                    let mut $b = n.then();
                    $on;
                }
            }
        }
        put as Put<$item>
    }};
}

type Both = OrElse<MethodRouter<Variables<H>>, StatusRouter<Variables<H>>>;

fn main() {
    check_main(
        "C04",
        Level::ModelChecking,
        "every builder operation history up to the bound, compared on every request with a model that registers the resulting routes one by one; state = one history",
        |ctx| {
            ctx.assume("a router's find_hyperlinks flag is not part of what building decides");
            let ops = ops_default();
            let reqs = requests(3);
            let reqs4 = requests(4);
            let two = [Method::Get, Method::Post];
            for len in 0..=ctx.pick(3, 3) {
                let n = ops.len().pow(len);
                ctx.par(&format!("default:{}", len), n, |i, sh| {
                    let mut d = Digits(i);
                    let hist: Vec<usize> = (0..len).map(|_| d.take(ops.len())).collect();
                    let mut r: DefaultRouter<H> = DefaultRouter::new();
                    let mut m = Node::default();
                    for (j, &o) in hist.iter().enumerate() {
                        apply_default(&ops[o], j, &mut r, &mut m);
                    }
                    sh.add_states(1);
                    let desc = || format!("DefaultRouter built with {:?}", hist.iter().map(|&o| &ops[o]).collect::<Vec<_>>());
                    sh.sample(|| desc());
                    let rq: &[Vec<u8>] = if len == 3 && !sh.thorough() { &reqs[..7] } else if len == 3 { &reqs } else { &reqs4 };
                    compare(sh, &r, &m, rq, &two, false, true, "default", &desc);
                });
            }
            // collecting
            let items: Vec<(Method, &str)> = vec![
                (Method::Get, ""), (Method::Get, "/a"), (Method::Get, ":x"), (Method::Post, ":y"), (Method::Get, ":z/"), (Method::Get, "*w"),
                (Method::Get, "a/:v"), (Method::Post, "/a/*u/"), (Method::Get, "//"), (Method::Get, ":x/:x2"), (Method::Get, "a//c"),
            ];
            ctx.par("collect", strings_upto(items.len(), ctx.pick(4, 5)), |i, sh| {
                let hist = string_at(items.len(), i);
                let mut m = Node::default();
                let list: Vec<(Method, &str, H)> = hist
                    .iter()
                    .enumerate()
                    .map(|(j, &k)| {
                        m.add(items[k].0.as_ref(), items[k].1.as_bytes(), j);
                        (items[k].0.clone(), items[k].1, H(j))
                    })
                    .collect();
                let r: DefaultRouter<H> = list.into_iter().collect();
                sh.add_states(1);
                let desc = || format!("collected {:?}", hist.iter().map(|&k| &items[k]).collect::<Vec<_>>());
                compare(sh, &r, &m, &reqs, &two, false, true, "collect", &desc);
            });
            // one handler per node
            explore2::<Option<H>>(ctx, "tree-option", ctx.pick(2, 3), false);
            explore2::<Option<Variables<H>>>(ctx, "tree-option-variables", 3, true);
            // merging into names kept outside of the option: a small space, see known_findings.txt
            explore2::<Variables<Option<H>>>(ctx, "tree-variables-option", 2, true);
            // a tree per method, and alternatives at every node
            let paths = ["", "a", ":x", "*y", "a/:z", ":w/a"];
            let n = paths.len() * 4;
            ctx.par("method-of-trees", strings_upto(n, 3), |i, sh| {
                let hist = string_at(n, i);
                let mut r: MethodRouter<TreeRouter<Option<Variables<H>>>> = MethodRouter::new();
                let mut m = Node::default();
                for (j, &o) in hist.iter().enumerate() {
                    let (p, how) = (paths[o % paths.len()], o / paths.len());
                    match how {
                        0 => {
                            r.build().get::<H>().on_path(p, H(j));
                            m.add("GET", p.as_bytes(), j);
                        }
                        1 => {
                            r.build().post::<H>().path(p).handler(H(j));
                            m.add("POST", p.as_bytes(), j);
                        }
                        2 => {
                            let mut o: MethodRouter<TreeRouter<Option<Variables<H>>>> = MethodRouter::new();
                            o.build().get::<H>().on_path(p, H(j));
                            r.build().merge(o);
                            m.add("GET", p.as_bytes(), j);
                        }
                        _ => {
                            let mut t: TreeRouter<Option<Variables<H>>> = TreeRouter::new();
                            t.build().on_path(p, H(j));
                            r.build().method::<H>(Method::Post).merge(t);
                            m.add("POST", p.as_bytes(), j);
                        }
                    }
                }
                sh.add_states(1);
                let desc = || format!("MethodRouter<TreeRouter> built with {:?}", hist.iter().map(|&o| (["get().on_path", "post().path().handler", "merge", "post().merge"][o / paths.len()], paths[o % paths.len()])).collect::<Vec<_>>());
                // an own tree per method: model them apart
                for me in &two {
                    let only = only_method(&m, me.as_ref());
                    compare(sh, &r, &only, &reqs, &[me.clone()], false, true, "method-of-trees", &desc);
                }
            });
            ctx.par("tree-of-alternatives", strings_upto(n, ctx.pick(3, 3)), |i, sh| {
                let hist = string_at(n, i);
                let mut r: TreeRouter<Both> = TreeRouter::new();
                let mut prim = Node::default();
                let mut sec = Node::default();
                for (j, &o) in hist.iter().enumerate() {
                    let (p, how) = (paths[o % paths.len()], o / paths.len());
                    match how {
                        0 => {
                            r.build().path(p).then().primary().on_get(H(j));
                            prim.add("GET", p.as_bytes(), j);
                        }
                        1 => {
                            r.build().path(p).then().secondary().on(StatusCode::MethodNotAllowed, H(j));
                            sec.add("405", p.as_bytes(), j);
                        }
                        2 => {
                            let mut t: TreeRouter<Both> = TreeRouter::new();
                            t.build().path(":t").then().many(|b| {
                                b.primary().on_get(H(j));
                            });
                            t.build().path(":t").then().secondary().on(StatusCode::MethodNotAllowed, H(10 + j));
                            r.build().path(p).merge(t);
                            prim.add("GET", &join(p.as_bytes(), b":t"), j);
                            sec.add("405", &join(p.as_bytes(), b":t"), 10 + j);
                        }
                        _ => {
                            let mut s: StatusRouter<Variables<H>> = StatusRouter::new();
                            s.build().on(StatusCode::MethodNotAllowed, H(j));
                            r.build().path(p).then().secondary().merge(s);
                            sec.add("405", p.as_bytes(), j);
                        }
                    }
                }
                sh.add_states(1);
                let desc = || format!("TreeRouter<OrElse<MethodRouter, StatusRouter>> built with {:?}", hist.iter().map(|&o| (["primary", "secondary", "merge(:t)", "secondary merge"][o / paths.len()], paths[o % paths.len()])).collect::<Vec<_>>());
                let global = Global::default();
                for m in &two {
                    for p in &reqs {
                        // at every node in order: GET handler, else the 405 handler
                        let mut both = Node::default();
                        merge_model(&mut both, b"", &prim);
                        merge_model(&mut both, b"", &sec);
                        let mut want = None;
                        for (mt, n) in both.matches(&segments(p)) {
                            if let Some(h) = n.handlers.get(m.as_ref()).or_else(|| n.handlers.get("405")) {
                                want = Some((h.id, vars_of(&h.names, &mt.values)));
                                break;
                            }
                        }
                        let o = drive(&r, &global, m.clone(), p);
                        sh.trans(1);
                        sh.trace();
                        let ok = match want {
                            Some((id, ref v)) => o.ran.len() == 1 && o.ran[0].id == id && vars_ok(v, &o.ran[0].vars),
                            None => o.ran.is_empty(),
                        };
                        if !ok {
                            sh.violation("alternatives", format!("{}\n{} {:?}\nexpected {:?}\ngot {:?}", desc(), m, show(p), want, o));
                        }
                    }
                }
            });
            // trees in the nodes of trees: names from both, in order
            type Inner = TreeRouter<Option<Variables<H>>>;
            let paths = ["", "a", ":x", ":x/:y", "*y/:z", "a/*w"];
            let n = paths.len() * 8;
            ctx.par("tree-of-trees", strings_upto(n, ctx.pick(2, 3)), |i, sh| {
                let hist = string_at(n, i);
                let mut r: TreeRouter<MethodRouter<Inner>> = TreeRouter::new();
                let mut m = Node::default();
                for (j, &o) in hist.iter().enumerate() {
                    let (p, how) = (paths[o % paths.len()], o / paths.len());
                    match how {
                        0 => {
                            r.build().path(p).then().get::<H>().on_path("", H(j));
                            m.add("GET", p.as_bytes(), j);
                        }
                        1 => {
                            r.build().path(p).then().post::<H>().path("").handler(H(j));
                            m.add("POST", p.as_bytes(), j);
                        }
                        2 => {
                            let mut o: TreeRouter<MethodRouter<Inner>> = TreeRouter::new();
                            o.build().path(":t/:u").then().get::<H>().on_path("", H(j));
                            r.build().path(p).merge(o);
                            m.add("GET", &join(p.as_bytes(), b":t/:u"), j);
                        }
                        3 => {
                            let mut t: Inner = TreeRouter::new();
                            t.build().on_path("", H(j));
                            r.build().path(p).then().get::<H>().merge(t);
                            m.add("GET", p.as_bytes(), j);
                        }
                        4 => {
                            let mut mr: MethodRouter<Inner> = MethodRouter::new();
                            mr.build().post::<H>().on_path("", H(j));
                            r.build().path(p).then().merge(mr);
                            m.add("POST", p.as_bytes(), j);
                        }
                        5 => {
                            // nothing is left of the path for what is below the inner root
                            r.build().path(p).then().get::<H>().on_path(":q", H(j));
                            m.at_mut(p.as_bytes());
                        }
                        6 => {
                            let mut o: TreeRouter<MethodRouter<Inner>> = TreeRouter::new();
                            let mut oo: TreeRouter<MethodRouter<Inner>> = TreeRouter::new();
                            oo.build().path(":t").then().get::<H>().on_path("", H(j));
                            o.build().path("*u").merge(oo);
                            r.build().path(p).merge(o);
                            m.add("GET", &join(p.as_bytes(), b"*u/:t"), j);
                        }
                        _ => {
                            r.build().path(p).path("c/:k").then().get::<H>().many(|b| {
                                b.handler(H(j));
                            });
                            m.add("GET", &join(p.as_bytes(), b"c/:k"), j);
                        }
                    }
                }
                sh.add_states(1);
                let desc = || format!("TreeRouter<MethodRouter<TreeRouter>> built with {:?}", hist.iter().map(|&o| (["on_path", "path.handler", "merge tree(:t/:u)", "merge inner", "merge methods", "below inner root", "merge of merge(*u/:t)", "c/:k many"][o / paths.len()], paths[o % paths.len()])).collect::<Vec<_>>());
                compare(sh, &r, &m, &reqs4, &two, false, true, "tree-of-trees", &desc);
            });
            // variables around, between and under other routers
            let len = ctx.pick(2, 3);
            type L1 = StatusRouter<Variables<MethodRouter<H>>>;
            layered::<L1>(ctx, "status-variables-method", 3, putting!(L1, |b, m, h| b.status(StatusCode::Ok).on(m, h)), |r, p, h| {
                let mut inner = MethodRouter::new();
                inner.build().on_post(h);
                r.build().path(p).then().status(StatusCode::Ok).merge(inner);
            });
            type L2 = MethodRouter<Variables<TreeRouter<Option<H>>>>;
            layered::<L2>(ctx, "method-variables-tree", 3, putting!(L2, |b, m, h| b.method::<H>(m).on_path("", h)), |r, p, h| {
                let mut inner = TreeRouter::new();
                inner.build().handler(h);
                r.build().path(p).then().post::<H>().merge(inner);
            });
            type L3 = Variables<MethodRouter<H>>;
            layered::<L3>(ctx, "variables-method", 3, putting!(L3, |b, m, h| b.on(m, h)), |r, p, h| {
                let mut inner = MethodRouter::new();
                inner.build().on_post(h);
                r.build().path(p).then().merge(inner);
            });
            type L4 = OrElse<Variables<MethodRouter<H>>, Option<H>>;
            layered::<L4>(ctx, "or-variables-method", len, putting!(L4, |b, m, h| b.primary().on(m, h)), |r, p, h| {
                let mut inner = MethodRouter::new();
                inner.build().on_post(h);
                r.build().path(p).then().primary().merge(inner);
            });
            type L5 = Variables<StatusRouter<MethodRouter<H>>>;
            layered::<L5>(ctx, "variables-status-method", len, putting!(L5, |b, m, h| b.status(StatusCode::Ok).on(m, h)), |r, p, h| {
                let mut inner: StatusRouter<MethodRouter<H>> = StatusRouter::new();
                inner.build().status(StatusCode::Ok).on_post(h);
                r.build().path(p).then().merge(inner);
            });
            type L6 = StatusRouter<MethodRouter<Variables<TreeRouter<Option<H>>>>>;
            layered::<L6>(ctx, "status-method-variables-tree", len, putting!(L6, |b, m, h| b.status(StatusCode::Ok).method::<H>(m).on_path("", h)), |r, p, h| {
                let mut inner: MethodRouter<Variables<TreeRouter<Option<H>>>> = MethodRouter::new();
                inner.build().post::<H>().handler(h);
                r.build().path(p).then().status(StatusCode::Ok).merge(inner);
            });
            // many registrations, in every way of building
            let lens = ladder(ctx.pick(260, 2000));
            ctx.par("crowd", lens.len() * 7 * 5, |i, sh| {
                let mut d = Digits(i);
                let (n, shape, how) = (lens[d.take(lens.len())], d.take(7), d.take(5));
                let path = |j: usize| match shape {
                    // apart, overriding each other, nested, below variables with other names, many
                    // labels, sequences, a variable and a sequence after many labels
                    0 => format!("n{}", j),
                    1 => format!("n{}", j % 3),
                    2 => "a/".repeat(j),
                    3 => format!(":v{}/n{}", j, j / 2),
                    4 => (0..j).map(|k| format!(":v{}_{}/", j, k)).collect(),
                    5 => format!("{}*w{}", "a/".repeat(j % 5), j),
                    _ if j + 1 == n => format!(":v{}/a", j),
                    _ if j + 2 == n => format!("*s{}", j),
                    _ => format!("n{}", j),
                };
                let routes: Vec<(Method, String, usize)> = (0..n).map(|j| (if j % 7 == 3 { Method::Post } else { Method::Get }, path(j), j)).collect();
                if shape == 2 && n > 130 || shape == 4 && n > 70 {
                    return;
                }
                let mut m = Node::default();
                let below = how == 4;
                for (me, p, id) in &routes {
                    let p = if below { join(b"b/:under", p.as_bytes()) } else { p.clone().into_bytes() };
                    m.add(me.as_ref(), &p, *id);
                }
                let mut r: DefaultRouter<H> = DefaultRouter::new();
                let put = |r: &mut DefaultRouter<H>, x: &(Method, String, usize)| {
                    r.build().path(&x.1).then().on(x.0.clone(), H(x.2));
                };
                match how {
                    0 => routes.iter().for_each(|x| put(&mut r, x)),
                    1 => r = routes.iter().map(|x| (x.0.clone(), &x.1[..], H(x.2))).collect(),
                    2 => {
                        // one by one, each from a router of its own
                        for x in &routes {
                            let mut o: DefaultRouter<H> = DefaultRouter::new();
                            put(&mut o, x);
                            r.build().merge(o);
                        }
                    }
                    3 => {
                        let mut o: DefaultRouter<H> = DefaultRouter::new();
                        routes[..n / 2].iter().for_each(|x| put(&mut r, x));
                        routes[n / 2..].iter().for_each(|x| put(&mut o, x));
                        r.build().merge(o);
                    }
                    _ => {
                        let mut o: DefaultRouter<H> = DefaultRouter::new();
                        routes.iter().for_each(|x| put(&mut o, x));
                        r.build().path("b/:under").merge(o);
                    }
                }
                sh.add_states(1);
                let mut rq: Vec<Vec<u8>> = routes.iter().map(|x| x.1.replace(|c| c == ':' || c == '*', "x").into_bytes()).collect();
                rq.push(format!("n{}", n).into_bytes());
                rq.push(b"z".to_vec());
                if below {
                    rq = rq.iter().map(|p| join(b"b/u", p)).collect();
                }
                let desc = || format!("{} routes of shape {} built in way {}", n, shape, how);
                compare(sh, &r, &m, &rq, &two, false, true, "crowd", &desc);
            });
            // every shortcut does what the general form does, and so does putting in finished routers
            type MR = MethodRouter<TreeRouter<Option<H>>>;
            let names = ["GET", "POST", "PATCH", "PUT", "DELETE", "OPTIONS", "HEAD", "CONNECT", "TRACE", "PURGE"];
            // (method, way): the shortcuts exist for the first eight
            let puts: Vec<(usize, usize)> = (0..names.len()).flat_map(|m| (0..if m < 8 { 6 } else { 4 }).map(move |w| (m, w))).collect();
            fn put(r: &mut MR, name: &str, way: usize, id: usize) {
                let m: Method = name.parse().unwrap();
                let h = H(id);
                match way {
                    0 => r.build().on(m, h),
                    1 => r.insert(m, TreeRouter::with_handler(Some(h))),
                    2 => {
                        r.build().method::<H>(m).handler(h);
                    }
                    3 => {
                        r.build().many(|b| b.on(m, h));
                    }
                    4 => {
                        let mut b = r.build();
                        match name {
                            "GET" => b.on_get(h),
                            "POST" => b.on_post(h),
                            "PATCH" => b.on_patch(h),
                            "PUT" => b.on_put(h),
                            "DELETE" => b.on_delete(h),
                            "OPTIONS" => b.on_options(h),
                            "HEAD" => b.on_head(h),
                            _ => b.on_connect(h),
                        }
                    }
                    _ => {
                        let mut b = r.build();
                        let mut t = match name {
                            "GET" => b.get::<H>(),
                            "POST" => b.post::<H>(),
                            "PATCH" => b.patch::<H>(),
                            "PUT" => b.put::<H>(),
                            "DELETE" => b.delete::<H>(),
                            "OPTIONS" => b.options::<H>(),
                            "HEAD" => b.head::<H>(),
                            _ => b.connect::<H>(),
                        };
                        t.handler(h);
                    }
                }
            }
            let k = puts.len();
            ctx.par("shortcuts", k * k * 2, |i, sh| {
                let mut d = Digits(i);
                let (a, b, third) = (puts[d.take(k)], puts[d.take(k)], d.take(2) == 1);
                let mut list = vec![a, b];
                if third {
                    list.push((a.0, 0));
                }
                let mut r = MR::new();
                let mut model = Node::default();
                for (id, &(m, w)) in list.iter().enumerate() {
                    put(&mut r, names[m], w, id);
                    model.add(names[m], b"", id);
                }
                sh.add_states(1);
                let ms: Vec<Method> = names.iter().map(|n| n.parse().unwrap()).collect();
                let desc = || format!("(method, way) {:?}", list.iter().map(|&(m, w)| (names[m], w)).collect::<Vec<_>>());
                // the inner tree knows no other path, so only the root matters here
                compare(sh, &r, &model, &[b"/".to_vec()], &ms, false, false, "shortcuts", &desc);
                let mut links: Vec<String> = r.hyperlinks(Link { method: None, path: vec![], handler: None }).iter().map(|l| format!("{:?} {:?}", l.method.as_ref().map(|m| m.to_string()), l.handler.and_then(|h| h.description()))).collect();
                links.sort();
                let mut want: Vec<String> = model.handlers.iter().map(|(m, h)| format!("{:?} {:?}", Some(m), Some(format!("h{}", h.id)))).collect();
                want.sort();
                if links != want {
                    sh.violation("shortcuts:links", format!("{}\nexpected {:?}\ngot      {:?}", desc(), want, links));
                }
            });
            // the same for statuses
            type SR = StatusRouter<TreeRouter<Option<H>>>;
            let statuses = [200u16, 404, 403, 299];
            ctx.par("status-shortcuts", 16 * 16 * 16, |i, sh| {
                let mut d = Digits(i);
                let list = [(d.take(4), d.take(4)), (d.take(4), d.take(4)), (d.take(4), d.take(4))];
                let mut r = SR::new();
                let mut want = std::collections::BTreeMap::new();
                for (id, &(s, way)) in list.iter().enumerate() {
                    let st = StatusCode::from_u16(statuses[s]);
                    match way {
                        0 => r.build().on(st, H(id)),
                        1 => r.insert(st, TreeRouter::with_handler(Some(H(id)))),
                        2 => {
                            r.build().status(st).handler(H(id));
                        }
                        _ => {
                            r.build().many(|b| b.on(st, H(id)));
                        }
                    }
                    want.insert(s, id);
                }
                sh.add_states(1);
                let global = Global::default();
                for (s, &code) in statuses.iter().enumerate() {
                    let c = Context::mock(Method::Get, "", rustful::header::Headers::new(), &global);
                    let o = drive_from(&r, &global, c, b"/", StatusCode::from_u16(code), 0, false);
                    sh.trans(1);
                    sh.trace();
                    let ran: Vec<usize> = o.ran.iter().map(|r| r.id).collect();
                    if ran != want.get(&s).map(|&x| vec![x]).unwrap_or_default() || !o.intact {
                        sh.violation("status-shortcuts", format!("(status, way) {:?}: at {} expected {:?}, got {:?}", list.iter().map(|&(s, w)| (statuses[s], w)).collect::<Vec<_>>(), code, want.get(&s), ran));
                    }
                }
                let n = r.hyperlinks(Link { method: None, path: vec![], handler: None }).len();
                if n != want.len() {
                    sh.violation("status-shortcuts:links", format!("{:?}: {} links", list, n));
                }
            });
            // and for alternatives: which side is which
            type OR = OrElse<MethodRouter<TreeRouter<Option<H>>>, MethodRouter<TreeRouter<Option<H>>>>;
            ctx.par("alternative-shortcuts", 9 * 5 * 2, |i, sh| {
                let mut d = Digits(i);
                let (a, b, way, swap) = (d.take(3), d.take(3), d.take(5), d.take(2) == 1);
                // 0: empty, 1: GET, 2: GET and POST
                let side = |what: usize, id: usize| {
                    let mut m = MR::new();
                    if what > 0 {
                        m.build().on_get(H(id));
                    }
                    if what > 1 {
                        m.build().on_post(H(id + 1));
                    }
                    m
                };
                let (pa, sb) = (|| side(a, 0), || side(b, 10));
                let mut r: OR = match way {
                    0 => OrElse::new(pa(), sb()),
                    1 => {
                        let mut r = OR::with_primary(pa());
                        r.secondary = sb();
                        r
                    }
                    2 => {
                        let mut r = OR::with_secondary(sb());
                        r.primary = pa();
                        r
                    }
                    3 => {
                        let mut r = OR::default();
                        r.build().primary().merge(pa());
                        r.build().secondary().merge(sb());
                        r
                    }
                    _ => {
                        let mut r = OR::with_primary(pa());
                        r.build().many(|b| {
                            b.secondary().merge(sb());
                        });
                        r
                    }
                };
                let mut model = Node::default();
                for (x, id) in [(b, 10), (a, 0)] {
                    if x > 0 {
                        model.add("GET", b"", id);
                    }
                    if x > 1 {
                        model.add("POST", b"", id + 1);
                    }
                }
                if swap {
                    // later registrations go where they are told to
                    r.build().primary().on_put(H(20));
                    r.build().secondary().on_put(H(21));
                    r.build().secondary().on(Method::Delete, H(22));
                    model.add("PUT", b"", 20);
                    model.add("DELETE", b"", 22);
                }
                sh.add_states(1);
                let ms: Vec<Method> = names.iter().map(|n| n.parse().unwrap()).collect();
                let desc = || format!("sides {} {} built in way {}, later registrations {}", a, b, way, swap);
                compare(sh, &r, &model, &[b"/".to_vec()], &ms, false, false, "alternative-shortcuts", &desc);
            });
            // routers of content factories
            struct Make(usize);
            impl CreateContent for Make {
                type Output = String;
                fn create_content(&self, c: Context) -> String {
                    let x = observe(self.0, &c, StatusCode::Ok);
                    RAN.with(|v| v.borrow_mut().push(x));
                    format!("f{}", self.0)
                }
            }
            type FR = DefaultRouter<ContentFactory<Make>>;
            let fp: Vec<Vec<u8>> = ["", "a", ":x", "*y", "a/:z"].iter().map(|p| p.as_bytes().to_vec()).collect();
            let freq: Vec<Vec<u8>> = ["/", "/a", "/b", "/a/b", "/b/a"].iter().map(|p| p.as_bytes().to_vec()).collect();
            let n = fp.len();
            ctx.par("factories", n * n * n * 4 * 3, |i, sh| {
                let mut d = Digits(i);
                let regs = [(fp[d.take(n)].clone(), d.take(2)), (fp[d.take(n)].clone(), d.take(2)), (fp[d.take(n)].clone(), 0)];
                let way = d.take(3);
                let mut model = Node::default();
                let mut r = FR::new();
                let mut o = FR::new();
                for (id, (p, m)) in regs.iter().enumerate() {
                    let me = [Method::Get, Method::Post][*m].clone();
                    model.add(me.as_ref(), p, id);
                    match way {
                        0 => r.build().path(p).then().on(me, Make(id)),
                        1 => {
                            // merging hands the later ones over
                            let to = if id == 0 { &mut r } else { &mut o };
                            to.build().path(p).then().on(me, Make(id));
                        }
                        _ => {
                            let one: FR = vec![(me, p, ContentFactory(Make(id)))].into_iter().collect();
                            r.build().merge(one);
                        }
                    }
                }
                r.build().merge(o);
                sh.add_states(1);
                let desc = || format!("content factories {:?} in way {}", regs.iter().map(|(p, m)| (show(p), m)).collect::<Vec<_>>(), way);
                compare(sh, &r, &model, &freq, &two, false, true, "factories", &desc);
            });
            // no path string makes the builder panic
            let words: Vec<Vec<u8>> = dict::forms().into_iter().chain((0..=255u8).map(|c| vec![c])).collect();
            let n = strings_upto(5, ctx.pick(5, 6));
            ctx.par("strings", n + words.len() * 4, |i, sh| {
                let p: Vec<u8> = if i < n {
                    string_at(5, i).iter().map(|&c| b"a:*/\xff"[c]).collect()
                } else {
                    let w = &words[(i - n) / 4];
                    match (i - n) % 4 {
                        0 => w.clone(),
                        1 => [b"a/", &w[..]].concat(),
                        2 => [b":", &w[..]].concat(),
                        _ => [b"*", &w[..], b"/", w].concat(),
                    }
                };
                let res = catch(|| {
                    let mut r: DefaultRouter<H> = DefaultRouter::new();
                    let mut m = Node::default();
                    assert_eq!(r.build().get_path(&p).is_some(), segments(&p).is_empty());
                    r.build().path(&p).then().on_get(H(1));
                    m.add("GET", &p, 1);
                    assert!(r.build().get_path(&p).is_some());
                    r.build().path(&p).path(&p).then().on_get(H(2));
                    m.add("GET", &join(&p, &p), 2);
                    let o: DefaultRouter<H> = vec![(Method::Post, &p, H(3))].into_iter().collect();
                    r.build().path(&p).merge(o);
                    m.add("POST", &join(&p, &p), 3);
                    let mut t: TreeRouter<Option<H>> = TreeRouter::new();
                    t.build().on_path(&p, H(1));
                    if segments(&p).len() <= 1 {
                        t.build().path(&p).on_route(&p, H(2));
                    }
                    (r, m)
                });
                sh.add_states(1);
                match res {
                    Ok((r, m)) => {
                        let desc = || format!("path string {:?}", show(&p));
                        let mut rq = reqs.clone();
                        rq.push(p.clone());
                        rq.push(join(&p, &p));
                        compare(sh, &r, &m, &rq, &two, false, true, "strings", &desc)
                    }
                    Err(e) => sh.violation(format!("builder-panic:{}", norm(&e)), format!("path {:?}: {}", show(&p), e)),
                }
            });
        },
    )
}

fn only_method(n: &Node, m: &str) -> Node {
    let mut out = Node::default();
    if let Some(h) = n.handlers.get(m) {
        out.handlers.insert(m.to_string(), h.clone());
    }
    for (k, c) in &n.stat {
        out.stat.insert(k.clone(), only_method(c, m));
    }
    out.var = n.var.as_ref().map(|c| Box::new(only_method(c, m)));
    out.seq = n.seq.as_ref().map(|c| Box::new(only_method(c, m)));
    out
}
