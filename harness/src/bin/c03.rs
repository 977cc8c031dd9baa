//! C03: hyperlink search changes nothing but adds exactly the documented links.
use mc::compose::*;
use mc::gen::*;
use mc::routes::*;
use mc::*;
use rustful::handler::{BuilderContext, FromHandler};
use rustful::server::Global;
use rustful::{DefaultRouter, Handler, Method};
use std::sync::Arc;

const M: [Method; 2] = [Method::Get, Method::Post];

fn pats(alpha: &[&str], depth: usize) -> Vec<Vec<usize>> {
    (0..strings_upto(alpha.len(), depth)).map(|i| string_at(alpha.len(), i)).collect()
}

fn text(alpha: &[&str], p: &[usize], route: usize) -> Vec<u8> {
    let mut s = Vec::new();
    for (d, &c) in p.iter().enumerate() {
        s.push(b'/');
        s.extend_from_slice(alpha[c].as_bytes());
        if alpha[c] == ":" || alpha[c] == "*" {
            s.extend_from_slice(format!("l{}{}", route, d).as_bytes());
        }
    }
    s
}

/// Build the same table with and without search and compare on every request.
fn run(sh: &mut Shard, global: &Global, set: &[(Method, Vec<u8>, usize)], reqs: &[Vec<u8>], methods: &[Method]) {
    run_as(sh, global, set, reqs, methods, &H)
}

fn run_as<X: Handler>(sh: &mut Shard, global: &Global, set: &[(Method, Vec<u8>, usize)], reqs: &[Vec<u8>], methods: &[Method], mk: &dyn Fn(usize) -> X) {
    let mut model = Node::default();
    let mut on: DefaultRouter<X> = DefaultRouter::new();
    let mut off: DefaultRouter<X> = DefaultRouter::new();
    for (m, p, id) in set {
        on.build().path(p).then().on(m.clone(), mk(*id));
        off.build().path(p).then().on(m.clone(), mk(*id));
        model.add(&m.to_string(), p, *id);
    }
    on.find_hyperlinks = true;
    sh.add_states(1);
    for m in methods {
        for path in reqs {
            let a = drive(&off, global, m.clone(), path);
            let b = drive(&on, global, m.clone(), path);
            sh.trans(2);
            sh.trace();
            let strip = |o: &Outcome| (o.ran.iter().map(|r| (r.id, r.status, r.vars.clone())).collect::<Vec<_>>(), o.rejected);
            let desc = |what: String| {
                format!(
                    "routes {:?}\nrequest {} {:?}\n{}",
                    set.iter().map(|(m, p, i)| format!("{} {} -> h{}", m, show(p), i)).collect::<Vec<_>>(),
                    m,
                    show(path),
                    what
                )
            };
            if strip(&a) != strip(&b) {
                sh.violation("modes-differ", desc(format!("without search {:?}\nwith search {:?}", strip(&a), strip(&b))));
            }
            if let Some(r) = a.ran.first() {
                if !r.links.is_empty() {
                    sh.violation("links-without-search", desc(format!("links {:?}", r.links)));
                }
            }
            if let Some(r) = b.ran.first() {
                let want = model.links(&m.to_string(), path);
                if r.links != want {
                    let (g, w): (std::collections::BTreeSet<_>, std::collections::BTreeSet<_>) = (r.links.iter().collect(), want.iter().collect());
                    let key = if g == w { "links-order-or-duplicates" } else if g.is_superset(&w) { "extra-links" } else if g.is_subset(&w) { "missing-links" } else { "wrong-links" };
                    sh.violation(key, desc(format!("expected links {:?}\ngot {:?}", want, r.links)));
                }
                if r.links.len() > 2 {
                    sh.sample(|| desc(format!("links {:?}", r.links)));
                }
                // a method link points at a handler registered for that method on a matching node
                for (lm, h) in &r.link_handlers {
                    let cands: Vec<String> = model.matches(&segments(path)).iter().filter_map(|(_, n)| n.handlers.get(lm)).map(|h| format!("h{}", h.id)).collect();
                    if !h.as_ref().map_or(false, |h| cands.contains(h)) {
                        sh.violation("link-handler", desc(format!("method link {} points at {:?}, candidates {:?}", lm, h, cands)));
                    }
                }
            }
        }
    }
}

fn reqs(alpha: &[&str], max: usize) -> Vec<Vec<u8>> {
    (0..strings_upto(alpha.len(), max))
        .map(|i| string_at(alpha.len(), i).iter().flat_map(|&c| format!("/{}", alpha[c]).into_bytes()).collect())
        .collect()
}

fn off(t: &T) -> T {
    match *t {
        T::Tree(_, ref l) => T::Tree(false, l.clone()),
        ref t => t.clone(),
    }
}

/// A tree of composed routers: the same with and without search, and all their links.
fn composed(sh: &mut Shard, global: &Global, t: &T) {
    DEEP.with(|d| d.set(true));
    let mut t = t.clone();
    number(&mut t, &mut 1);
    let on = Any::from_handler(BuilderContext::new(), &t);
    let plain = Any::from_handler(BuilderContext::new(), &off(&t));
    sh.add_states(1);
    for &(m, p) in &REQS {
        let want = expected(&t, m, p);
        let a = drive(&plain, global, m.parse().unwrap(), p.as_bytes());
        let b = drive(&on, global, m.parse().unwrap(), p.as_bytes());
        sh.trans(2);
        sh.trace();
        let strip = |o: &Outcome| (o.ran.iter().map(|r| (r.id, r.status, r.vars.clone())).collect::<Vec<_>>(), o.rejected);
        let key = if strip(&a) != strip(&b) {
            "modes-differ"
        } else if let Some(r) = b.ran.first() {
            match want.iter().find(|w| matches!(w, Res::Handled { id, .. } if *id == r.id)) {
                Some(w @ Res::Handled { links, .. }) if *links != r.links || !linked_ok(r, w) => "composed-links",
                _ => continue,
            }
        } else {
            continue;
        };
        sh.violation(key, format!("router {:?}\nrequest {} {}\nexpected {:?}\nwithout search {:?}\nwith search {:?}", t, m, p, want, a, b));
    }
}

fn main() {
    check_main(
        "C03",
        Level::ModelChecking,
        "every route set x method sets per route x request, run with search on and off on the same table; state = one table",
        |ctx| {
            let global = Global::default();
            let spaces: Vec<(&str, Vec<&str>, usize, usize, usize, Vec<Vec<u8>>)> = {
                let mut v = vec![
                    ("deep<=2", vec!["a", ":", "*"], 3, 1, 2, reqs(&["a", "c"], 5)),
                    ("deep=3", vec!["a", ":", "*"], 3, 3, 3, reqs(&["a", "c"], 4)),
                    ("wide<=3", vec!["a", "b", ":", "*"], 2, 1, 3, reqs(&["a", "b", "c"], 3)),
                    ("empty", vec!["a", "", ":", "*"], 2, 1, 2, reqs(&["a", "", "c"], 4)),
                ];
                if ctx.thorough {
                    v.push(("wide=4", vec!["a", "b", ":", "*"], 2, 4, 4, reqs(&["a", "b", "c"], 3)));
                    v.push(("deep=4", vec!["a", ":", "*"], 3, 4, 4, reqs(&["a", "c"], 3)));
                    v.push(("deeper=2", vec!["a", ":", "*"], 4, 2, 2, reqs(&["a", "c"], 6)));
                }
                v
            };
            for (name, alpha, depth, min, max, rq) in &spaces {
                let ps = pats(alpha, *depth);
                let sets: Vec<Vec<usize>> = (*min..=*max).flat_map(|k| combinations(ps.len(), k)).collect();
                ctx.par(name, sets.len(), |i, sh| {
                    DEEP.with(|d| d.set(sets[i].len() < 3));
                    let c = &sets[i];
                    // each route: GET, POST or both (only for sets of up to two)
                    let opts: usize = if c.len() <= 2 { 3 } else { 2 };
                    for mut code in 0..opts.pow(c.len() as u32) {
                        let mut set = vec![];
                        for (j, &p) in c.iter().enumerate() {
                            let o = code % opts;
                            code /= opts;
                            if o != 1 {
                                set.push((Method::Get, text(alpha, &ps[p], set.len()), j));
                            }
                            if o != 0 {
                                set.push((Method::Post, text(alpha, &ps[p], set.len()), 10 + j));
                            }
                        }
                        run(sh, &global, &set, rq, if c.len() <= 2 { &M } else { &M[..1] });
                    }
                });
            }
            // many methods at one node and at overlapping nodes
            let methods = [Method::Get, Method::Post, Method::Put, Method::Delete, Method::Patch, Method::Extension("X".into())];
            let places = ["/a", "/:v", "/*w"];
            ctx.par("methods", 1 << (2 * methods.len()), |i, sh| {
                DEEP.with(|d| d.set(true));
                for pl in 0..3 {
                    let mut set = vec![];
                    for (j, m) in methods.iter().enumerate() {
                        for (k, p) in [places[pl], places[(pl + 1) % 3]].iter().enumerate() {
                            if i >> (2 * j + k) & 1 == 1 {
                                set.push((m.clone(), p.as_bytes().to_vec(), set.len()));
                            }
                        }
                    }
                    run(sh, &global, &set, &[b"/a".to_vec(), b"/c".to_vec(), b"/a/c".to_vec()], &methods);
                }
            });
            // what is in a segment, and methods of other names
            let words: Vec<Vec<u8>> = dict::forms().into_iter().chain((0..=255u8).map(|c| vec![c])).filter(|w| !w.contains(&b'/')).collect();
            let names = dict::methods();
            ctx.par("contents", words.len() + names.len(), |i, sh| {
                DEEP.with(|d| d.set(true));
                if i < words.len() {
                    let w = &words[i];
                    let ps: Vec<Vec<u8>> = vec![[b"/", &w[..]].concat(), [b"/a/", &w[..]].concat(), [b"/", &w[..], b"/b"].concat(), [b"/:", &w[..]].concat(), [b"/*", &w[..]].concat(), b"/a".to_vec()];
                    let rq: Vec<Vec<u8>> = vec![b"/a".to_vec(), [b"/", &w[..]].concat(), [b"/", &w[..], b"/b"].concat(), b"/c".to_vec()];
                    for pair in combinations(ps.len(), 2) {
                        let set: Vec<_> = pair.iter().enumerate().flat_map(|(j, &p)| vec![(Method::Get, ps[p].clone(), 2 * j), (Method::Post, ps[p].clone(), 2 * j + 1)]).collect();
                        run(sh, &global, &set, &rq, &M);
                    }
                } else {
                    let m = Method::Extension(names[i - words.len()].clone());
                    for p in &["/a", "/:v", "/*w", "/a/b"] {
                        let set = vec![(Method::Get, b"/a".to_vec(), 0), (m.clone(), p.as_bytes().to_vec(), 1), (Method::Put, b"/a/c".to_vec(), 2), (m.clone(), b"/a/c".to_vec(), 3)];
                        run(sh, &global, &set, &[b"/a".to_vec(), b"/a/b".to_vec(), b"/a/c".to_vec()], &[Method::Get, m.clone()]);
                    }
                }
            });
            // handlers that are shared or boxed
            ctx.par("wrapped", 6 * 27, |i, sh| {
                DEEP.with(|d| d.set(true));
                let mut d = Digits(i);
                let w = d.take(6);
                let mut set = vec![];
                for p in &["/a", "/:v", "/*w"] {
                    let k = d.take(3);
                    if k != 1 {
                        set.push((Method::Get, p.as_bytes().to_vec(), set.len()));
                    }
                    if k != 0 {
                        set.push((Method::Post, p.as_bytes().to_vec(), set.len()));
                    }
                }
                let rq = [b"/a".to_vec(), b"/c".to_vec(), b"/a/c".to_vec()];
                match w {
                    0 => run_as(sh, &global, &set, &rq, &M, &H),
                    1 => run_as(sh, &global, &set, &rq, &M, &|n| Arc::new(H(n))),
                    2 => run_as(sh, &global, &set, &rq, &M, &|n| Box::new(H(n)) as Box<dyn Handler>),
                    3 => run_as(sh, &global, &set, &rq, &M, &|n| Arc::new(Box::new(H(n)) as Box<dyn Handler>)),
                    4 => run_as(sh, &global, &set, &rq, &M, &|n| Box::new(Arc::new(H(n))) as Box<dyn Handler>),
                    _ => run_as(sh, &global, &set, &rq, &M, &|n| Arc::new(Arc::new(H(n)))),
                }
            });
            // many alternatives at a node, many nodes that match, and long paths to them
            let sizes = ladder(ctx.pick(1100, 4200));
            ctx.par("many", sizes.len() * 4, |i, sh| {
                DEEP.with(|d| d.set(true));
                let (n, kind) = (sizes[i / 4], i % 4);
                let mut set = vec![(Method::Get, b"/a".to_vec(), 0)];
                let mut rq = b"/a".to_vec();
                match kind {
                    0 => set.extend((0..n).map(|k| (Method::Get, format!("/a/child{}", k).into_bytes(), k + 1))),
                    1 => set.extend((0..n).map(|k| (Method::Extension(format!("METHOD{}", k)), b"/a".to_vec(), k + 1))),
                    2 => {
                        // n variables, and a sequence that matches as well
                        if n == 0 || n > 600 {
                            return;
                        }
                        rq = b"/a".repeat(n);
                        set = vec![(Method::Get, rq.clone(), 0), (Method::Post, (0..n).flat_map(|k| format!("/:v{}", k).into_bytes()).collect(), 1), (Method::Put, b"/*w".to_vec(), 2)];
                        set.push((Method::Get, [&b"/a".repeat(n - 1)[..], b"/*x/y"].concat(), 3));
                    }
                    _ => {
                        // every prefix of the path may be a sequence
                        if n == 0 || n > 10 {
                            return;
                        }
                        rq = b"/a".repeat(n);
                        for k in 0..n {
                            set.push((Method::Post, [&b"/a".repeat(k)[..], b"/*w"].concat(), 2 * k + 1));
                            set.push((Method::Extension(format!("M{}", k)), [b"/*w", &b"/a".repeat(k)[..]].concat(), 2 * k + 2));
                        }
                        set.push((Method::Get, rq.clone(), 99));
                    }
                }
                run(sh, &global, &set, &[rq], &M[..1]);
            });
            // compositions of routers in the nodes of trees, and trees within them
            let leaves = vec![T::H(0), T::None, T::Keep];
            let d1 = grow(&leaves, true);
            let mut d2 = d1.clone();
            d2.extend(ors(&leaves, &leaves));
            d2.extend(ors(&small(), &small()));
            let k = d2.len();
            let places: Vec<(&str, &str)> = vec![("", "a"), ("a", ""), ("a", ":x"), (":x", "*y"), ("*y", "a/:z"), ("a", "a/:z"), ("*y", "a")];
            ctx.par("compositions", k * 9 * places.len(), |i, sh| {
                let mut d = Digits(i);
                let (x, y, pl) = (d.take(k), d.take(9), places[d.take(places.len())]);
                let other = match y {
                    0 => T::H(0),
                    1 => T::Method(vec![("GET", T::H(0)), ("POST", T::H(0))]),
                    2 => T::Method(vec![("POST", T::Or(Box::new(T::None), Box::new(T::H(0))))]),
                    3 => T::Or(Box::new(T::Status(vec![(200, T::H(0)), (404, T::H(0))])), Box::new(T::Opt(Box::new(T::H(0))))),
                    4 => T::Vars(Box::new(T::Method(vec![("GET", T::H(0))]))),
                    5 => T::Tree(false, vec![("", T::H(0)), ("b", T::H(0)), (":v", T::H(0)), ("*w", T::H(0))]),
                    6 => T::Method(vec![("GET", T::Tree(true, vec![("", T::H(0)), ("b", T::H(0))])), ("POST", T::Tree(false, vec![("*w", T::H(0))]))]),
                    7 => T::None,
                    _ => T::Keep,
                };
                composed(sh, &global, &T::Tree(true, vec![(pl.0, d2[x].clone()), (pl.1, other)]));
            });
            // conformance: whole responses of the server are the same in both modes
            let alpha = ["a", ":", "*"];
            let ps = pats(&alpha, 2);
            let sets: Vec<Vec<usize>> = (1..=ctx.pick(2, 3)).flat_map(|k| combinations(ps.len(), k)).collect();
            let rq = reqs(&["a", "c"], 3);
            ctx.par("server", sets.len(), |i, sh| {
                for mask in 0..1usize << sets[i].len() {
                    let mk = |links: bool| {
                        let mut r: DefaultRouter<H> = DefaultRouter::new();
                        for (j, &p) in sets[i].iter().enumerate() {
                            r.build().path(text(&alpha, &ps[p], j)).then().on(M[mask >> j & 1].clone(), H(j));
                        }
                        r.find_hyperlinks = links;
                        srv::instance(r)
                    };
                    let (off, on) = (mk(false), mk(true));
                    sh.add_states(1);
                    for m in &["GET", "POST", "PUT"] {
                        for p in &rq {
                            let req = format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", m, if p.is_empty() { "/".into() } else { show(p) });
                            let a = srv::ask(&off, req.as_bytes()).map(|r| r.stable());
                            let va = RAN.with(|v| std::mem::take(&mut *v.borrow_mut())).into_iter().map(|r| (r.id, r.vars)).collect::<Vec<_>>();
                            let b = srv::ask(&on, req.as_bytes()).map(|r| r.stable());
                            let vb = RAN.with(|v| std::mem::take(&mut *v.borrow_mut())).into_iter().map(|r| (r.id, r.vars)).collect::<Vec<_>>();
                            sh.trans(2);
                            sh.trace();
                            if a != b || a.is_err() || va != vb {
                                sh.violation("server", format!("routes {:?}\n{:?}\nwithout {:?} {:?}\nwith {:?} {:?}", sets[i], req, a, va, b, vb));
                            }
                        }
                    }
                }
            });
        },
    )
}
