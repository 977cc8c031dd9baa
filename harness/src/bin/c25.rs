//! C25: what custom routers work with is exact: the routing state, and the environment.
use mc::compose::*;
use mc::composed::*;
use mc::gen::*;
use mc::routes::*;
use mc::*;
use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
use rustful::context::MaybeUtf8Owned;
use rustful::handler::routing::{Route, RouteState};
use rustful::handler::{BuilderContext, Environment, FromHandler, HandleRequest};

// ------------------------------------------------------------------ the state on its own

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Keep,
    Skip,
    Fuse,
    /// back to where only so many segments had been passed
    Back(usize),
    /// go on with a copy, while the original goes its own ways
    Copy,
}

#[derive(Clone, Default)]
struct Model {
    done: Vec<Op>,
}
impl Model {
    /// The values up to here, and whether the last one is still open for more.
    fn values(&self, segs: &[Seg]) -> Vec<Seg> {
        let mut out = vec![];
        let mut open: Vec<Seg> = vec![];
        for (op, s) in self.done.iter().zip(segs) {
            if *op != Op::Skip {
                open.push(s.clone());
            }
            if *op == Op::Keep {
                out.push(open.join(&b'/'));
                open.clear();
            }
        }
        if !open.is_empty() {
            out.push(open.join(&b'/'));
        }
        out
    }
}

fn names_for(n: usize) -> Vec<Vec<Seg>> {
    let name = |i: usize| format!("n{}", i).into_bytes();
    let mut v = vec![
        (0..n).map(name).collect::<Vec<_>>(),
        (0..n + 2).map(name).collect(),
        (0..n).map(|i| if i % 2 == 0 { vec![] } else { name(i) }).collect(),
        (0..n).map(|i| if i % 2 == 1 { vec![] } else { name(i) }).collect(),
        (0..n).map(|_| b"same".to_vec()).collect(),
        (0..n).map(|i| vec![0xff, i as u8]).collect(),
    ];
    v.push(vec![vec![]; n]);
    v
}

fn agree(st: &RouteState, m: &Model, segs: &[Seg]) -> Option<(&'static str, String)> {
    let at = m.done.len();
    if st.get().map(|s| s.to_vec()) != segs.get(at).cloned() {
        return Some(("segment", format!("at {}: get() is {:?}", at, st.get().map(show))));
    }
    if st.is_empty() != (at == segs.len()) {
        return Some(("empty", format!("at {}: is_empty() is {}", at, st.is_empty())));
    }
    let values = m.values(segs);
    for names in names_for(values.len()) {
        let owned: Vec<MaybeUtf8Owned> = names.iter().map(|n| n.clone().into()).collect();
        let mut got: Vec<(Seg, Seg)> = st.variables(&owned).iter().map(|(k, v)| (k[..].to_vec(), v[..].to_vec())).collect();
        got.sort();
        let want = vars_of(&names, &values);
        if !vars_ok(&want, &got) {
            let f = |v: &[(Seg, Seg)]| v.iter().map(|(k, v)| format!("{}={}", show(k), show(v))).collect::<Vec<_>>();
            return Some(("variables", format!("at {}: with the names {:?} expected {:?}, got {:?}", at, names.iter().map(|n| show(n)).collect::<Vec<_>>(), want.iter().map(|(k, v)| (show(k), v.iter().map(|v| show(v)).collect::<Vec<_>>())).collect::<Vec<_>>(), f(&got))));
        }
    }
    None
}

type Snap = (usize, usize);

fn explore(sh: &mut Shard, segs: &[Seg], depth: usize, first: &[usize]) {
    let mut path = vec![];
    for s in segs {
        path.push(b'/');
        path.extend_from_slice(s);
    }
    if segs.last().map_or(false, |s| s.is_empty()) || path.is_empty() {
        path.push(b'/');
    }
    let st = RouteState::from(&path[..]);
    let snaps = vec![st.snapshot()];
    fn rec(sh: &mut Shard, segs: &[Seg], st: &mut RouteState, m: &Model, snaps: &[Snap], left: usize, first: &[usize], trail: &mut Vec<Op>, more: &dyn Fn() -> bool) -> bool {
        let at = m.done.len();
        let mut moves = vec![Op::Copy];
        if at < segs.len() {
            moves.extend([Op::Keep, Op::Skip, Op::Fuse]);
        }
        moves.extend((0..at).map(Op::Back));
        if let Some((k, t)) = agree(st, m, segs) {
            sh.violation(format!("state:{}", k), format!("path {:?} after {:?}\n{}", segs.iter().map(|s| show(s)).collect::<Vec<_>>(), trail, t));
            return false;
        }
        if st.snapshot() != *snaps.last().unwrap() {
            sh.violation("state:snapshot", format!("path {:?} after {:?}: {:?}", segs.iter().map(|s| show(s)).collect::<Vec<_>>(), trail, st.snapshot()));
            return false;
        }
        sh.state(&(segs, &m.done));
        if left == 0 {
            sh.trace();
            return more();
        }
        for (i, op) in moves.iter().enumerate() {
            if first.first().map_or(false, |&f| f != i) {
                continue;
            }
            let rest = if first.is_empty() { first } else { &first[1..] };
            sh.trans(1);
            // what happens next happens to a copy, and the copy must not be told by the original
            let mut now = st.clone();
            let mut next = m.clone();
            let mut sn = snaps.to_vec();
            match *op {
                Op::Keep => now.keep(),
                Op::Skip => now.skip(),
                Op::Fuse => now.fuse(),
                Op::Back(j) => now.go_to(snaps[j]),
                Op::Copy => {
                    let mut other = now.clone();
                    while other.get().is_some() {
                        other.keep();
                    }
                    other.go_to(snaps[0]);
                    while other.get().is_some() {
                        other.fuse();
                    }
                }
            }
            match *op {
                Op::Back(j) => {
                    next.done.truncate(j);
                    sn.truncate(j + 1);
                }
                Op::Copy => {}
                op => {
                    next.done.push(op);
                    sn.push(now.snapshot());
                }
            }
            trail.push(*op);
            let ok = rec(sh, segs, &mut now, &next, &sn, left - 1, rest, trail, more);
            trail.pop();
            if !ok {
                return false;
            }
        }
        true
    }
    let more = sh.slot_ticker();
    let mut st = st;
    rec(sh, segs, &mut st, &Model::default(), &snaps, depth, first, &mut vec![], &more);
}

// ------------------------------------------------------------------ the environment

/// Leaves its marks on everything, before the rest gets its turn.
struct Mark(Any);
impl HandleRequest for Mark {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        e.response.headers_mut().set_raw("x-mark", vec![b"m".to_vec()]);
        e.context.variables.insert("mark", "v");
        e.context.hyperlinks.push(Link { method: None, path: vec![seg("old")], handler: None });
        self.0.handle_request(e)
    }
    fn hyperlinks<'a>(&'a self, l: Link<'a>) -> Vec<Link<'a>> {
        self.0.hyperlinks(l)
    }
}
fn seg(s: &'static str) -> LinkSegment<'static> {
    LinkSegment { label: s.into(), ty: SegmentType::Static }
}
fn links(n: usize) -> Vec<Link<'static>> {
    (0..n).map(|i| Link { method: if i == 1 { Some(rustful::Method::Put) } else { None }, path: vec![seg("new"), seg(["x", "y", "z"][i])], handler: None }).collect()
}
/// Other links for the router inside it.
struct Swap(usize, Any);
impl HandleRequest for Swap {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let (e, old) = e.replace_hyperlinks(links(self.0));
        self.1.handle_request(e).map_err(|e| {
            let (e, now) = e.replace_hyperlinks(old);
            if now.len() != self.0 {
                RAN.with(|v| v.borrow_mut().push(Ran { id: 7777, ..Ran::default() }));
            }
            e
        })
    }
    fn hyperlinks<'a>(&'a self, l: Link<'a>) -> Vec<Link<'a>> {
        self.1.hyperlinks(l)
    }
}

fn has_tree(t: &T) -> bool {
    match *t {
        T::Tree(..) => true,
        T::Opt(ref t) | T::Vars(ref t) | T::Walk(_, ref t) => has_tree(t),
        T::Or(ref a, ref b) => has_tree(a) || has_tree(b),
        T::Method(ref l) => l.iter().any(|e| has_tree(&e.1)),
        T::Status(ref l) => l.iter().any(|e| has_tree(&e.1)),
        _ => false,
    }
}

fn main() {
    check_main(
        "C25",
        Level::ModelChecking,
        "every sequence of operations on a routing state up to a depth, every spelling of a route, and every small composition with routers of one's own in it; state = one history of passed segments",
        |ctx| {
            ctx.assume("a segment is only passed where there is one, and a snapshot is only gone back to while what had been passed at it is still passed the same way (as a search with backtracking does)");
            ctx.assume("as many names are given as there are values, as the documentation of route variables says");
            let words: Vec<Vec<Seg>> = {
                let w = |l: &[&[u8]]| l.iter().map(|s| s.to_vec()).collect::<Vec<_>>();
                vec![
                    w(&[]), w(&[b"a"]), w(&[b"a", b"b"]), w(&[b"a", b"b", b"c"]), w(&[b"a", b"b", b"c", b"d"]), w(&[b"a", b"a", b"a"]), w(&[b"", b"\xff", b""]), w(&[b"a", b"", b"b"]), w(&[b"n0", b":x", b"*y", b"\xc3"]),
                    w(&[b"a", b"b", b"c", b"d", b"e"]),
                ]
            };
            let k = words.len();
            ctx.par("states", k * 120, |i, sh| {
                let mut d = Digits(i);
                let w = d.take(k);
                let first = [d.take(4), d.take(5), d.take(6)];
                explore(sh, &words[w], sh_depth(sh), &first);
            });
            fn sh_depth(sh: &Shard) -> usize {
                if sh.thorough() { 9 } else { 8 }
            }
            // one operation after the other, all the way, and back
            let lens = ladder(ctx.pick(1100, 20000));
            ctx.par("long", lens.len() * 39, |i, sh| {
                let mut d = Digits(i);
                let (n, w) = (lens[d.take(lens.len())], d.0);
                // a pattern of up to three operations, over and over
                let pattern: Vec<Op> = string_at(3, w + 1).iter().map(|&c| [Op::Keep, Op::Skip, Op::Fuse][c]).collect();
                if pattern.is_empty() {
                    return;
                }
                let segs: Vec<Seg> = (0..n).map(|j| format!("s{}", j).into_bytes()).collect();
                let path = segs.join(&b'/');
                let mut st = RouteState::from(&path[..]);
                let mut m = Model::default();
                let mut snaps = vec![st.snapshot()];
                for j in 0..n {
                    let op = pattern[j % pattern.len()];
                    match op {
                        Op::Keep => st.keep(),
                        Op::Skip => st.skip(),
                        _ => st.fuse(),
                    }
                    m.done.push(op);
                    snaps.push(st.snapshot());
                }
                sh.add_states(1);
                let mut backs = [n, n - n / 3, n / 2, n.min(1), 0];
                backs.sort_by(|a, b| b.cmp(a));
                for back in backs {
                    st.go_to(snaps[back]);
                    m.done.truncate(back);
                    sh.trans(1);
                    sh.trace();
                    if let Some((k, t)) = agree(&st, &m, &segs) {
                        return sh.violation(format!("long:{}", k), format!("{} segments, {:?} over and over, then back to {}: {}", n, pattern, back, &t[..t.len().min(600)]));
                    }
                }
            });
            // with the words of the code as segments
            let named: Vec<Seg> = dict::forms().into_iter().filter(|w| !w.contains(&b'/')).collect();
            let m = named.len();
            ctx.par("words", m * 3, |i, sh| {
                let w = named[i / 3].clone();
                let segs = match i % 3 {
                    0 => vec![w.clone()],
                    1 => vec![w.clone(), b"a".to_vec(), w],
                    _ => vec![b"a".to_vec(), w.clone(), w],
                };
                for first in 0..120 {
                    let mut d = Digits(first);
                    let first = [d.take(4), d.take(5), d.take(6)];
                    explore(sh, &segs, if sh.thorough() { 6 } else { 5 }, &first);
                }
            });
            // the same route, written in different ways
            let told: Vec<String> = dict::texts().into_iter().filter(|t| t.len() <= 24).collect();
            let short = strings_upto(3, ctx.pick(8, 10));
            ctx.par("spellings", short + told.len() * 3, |i, sh| {
                let s: String = if i < short {
                    string_at(3, i).iter().map(|&c| ['a', '/', 'é'][c]).collect()
                } else {
                    let t = &told[(i - short) / 3];
                    [t.to_string(), format!("a/{}/a", t), format!("{}/{}", t, t)][(i - short) % 3].clone()
                };
                let whole = segments(s.as_bytes());
                let look = |mut st: RouteState| {
                    let mut v: Vec<Seg> = vec![];
                    while let Some(x) = st.get() {
                        v.push(x.to_vec());
                        st.skip();
                    }
                    (v, st.is_empty())
                };
                let listed = |it: &mut dyn Iterator<Item = &[u8]>| it.map(|x| x.to_vec()).collect::<Vec<Seg>>();
                sh.state(&whole);
                let mut bad: Vec<String> = vec![];
                let mut check = |what: &str, got: Vec<Seg>, end: bool, want: &[Seg]| {
                    sh.trans(1);
                    if got != want || !end {
                        bad.push(format!("{}: {:?} instead of {:?}", what, got.iter().map(|x| show(x)).collect::<Vec<_>>(), want.iter().map(|x| show(x)).collect::<Vec<_>>()));
                    }
                };
                let (v, e) = look(RouteState::from(&s[..]));
                check("str", v, e, &whole);
                let (v, e) = look(RouteState::from(s.as_bytes()));
                check("bytes", v, e, &whole);
                check("segments of str", listed(&mut s.segments()), true, &whole);
                // cut in two and in three, at every place
                let cuts: Vec<usize> = (0..=s.len()).filter(|&c| s.is_char_boundary(c)).collect();
                for &a in &cuts {
                    for &b in cuts.iter().filter(|&&b| b >= a) {
                        let parts = [&s[..a], &s[a..b], &s[b..]];
                        let want: Vec<Seg> = parts.iter().flat_map(|p| segments(p.as_bytes())).collect();
                        let (v, e) = look(RouteState::from(&parts));
                        check("array of str", v, e, &want);
                        let strings: Vec<String> = parts.iter().map(|p| p.to_string()).collect();
                        let (v, e) = look(RouteState::from(&strings));
                        check("list of strings", v, e, &want);
                        let bytes: Vec<Vec<u8>> = parts.iter().map(|p| p.as_bytes().to_vec()).collect();
                        check("segments of lists of bytes", listed(&mut bytes.segments()), true, &want);
                        let nested: Vec<Box<Vec<&str>>> = vec![Box::new(parts[..1].to_vec()), Box::new(vec![]), Box::new(parts[1..].to_vec())];
                        check("list of lists", listed(&mut nested.segments()), true, &want);
                    }
                }
                sh.trace();
                for b in bad {
                    sh.violation("spellings", format!("route {:?}\n{}", s, b));
                }
            });
            // routers of one's own that take segments for themselves, anywhere among the others
            let ops: Vec<&'static str> = vec!["", "k", "s", "kk", "ks", "sk", "ss", "fk", "kfk", "fsk", "fkk", "ffk", "skk", "kss"];
            let leaves = vec![T::H(0), T::None, T::Rej(403), T::Keep];
            let d1 = grow(&leaves, true);
            let n = ops.len();
            ctx.par("walks", d1.len() * n, |i, sh| {
                let t = T::Walk(ops[i % n], b(&d1[i / n]));
                everywhere(sh, &t);
                server(sh, &t);
            });
            let vars = T::Vars(Box::new(T::H(0)));
            let some: Vec<T> = vec![
                vars.clone(), T::H(0), T::Keep, T::Tree(false, vec![("", vars.clone()), (":x", vars.clone())]), T::Tree(true, vec![("a", vars.clone()), ("*y", T::Rej(403))]), T::Method(vec![("POST", vars.clone())]),
                T::Tree(false, vec![(":x", T::Walk("", b(&vars))), ("a/:z", vars.clone())]), T::Status(vec![(404, vars.clone())]),
            ];
            let m = some.len();
            ctx.par("walk-alternatives", n * n * m * m, |i, sh| {
                let mut d = Digits(i);
                let (x, y, p, q) = (d.take(n), d.take(n), d.take(m), d.take(m));
                let (w, v) = (T::Walk(ops[x], b(&some[p])), T::Walk(ops[y], b(&some[q])));
                everywhere(sh, &T::Or(b(&w), b(&v)));
                // one after the other
                everywhere(sh, &T::Walk(ops[x], b(&T::Or(b(&v), b(&some[p])))));
                if i % m == 0 {
                    server(sh, &T::Or(b(&w), b(&v)));
                }
            });
            // other links for the inner router, and nothing else changes
            let mut inner: Vec<T> = d1.iter().filter(|t| !has_vars(t)).cloned().collect();
            inner.extend(leaves.clone());
            inner.extend(small());
            let k = inner.len();
            ctx.par("links", k * 4, |i, sh| {
                DEEP.with(|d| d.set(true));
                let (mut t, n) = (inner[i / 4].clone(), i % 4);
                number(&mut t, &mut 1);
                let build = |t: &T| Any::from_handler(BuilderContext::new(), t);
                let or = |a: Box<dyn HandleRequest>| Any(Box::new(rustful::OrElse::new(Any(a), build(&T::H(900)))));
                let plain = srv::instance(Mark(or(Box::new(build(&t)))));
                let swapped = srv::instance(Mark(or(Box::new(Swap(n, build(&t))))));
                sh.add_states(1);
                for (m, p) in REQS {
                    let req = format!("{} {}?k=v#f HTTP/1.{}\r\nHost: h\r\nX-Probe: 1\r\nContent-Length: 4\r\n\r\nbody", m, p, (m == "GET") as u8);
                    let go = |inst: &rustful::server::ServerInstance<Mark>| {
                        RAN.with(|v| v.borrow_mut().clear());
                        BODY.with(|v| v.borrow_mut().clear());
                        let got = srv::ask(inst, req.as_bytes()).map(|r| r.stable());
                        (got, RAN.with(|v| std::mem::take(&mut *v.borrow_mut())), BODY.with(|v| std::mem::take(&mut *v.borrow_mut())))
                    };
                    let (a, mut ran_a, body_a) = go(&plain);
                    let (b, ran_b, body_b) = go(&swapped);
                    sh.trans(1);
                    sh.trace();
                    // the handler behind the inner router sees the old links again
                    for r in &mut ran_a {
                        if r.id != 900 && !has_tree(&t) {
                            r.links = (0..n).map(|i| (if i == 1 { Some("PUT".to_string()) } else { None }, vec![(b"new".to_vec(), 0), (["x", "y", "z"][i].as_bytes().to_vec(), 0)])).collect();
                            r.links.sort();
                            r.link_handlers = r.links.iter().filter_map(|l| l.0.clone()).map(|m| (m, None)).collect();
                        } else if r.id == 900 && r.links != vec![(None, vec![(b"old".to_vec(), 0)])] {
                            sh.violation("links:old-lost", format!("{:?}: {:?}", t, r));
                        }
                    }
                    let mut ran_b = ran_b;
                    ran_b.iter_mut().for_each(|r| r.links.sort());
                    if a.is_err() || a != b || body_a != body_b || ran_a != ran_b {
                        sh.violation("links", format!("router {:?} given {} links\nrequest {:?}\nwithout {:?} {:?}\nwith    {:?} {:?}", t, n, req, a, ran_a, b, ran_b));
                    }
                }
            });
        },
    )
}
