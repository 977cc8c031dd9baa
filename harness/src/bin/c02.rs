//! C02: route variables carry exactly the matched path bytes.
use mc::gen::*;
use mc::routes::*;
use mc::*;
use rustful::server::Global;
use rustful::{DefaultRouter, Method};

/// Segment kinds of a pattern.
const KINDS: usize = 5;

/// A pattern from its kinds; labels are unique per route and position.
fn pattern(kinds: &[usize], route: usize, stat: &[u8]) -> Vec<u8> {
    let mut p = vec![];
    for (d, &k) in kinds.iter().enumerate() {
        p.push(b'/');
        match k {
            0 => p.extend_from_slice(stat),
            1 => p.extend_from_slice(format!(":v{}{}", route, d).as_bytes()),
            2 => p.extend_from_slice(format!("*s{}{}", route, d).as_bytes()),
            3 => p.push(b':'),
            _ => p.push(b'*'),
        }
    }
    p
}

fn paths(alpha: &[&[u8]], max: usize) -> Vec<Vec<u8>> {
    (0..strings_upto(alpha.len(), max))
        .map(|i| {
            let mut p = vec![];
            for c in string_at(alpha.len(), i) {
                p.push(b'/');
                p.extend_from_slice(alpha[c]);
            }
            p
        })
        .collect()
}

fn run(sh: &mut Shard, global: &Global, set: &[(Method, Vec<u8>, usize)], reqs: &[Vec<u8>], methods: &[Method]) {
    for &links in &[false, true] {
        let mut model = Node::default();
        let mut r: DefaultRouter<H> = DefaultRouter::new();
        for (m, p, id) in set {
            r.build().path(p).then().on(m.clone(), H(*id));
            model.add(&m.to_string(), p, *id);
        }
        r.find_hyperlinks = links;
        sh.add_states(1);
        for m in methods {
            for path in reqs {
                let o = drive(&r, global, m.clone(), path);
                sh.trans(1);
                sh.trace();
                // which handler runs is C01's business; the one that does must have its own variables
                let ran = match o.ran.first() {
                    Some(r) => r,
                    None => continue,
                };
                let ms = model.matches(&segments(path));
                let own = ms.iter().find_map(|(mt, n)| n.handlers.get(&m.to_string()).filter(|h| h.id == ran.id).map(|h| vars_of(&h.names, &mt.values)));
                let vars = match own {
                    Some(v) => v,
                    None => continue,
                };
                if links && vars.len() > 1 {
                    sh.sample(|| format!("{:?} {} -> {:?}", set.iter().map(|x| show(&x.1)).collect::<Vec<_>>(), show(path), ran.vars));
                }
                if !vars_ok(&vars, &ran.vars) {
                    let key = if ran.vars.len() > vars.len() { "extra-variables" } else if ran.vars.len() < vars.len() { "missing-variables" } else { "wrong-values" };
                    sh.violation(
                        key,
                        format!(
                            "routes {:?}\nhyperlink search {}\nrequest {} {:?}\nh{} expected {:?}\ngot {:?}",
                            set.iter().map(|(m, p, i)| format!("{} {} -> h{}", m, show(p), i)).collect::<Vec<_>>(),
                            links, m, show(path), ran.id, pretty_e(&vars), pretty(&ran.vars)
                        ),
                    );
                }
            }
        }
    }
}

fn pretty(v: &[(Seg, Seg)]) -> Vec<String> {
    v.iter().map(|(k, v)| format!("{}={}", show(k), show(v))).collect()
}
fn pretty_e(v: &[(Seg, Vec<Seg>)]) -> Vec<String> {
    v.iter().map(|(k, v)| format!("{}={}", show(k), v.iter().map(|x| show(x)).collect::<Vec<_>>().join("|"))).collect()
}

fn main() {
    check_main(
        "C02",
        Level::ModelChecking,
        "every route set over {static, named/unnamed variable, named/unnamed sequence} x method assignment x path (with empty and non-UTF-8 segments) x search mode; state = one router",
        |ctx| {
            ctx.assume("when one pattern repeats a label, any of its values is accepted");
            let global = Global::default();
            let kinds3: Vec<Vec<usize>> = (0..strings_upto(KINDS, 3)).map(|i| string_at(KINDS, i)).collect();
            let kinds2: Vec<Vec<usize>> = (0..strings_upto(KINDS, 2)).map(|i| string_at(KINDS, i)).collect();
            let kinds4: Vec<Vec<usize>> = (0..strings_upto(KINDS, 4)).map(|i| string_at(KINDS, i)).collect();
            let odd3 = paths(&[b"a", b"c", b"", b"\xff"], 3);
            let odd4 = paths(&[b"a", b"c", b"", b"\xff\xc3"], 4);
            let plain5 = paths(&[b"a", b"c"], 5);
            let mut reqs = odd3.clone();
            reqs.extend(plain5.clone());
            // one route, deep
            ctx.par("one", kinds4.len(), |i, sh| {
                let mut r = odd4.clone();
                r.extend(plain5.clone());
                run(sh, &global, &[(Method::Get, pattern(&kinds4[i], 0, b"a"), 0)], &r, &[Method::Get]);
            });
            // two routes, all pairs including the same place twice
            let n = kinds3.len();
            ctx.par("two", n * n * 2, |i, sh| {
                let mut d = Digits(i);
                let (a, b, same) = (d.take(n), d.take(n), d.take(2) == 0);
                if a > b {
                    return; // order of registration does not matter for different places; C04 covers it
                }
                let set = [
                    (Method::Get, pattern(&kinds3[a], 0, b"a"), 0),
                    (if same { Method::Get } else { Method::Post }, pattern(&kinds3[b], 1, b"a"), 1),
                ];
                let rq: &[Vec<u8>] = if sh.thorough() { &reqs } else if kinds3[a].len() + kinds3[b].len() > 4 { &plain5[..31] } else { &reqs };
                run(sh, &global, &set, rq, if same { &[Method::Get] } else { &[Method::Get, Method::Post] });
            });
            // three routes
            let n = kinds2.len();
            let small = paths(&[b"a", b"c"], ctx.pick(3, 4));
            ctx.par("three", n * n * n * 4, |i, sh| {
                let mut d = Digits(i);
                let (a, b, c, mask) = (d.take(n), d.take(n), d.take(n), d.take(4));
                if a > b || b > c {
                    return;
                }
                let set = [
                    (Method::Get, pattern(&kinds2[a], 0, b"a"), 0),
                    (if mask & 1 == 0 { Method::Get } else { Method::Post }, pattern(&kinds2[b], 1, b"a"), 1),
                    (if mask & 2 == 0 { Method::Get } else { Method::Post }, pattern(&kinds2[c], 2, b"a"), 2),
                ];
                run(sh, &global, &set, &small, &[Method::Get]);
            });
            // static segments that are not UTF-8, odd labels
            let odd_labels: Vec<Vec<u8>> = vec![
                b"/:\xff".to_vec(), b"/*\xff".to_vec(), b"/::".to_vec(), b"/**".to_vec(), b"/:*".to_vec(), b"/*:".to_vec(),
                b"/\xff/:x".to_vec(), b"/:x/\xff".to_vec(), b"/*x/\xff".to_vec(), b"/:\xe5\xa5/:b".to_vec(),
                b"/:x/:x".to_vec(), b"/*x/:x".to_vec(), b"/:a b".to_vec(), b"//:x".to_vec(), b"/:x//:y".to_vec(), b"/*x//".to_vec(),
            ];
            ctx.par("odd", odd_labels.len() * odd_labels.len(), |i, sh| {
                let mut d = Digits(i);
                let (a, b) = (d.take(odd_labels.len()), d.take(odd_labels.len()));
                let mut set = vec![(Method::Get, odd_labels[a].clone(), 0)];
                if a != b {
                    set.push((Method::Get, odd_labels[b].clone(), 1));
                }
                run(sh, &global, &set, &odd4, &[Method::Get]);
            });
            // what is in a value or a name: every byte, every pair of unusual ones
            let odd = b"\0 %+&=.:*;,#?~-_aZ0\x7f\x80\xc3\xa5\xff\xed\xbf";
            let words = dict::forms();
            ctx.par("contents", 256 + odd.len() * odd.len() + words.len(), |i, sh| {
                let t: Vec<u8> = if i < 256 { vec![i as u8] } else if i >= 256 + odd.len() * odd.len() { words[i - 256 - odd.len() * odd.len()].clone() } else { vec![odd[(i - 256) / odd.len()], odd[(i - 256) % odd.len()]] };
                if t.contains(&b'/') {
                    return;
                }
                let set: Vec<_> = [b"/:a".to_vec(), b"/:a/:b".to_vec(), b"/s/*c/e".to_vec(), [b"/n/:", &t[..]].concat(), [b"/m/*", &t[..], b"/:x"].concat(), [b"/o/:x", &t[..], b"/*", &t[..], b"x"].concat()]
                    .iter()
                    .enumerate()
                    .map(|(j, p)| (Method::Get, p.clone(), j))
                    .collect();
                let rq: Vec<Vec<u8>> = [&[b"/", &t[..]][..], &[b"/v/", &t], &[b"/", &t, b"/v"], &[b"/s/", &t, b"/e"], &[b"/s/", &t, b"/", &t, b"/e"], &[b"/n/v"], &[b"/n/", &t], &[b"/m/v/", &t, b"/w"], &[b"/o/", &t, b"/", &t, b"/z"]]
                    .iter()
                    .map(|p| p.concat())
                    .collect();
                run(sh, &global, &set, &rq, &[Method::Get]);
            });
            // every method, and for each the handlers of others beside it
            let words = dict::methods();
            ctx.par("method-words", kinds2.len() * words.len(), |i, sh| {
                let m = Method::Extension(words[i % words.len()].clone());
                let set = [(m.clone(), pattern(&kinds2[i / words.len()], 0, b"a"), 0), (Method::Get, b"/:a/*b".to_vec(), 1)];
                run(sh, &global, &set, &plain5[..31], &[m, Method::Get]);
            });
            let methods: Vec<Method> = vec![Method::Get, Method::Head, Method::Post, Method::Put, Method::Delete, Method::Patch, Method::Options, Method::Trace, Method::Connect, Method::Extension("M".into()), Method::Extension("get".into())];
            ctx.par("methods", kinds2.len() * kinds2.len() * methods.len(), |i, sh| {
                let mut d = Digits(i);
                let (a, b, m) = (d.take(kinds2.len()), d.take(kinds2.len()), d.take(methods.len()));
                let other = &methods[(m + 1) % methods.len()];
                let set = [(methods[m].clone(), pattern(&kinds2[a], 0, b"a"), 0), (other.clone(), pattern(&kinds2[b], 1, b"a"), 1)];
                run(sh, &global, &set, &plain5[..31], &methods[..]);
            });
            // sizes: long sequences, many variables, long names and values
            let lens = ladder(ctx.pick(40_000, 70_000));
            ctx.par("long", lens.len() * 8, |i, sh| {
                let mut d = Digits(i);
                let (n, shape) = (lens[lens.len() - 1 - d.take(lens.len())], d.take(8));
                // what is as deep as the route, and what grows faster than the route, stays smaller
                if n > match shape { 0 | 1 | 4 | 6 => usize::MAX, 2 => 1100, 7 => 260, _ => 5000 } {
                    return;
                }
                let many = |f: &dyn Fn(usize) -> String| (0..n).map(|j| format!("/{}", f(j))).collect::<String>();
                let (values, long) = (many(&|j| format!("s{}", j)), "x".repeat(n));
                let pats: Vec<String> = match shape {
                    0 => vec!["/*x".into(), "/*y/z".into()],
                    1 => vec!["/:a/*x/:b".into(), "/:c/*y/m/:d".into()],
                    2 => vec![many(&|j| format!(":v{}", j)), format!("{}/*rest", many(&|j| format!(":w{}", j)))],
                    3 => vec![format!("{}/:last", values), format!("/:first{}", values)],
                    6 => vec!["/:v".into(), "/a/:v/*w".into(), "/b/*w/:v".into()],
                    7 => vec!["/*x/a/*y/q".into(), "/*x/a/*y/:z/r".into(), "/:first/*z".into()],
                    4 => vec![format!("/:{}", long), format!("/a/:{}a/*{}b", long, long)],
                    _ => vec![many(&|j| if j % 3 == 0 { format!(":v{}", j) } else if j % 3 == 1 { ":".into() } else { format!("s{}", j) })],
                };
                let paths: Vec<Vec<u8>> = match shape {
                    4 => vec![b"/q".to_vec(), format!("/{}", long).into_bytes(), [b"/a/\xff", long.as_bytes(), b"/", long.as_bytes(), b"/", long.as_bytes()].concat()],
                    6 => vec![format!("/{}", long).into_bytes(), format!("/a/{}/{}/b", long, long).into_bytes(), format!("/b/c/{}/{}", long, long).into_bytes(), [b"/\xff", long.as_bytes()].concat()],
                    7 => { let a = "/a".repeat(n); ["", "/q", "/z/r"].iter().map(|t| format!("{}{}", a, t).into_bytes()).collect() }
                    3 => vec![format!("{}/z", values).into_bytes(), format!("/z{}", values).into_bytes()],
                    _ => ["", "/z", "/m/z", "/", "/a/b/c"].iter().map(|t| format!("{}{}", values, t).into_bytes()).chain(vec![[values.as_bytes(), b"/\xff"].concat(), [b"/\xff", values.as_bytes(), b"/z"].concat()]).collect(),
                };
                let set: Vec<_> = pats.iter().enumerate().map(|(j, p)| (Method::Get, p.clone().into_bytes(), j)).collect();
                run(sh, &global, &set, &paths, &[Method::Get]);
            });
            // whatever else the request says
            let heads = dict::heads();
            ctx.par("requests", heads.len(), |i, sh| {
                let mut model = Node::default();
                let mut r: DefaultRouter<H> = DefaultRouter::new();
                for (j, (m, p)) in [(Method::Get, "/:a"), (Method::Post, "/:a/*b"), (Method::Get, "/*c/d"), (Method::Head, "/:e/:f"), (Method::Put, "/*g")].iter().enumerate() {
                    r.build().path(p).then().on(m.clone(), H(j));
                    model.add(&m.to_string(), p.as_bytes(), j);
                }
                let inst = srv::instance(r);
                sh.add_states(1);
                for m in &["GET", "POST", "HEAD", "PUT"] {
                    for path in &["/x", "/x/y", "/x/d", "/x/y/d", "/x/%ff"] {
                        for v in 0..2 {
                            RAN.with(|v| v.borrow_mut().clear());
                            let _ = srv::talk(&inst, format!("{} {} HTTP/1.{}\r\nHost: h\r\n{}\r\n", m, path, v, heads[i]).as_bytes());
                            let ran = RAN.with(|v| std::mem::take(&mut *v.borrow_mut()));
                            sh.trans(1);
                            sh.trace();
                            let bytes: Vec<u8> = if path.ends_with("%ff") { b"/x/\xff".to_vec() } else { path.as_bytes().to_vec() };
                            let ms = model.matches(&segments(&bytes));
                            let ok = ran.iter().all(|r| ms.iter().find_map(|(mt, n)| n.handlers.get(*m).filter(|h| h.id == r.id).map(|h| vars_of(&h.names, &mt.values))).map_or(true, |v| vars_ok(&v, &r.vars)));
                            if !ok {
                                sh.violation("requests", format!("{} {} HTTP/1.{} {:?}\ngot {:?}", m, path, v, heads[i], ran));
                            }
                        }
                    }
                }
            });
            // conformance: through the server, variables come out of the percent-decoded path
            let toks: Vec<(&str, &[u8])> = vec![("a", b"a"), ("%61", b"a"), ("%ff", b"\xff"), ("%2F", b"/"), ("+", b"+"), ("%", b"%"), ("c%20d", b"c d"), ("", b"")];
            ctx.par("server", kinds2.len() * kinds2.len(), |i, sh| {
                let mut d = Digits(i);
                let (a, b) = (d.take(kinds2.len()), d.take(kinds2.len()));
                for &links in &[false, true] {
                    let mut model = Node::default();
                    let mut r: DefaultRouter<H> = DefaultRouter::new();
                    for (j, &k) in [a, b].iter().enumerate() {
                        let p = pattern(&kinds2[k], j, b"a");
                        r.build().path(&p).then().on_get(H(j));
                        model.add("GET", &p, j);
                    }
                    r.find_hyperlinks = links;
                    sh.add_states(1);
                    let inst = srv::instance(r);
                    for t in 0..strings_upto(toks.len(), 2) {
                        let s = string_at(toks.len(), t);
                        let mut target = String::new();
                        let mut path = vec![];
                        for &c in &s {
                            target.push('/');
                            target.push_str(toks[c].0);
                            path.push(b'/');
                            path.extend_from_slice(toks[c].1);
                        }
                        if target.is_empty() {
                            target.push('/');
                            path.push(b'/');
                        }
                        if target.starts_with("//") {
                            continue;
                        }
                        RAN.with(|v| v.borrow_mut().clear());
                        let got = srv::ask(&inst, format!("GET {} HTTP/1.1\r\nHost: h\r\n\r\n", target).as_bytes());
                        let ran = RAN.with(|v| std::mem::take(&mut *v.borrow_mut()));
                        sh.trans(1);
                        sh.trace();
                        let ms = model.matches(&segments(&path));
                        let ok = ran.iter().all(|r| {
                            ms.iter()
                                .find_map(|(mt, n)| n.handlers.get("GET").filter(|h| h.id == r.id).map(|h| vars_of(&h.names, &mt.values)))
                                .map_or(true, |v| vars_ok(&v, &r.vars))
                        });
                        if !ok || got.is_err() {
                            sh.violation("server", format!("routes {:?}\ntarget {:?} path {:?}\nexpected {:?}\ngot {:?} {:?}", (show(&pattern(&kinds2[a], 0, b"a")), show(&pattern(&kinds2[b], 1, b"a"))), target, show(&path), model.resolve("GET", &path), ran, got));
                        }
                    }
                }
            });
        },
    )
}
