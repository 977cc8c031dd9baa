//! C01: route selection, against an explicit model of the documented rule.
use mc::gen::*;
use mc::routes::*;
use mc::*;
use rustful::handler::{MethodRouter, TreeRouter, Variables};
use rustful::server::Global;
use rustful::{DefaultRouter, Method};

type R = DefaultRouter<Option<H>>;

fn build(set: &[(Method, Vec<u8>, usize)], links: bool) -> (TreeRouter<MethodRouter<Variables<H>>>, Node) {
    let mut model = Node::default();
    let mut r: DefaultRouter<H> = DefaultRouter::new();
    for (m, p, id) in set {
        r.build().path(p).then().on(m.clone(), H(*id));
        model.add(&m.to_string(), p, *id);
    }
    r.find_hyperlinks = links;
    (r, model)
}

/// Patterns with up to `depth` segments out of an alphabet of segments.
fn patterns(alpha: &[&str], depth: usize) -> Vec<Vec<u8>> {
    (0..strings_upto(alpha.len(), depth))
        .map(|i| {
            let mut s = string_at(alpha.len(), i).iter().map(|&c| alpha[c]).collect::<Vec<_>>().join("/");
            s.insert(0, '/');
            s.into_bytes()
        })
        .collect()
}

fn judge(sh: &mut Shard, model: &Node, o: &Outcome, set: &[(Method, Vec<u8>, usize)], m: &Method, path: &[u8], links: bool) {
    let want = model.resolve(&m.to_string(), path);
    let ok = match want {
        Expect::Handler { id, .. } => o.ran.len() == 1 && o.ran[0].id == id && o.rejected.is_none(),
        Expect::Reject(ref st) => o.ran.is_empty() && o.rejected.map_or(false, |s| st.contains(&s)),
    };
    let status_ok = o.ran.iter().all(|r| r.status == 200);
    if !ok || !status_ok {
        let key = match want {
            _ if ok => "handler-sees-status",
            Expect::Handler { .. } if o.ran.is_empty() => "not-handled",
            Expect::Handler { .. } => "wrong-handler",
            Expect::Reject(_) if o.ran.is_empty() => "wrong-rejection",
            Expect::Reject(_) => "handled-without-route",
        };
        sh.violation(
            key,
            format!(
                "routes {:?}\nhyperlink search {}\nrequest {} {:?}\nexpected {:?}\ngot handlers {:?} (initial status {:?}), rejected with {:?}",
                set.iter().map(|(m, p, id)| format!("{} {} -> h{}", m, show(p), id)).collect::<Vec<_>>(),
                links,
                m,
                show(path),
                want,
                o.ran.iter().map(|r| r.id).collect::<Vec<_>>(),
                o.ran.iter().map(|r| r.status).collect::<Vec<_>>(),
                o.rejected
            ),
        );
    }
}

fn explore(ctx: &Ctx, name: &str, pats: &[Vec<u8>], min: usize, max: usize, paths: &[Vec<u8>], both_methods: bool) {
    let sets: Vec<Vec<usize>> = (min..=max).flat_map(|k| combinations(pats.len(), k)).collect();
    explore_sets(ctx, name, pats, sets, paths, both_methods)
}

fn explore_sets(ctx: &Ctx, name: &str, pats: &[Vec<u8>], sets: Vec<Vec<usize>>, paths: &[Vec<u8>], both_methods: bool) {
    let global = Global::default();
    ctx.par(name, sets.len(), |i, sh| {
        let combo = &sets[i];
        for mask in 0..1usize << combo.len() {
            let set: Vec<_> = combo
                .iter()
                .enumerate()
                .map(|(j, &p)| (if mask >> j & 1 == 0 { Method::Get } else { Method::Post }, pats[p].clone(), j))
                .collect();
            for &links in &[false, true] {
                let (r, model) = build(&set, links);
                sh.add_states(1);
                for path in paths {
                    for m in if both_methods { &[Method::Get, Method::Post][..] } else { &[Method::Get][..] } {
                        let o = drive(&r, &global, m.clone(), path);
                        sh.trans(1);
                        sh.trace();
                        judge(sh, &model, &o, &set, m, path, links);
                        if mask == 1 && links {
                            sh.sample(|| format!("{:?} {} {} -> {:?}", set, m, show(path), o.ran.iter().map(|r| r.id).collect::<Vec<_>>()));
                        }
                    }
                }
            }
        }
    });
}

fn main() {
    check_main(
        "C01",
        Level::ModelChecking,
        "every route set over the segment alphabet x method assignment x request path x search mode; state = one (route set, methods, mode) router",
        |ctx| {
            ctx.assume("handlers are registered per (method, path) through the builder; building variants are C04");
            ctx.assume("a match that ends in a node without any handler may be answered 404 or 405");
            let global = Global::default();
            let p_ac4: Vec<Vec<u8>> = patterns(&["a", "c"], 4);
            let p_ac5: Vec<Vec<u8>> = patterns(&["a", "c"], 5);
            let p_abc3: Vec<Vec<u8>> = patterns(&["a", "b", "c"], 3);
            let deep = patterns(&["a", ":", "*"], 3);
            let wide = patterns(&["a", "b", ":x", "*y"], 2);
            // all small sets of deep patterns
            explore(ctx, "deep<=2", &deep, 0, 2, &p_ac5, true);
            explore(ctx, "deep=3", &deep, 3, 3, ctx.pick(&p_ac4, &p_ac5), false);
            explore(ctx, "wide<=3", &wide, 0, 3, &p_abc3, true);
            explore(ctx, "wide=4", &wide, 4, 4, &p_abc3, false);
            // deep sets of four: the full path set only in the thorough tier
            let p3 = patterns(&["a", "c"], 3);
            if ctx.thorough {
                explore(ctx, "deep=4", &deep, 4, 4, &p_ac5, false);
            } else {
                explore_sets(ctx, "deep=4", &deep, combinations(deep.len(), 4).into_iter().filter(|c| c.iter().filter(|&&i| i >= 13).count() <= 1).collect(), &p3, false);
            }
            // one more level of patterns
            let deeper = patterns(&["a", ":", "*"], 4);
            let p6 = patterns(&["a", "c"], 6);
            explore(ctx, "deeper<=2", &deeper, 1, 2, ctx.pick(&p_ac5, &p6), false);
            if ctx.thorough {
                explore(ctx, "wide=5", &wide, 5, 5, &p_abc3, false);
                explore(ctx, "deeper=3", &deeper, 3, 3, &p_ac5, false);
            }
            // empty segments and slashes: pattern and path strings over {a, :, *, /}
            let slashy: Vec<Vec<u8>> = (0..strings_upto(4, ctx.pick(4, 5)))
                .map(|i| string_at(4, i).iter().map(|&c| b"a:*/"[c]).collect())
                .collect();
            let slashy_paths: Vec<Vec<u8>> =
                (0..strings_upto(3, 5)).map(|i| string_at(3, i).iter().map(|&c| b"ac/"[c]).collect()).collect();
            explore(ctx, "slashes=1", &slashy, 1, 1, &slashy_paths, false);
            let slashy2: Vec<Vec<u8>> = (0..strings_upto(4, ctx.pick(2, 3))).map(|i| string_at(4, i).iter().map(|&c| b"a:*/"[c]).collect()).collect();
            explore(ctx, "slashes=2", &slashy2, 2, 2, &slashy_paths, false);
            // every method
            let methods: Vec<Method> = vec![
                Method::Get, Method::Post, Method::Put, Method::Delete, Method::Head, Method::Options, Method::Trace,
                Method::Connect, Method::Patch, Method::Extension("PURGE".into()), Method::Extension("get".into()),
            ];
            let few: Vec<Vec<u8>> = vec![b"/a".to_vec(), b"/:x".to_vec(), b"/*y".to_vec()];
            let n = methods.len();
            ctx.par("methods", n * n * n, |i, sh| {
                let mut d = Digits(i);
                let set: Vec<_> = few.iter().enumerate().map(|(j, p)| (methods[d.take(n)].clone(), p.clone(), j)).collect();
                for &links in &[false, true] {
                    let (r, model) = build(&set, links);
                    sh.add_states(1);
                    for m in &methods {
                        for path in &[&b"/a"[..], b"/c", b"/a/c", b"/"] {
                            let o = drive(&r, &global, m.clone(), path);
                            sh.trans(1);
                            sh.trace();
                            judge(sh, &model, &o, &set, m, path, links);
                        }
                    }
                }
            });
            // what is in a segment: every byte, and texts that some would take for the same
            let mut texts: Vec<Vec<u8>> = (0..=255u8).filter(|c| !b"/".contains(c)).map(|c| vec![c]).collect();
            for t in [
                ".", "..", "aa", "AA", "a ", " a", "a\0", "\0a", "%61", "%2F", "%2f", "+", "a+", "a%20", "-", "--", "_", "a.", ".a", "~a", "0", "00", "01", "1", "-1", "å", "Å", "a\u{30a}", "\u{e5}", "ß", "ss", "ı", "i", "I", "İ", "K", "k",
                "a:", "a*", "a:x", "a*x", ":x", "*x", "a;p", "a;", "a,b", "a&b", "a=b", "a?b", "a#b", "index", "index.html", "\u{feff}a", "a\u{200b}",
            ] {
                texts.push(t.as_bytes().to_vec());
            }
            texts.push(b"a\xff".to_vec());
            texts.push(b"\xff\xfe".to_vec());
            texts.push(b"\xef\xbf\xbd".to_vec());
            texts.push(b"\xc3".to_vec());
            texts.extend(dict::forms().into_iter().filter(|w| !w.contains(&b'/')));
            texts.sort();
            texts.dedup();
            ctx.par("contents", texts.len() * 3, |i, sh| {
                let mut d = Digits(i);
                let (t, shape) = (&texts[d.take(texts.len())], d.take(3));
                let pats: Vec<Vec<u8>> = match shape {
                    0 => vec![[b"/", &t[..]].concat()],
                    1 => vec![[b"/s/", &t[..]].concat(), b"/s/:v".to_vec()],
                    _ => vec![[b"/", &t[..], b"/e"].concat(), b"/*v/f".to_vec(), [b"/*w/", &t[..]].concat()],
                };
                let set: Vec<_> = pats.iter().enumerate().map(|(j, p)| (Method::Get, p.clone(), j)).collect();
                for &links in &[false, true] {
                    let (r, model) = build(&set, links);
                    sh.add_states(1);
                    for u in &texts {
                        let paths: Vec<Vec<u8>> = match shape {
                            0 => vec![[b"/", &u[..]].concat()],
                            1 => vec![[b"/s/", &u[..]].concat(), [b"/s/", &u[..], b"/"].concat()],
                            _ => vec![[b"/", &u[..], b"/e"].concat(), [b"/", &u[..], b"/f"].concat(), [b"/x/", &u[..]].concat()],
                        };
                        for path in &paths {
                            let o = drive(&r, &global, Method::Get, path);
                            sh.trans(1);
                            sh.trace();
                            judge(sh, &model, &o, &set, &Method::Get, path, links);
                        }
                    }
                }
            });
            // sizes: long paths, long patterns, nodes with many children, long segments
            let lens = ladder(ctx.pick(70_000, 270_000));
            ctx.par("long", lens.len() * 10, |i, sh| {
                let mut d = Digits(i);
                let (n, shape) = (lens[lens.len() - 1 - d.take(lens.len())], d.take(10));
                let many = |f: &dyn Fn(usize) -> String| (0..n).map(|j| format!("/{}", f(j))).collect::<String>();
                let a = many(&|_| "a".into());
                let long = "x".repeat(n);
                let pats: Vec<String> = match shape {
                    0 => vec!["/*x".into(), "/*x/z".into()],
                    1 => vec!["/a/*x".into(), "/*y/z".into(), "/:v/a/*w/z".into()],
                    2 => vec![a.clone(), format!("{}/a", a), "/*x".into()],
                    3 => vec![many(&|j| format!(":v{}", j)), format!("{}/*rest", a)],
                    4 => vec![many(&|j| if j % 2 == 0 { "a".into() } else { ":".into() }), format!("{}/z", a)],
                    5 => vec!["/*x/m/*y".into(), "/*x/m/a/:y".into()],
                    6 => vec![format!("/{}", long), format!("/{}y/:v", long), "/:v".into()],
                    // a search that has to go back often
                    8 => vec!["/*x/a/*y/q".into(), "/*x/a/*y/:z/r".into(), "/a/*z".into()],
                    9 => vec![format!("/:v/{}", long), format!("/s/:{}", long), "/*w".into()],
                    // many children
                    _ => (0..n).map(|j| format!("/n{}", j)).chain(vec!["/:other".to_string()]).collect(),
                };
                // what grows faster than the route, or is as deep as the route, stays smaller
                let most = match shape {
                    0 | 1 | 6 | 9 => usize::MAX,
                    5 | 8 => 260,
                    2 | 3 | 4 => 5000,
                    _ => 1100,
                };
                if n > most {
                    return;
                }
                let paths: Vec<String> = match shape {
                    6 => vec![format!("/{}", long), format!("/{}y", long), format!("/{}y/z", long), format!("/{}z", long)],
                    8 => vec![a.clone(), format!("{}/q", a), format!("{}/z/r", a), format!("/z{}", a)],
                    9 => vec![format!("/{}/{}", long, long), format!("/s/{}y", long), format!("/{}/y", long), format!("/{}/{}/z", long, long)],
                    7 => (0..n + 1).map(|j| format!("/n{}", j)).collect(),
                    5 => vec![format!("{}/m{}", a, a), format!("{}/m/a/z", a), format!("/a/m{}", a), a.clone(), format!("{}/m", a)],
                    _ => vec![a.clone(), format!("{}/a", a), format!("{}/z", a), format!("{}/a/", a), format!("{}/a/a", a), format!("/z{}", a)],
                };
                let set: Vec<_> = pats.iter().enumerate().map(|(j, p)| (Method::Get, p.clone().into_bytes(), j)).collect();
                for &links in &[false, true] {
                    if links && shape == 7 && n > 300 {
                        continue;
                    }
                    let (r, model) = build(&set, links);
                    sh.add_states(1);
                    for path in &paths {
                        let o = drive(&r, &global, Method::Get, path.as_bytes());
                        sh.trans(1);
                        sh.trace();
                        judge(sh, &model, &o, &set, &Method::Get, path.as_bytes(), links);
                    }
                }
            });
            // many methods at one place, with less specific places to fall back to
            let lens = ladder(ctx.pick(300, 3000));
            ctx.par("busy", lens.len() * 3, |i, sh| {
                let mut d = Digits(i);
                let (n, shape) = (lens[d.take(lens.len())], d.take(3));
                let name = |j: usize| Method::Extension(format!("M{}", j));
                let mut set: Vec<(Method, Vec<u8>, usize)> = vec![];
                for j in 0..n {
                    let p: &[u8] = match shape {
                        0 => b"/a",
                        1 => [&b"/a"[..], b"/:x", b"/*y"][j % 3],
                        _ => [&b"/a"[..], b"/:x"][(j >= n / 2) as usize],
                    };
                    set.push((name(j), p.to_vec(), j));
                }
                set.push((Method::Get, b"/:x".to_vec(), n));
                for &links in &[false, true] {
                    let (r, model) = build(&set, links);
                    sh.add_states(1);
                    for j in 0..n + 2 {
                        let m = if j < n { name(j) } else if j == n { Method::Get } else { Method::Put };
                        for path in &[&b"/a"[..], b"/c", b"/a/c"] {
                            let o = drive(&r, &global, m.clone(), path);
                            sh.trans(1);
                            sh.trace();
                            judge(sh, &model, &o, &set, &m, path, links);
                        }
                    }
                }
            });
            // whatever else the request says
            let heads = dict::heads();
            let mut names: Vec<String> = ["GET", "POST", "HEAD", "PUT", "OPTIONS"].iter().map(|m| m.to_string()).collect();
            names.extend(dict::methods());
            ctx.par("requests", heads.len() + names.len(), |i, sh| {
                let (h, ms) = if i < heads.len() { (&heads[i][..], &names[..4]) } else { ("", &names[i - heads.len()..i - heads.len() + 1]) };
                let method = |m: &str| m.parse::<Method>().unwrap();
                let mut set = vec![(Method::Get, b"/a".to_vec(), 0), (Method::Post, b"/:x".to_vec(), 1), (Method::Get, b"/*y/b".to_vec(), 2), (Method::Head, b"/a".to_vec(), 3)];
                if i >= heads.len() {
                    set.push((method(&ms[0]), b"/:z".to_vec(), 4));
                }
                for &links in &[false, true] {
                    let (r, model) = build(&set, links);
                    let inst = srv::instance(r);
                    sh.add_states(1);
                    for m in ms {
                        for path in &["/a", "/c", "/a/b", "/a/c", "/"] {
                            for v in 0..2 {
                                let want = model.resolve(m, path.as_bytes());
                                RAN.with(|v| v.borrow_mut().clear());
                                let (_, served) = srv::talk(&inst, format!("{} {} HTTP/1.{}\r\nHost: h\r\n{}\r\n", m, path, v, h).as_bytes());
                                let ran = RAN.with(|v| std::mem::take(&mut *v.borrow_mut()));
                                sh.trans(1);
                                sh.trace();
                                let ok = match want {
                                    Expect::Handler { id, .. } => ran.len() == 1 && ran[0].id == id && ran[0].status == 200,
                                    Expect::Reject(_) => ran.is_empty(),
                                };
                                if !ok && served.requests > 0 {
                                    sh.violation("requests", format!("routes {:?} links {}\n{} {} HTTP/1.{} {:?}\nexpected {:?}\ngot {:?}", set, links, m, path, v, h, want, ran));
                                }
                            }
                        }
                    }
                }
            });
            // conformance: the whole server gives the same result for the same request
            let small = patterns(&["a", ":x", "*y"], 2);
            let sets: Vec<Vec<usize>> = (1..=ctx.pick(2, 3)).flat_map(|k| combinations(small.len(), k)).collect();
            let ps = patterns(&["a", "c"], 3);
            ctx.par("server", sets.len(), |i, sh| {
                for mask in 0..1usize << sets[i].len() {
                    let set: Vec<_> = sets[i]
                        .iter()
                        .enumerate()
                        .map(|(j, &p)| (if mask >> j & 1 == 0 { Method::Get } else { Method::Post }, small[p].clone(), j))
                        .collect();
                    for &links in &[false, true] {
                        let (r, model) = build(&set, links);
                        let inst = srv::instance(r);
                        sh.add_states(1);
                        for path in &ps {
                            for m in &[Method::Get, Method::Post, Method::Put] {
                                for tail in &["", "/"] {
                                    let mut target = path.clone();
                                    target.extend_from_slice(tail.as_bytes());
                                    let want = model.resolve(&m.to_string(), &target);
                                    let req = format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", m, show(&target));
                                    RAN.with(|v| v.borrow_mut().clear());
                                    let got = srv::ask(&inst, req.as_bytes());
                                    let ran = RAN.with(|v| std::mem::take(&mut *v.borrow_mut()));
                                    sh.trans(1);
                                    sh.trace();
                                    let ok = match (&want, &got) {
                                        (Expect::Handler { id, .. }, Ok(r)) => {
                                            ran.len() == 1 && ran[0].id == *id && ran[0].status == 200 && r.status == 200 && r.body == format!("h{}", id).into_bytes()
                                        }
                                        (Expect::Reject(st), Ok(r)) => ran.is_empty() && st.contains(&r.status) && r.body.is_empty(),
                                        _ => false,
                                    };
                                    if !ok {
                                        sh.violation(
                                            "server",
                                            format!("routes {:?} links {}\nrequest {:?}\nexpected {:?}\ngot {:?} handlers {:?}", set, links, req, want, got, ran),
                                        );
                                    }
                                }
                            }
                        }
                    }
                }
            });
        },
    )
}
