//! C18: concurrent and consecutive requests never affect each other.
use mc::gen::*;
use mc::sched::{self, Arena, Body, Explorer};
use mc::wire::{self, Closed, MemIn, MemOut};
use mc::*;
use mc::rich::*;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::sync::{Arc, Mutex};

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

type Stable = (u16, Vec<(String, String)>, wire::Framing, Vec<u8>);
#[derive(Clone, Debug, PartialEq)]
enum Alone {
    Answer(Stable),
    /// the connection is lost; what was sent before that
    Lost(Vec<u8>),
}

/// The response of one request, alone on a fresh connection of a fresh server in a fresh process.
fn alone(req: usize, filters: bool) -> Vec<u8> {
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        if pid == 0 {
            let inst = build(filters);
            let (out, _) = srv::talk(&inst, text_of(req).as_bytes());
            let mut f = fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&out);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut b = vec![];
        let _ = fs::File::from_raw_fd(fds[0]).read_to_end(&mut b);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        b
    }
}
fn understand(req: usize, out: &[u8]) -> Result<Alone, String> {
    if PANICS.contains(&req) {
        return Ok(Alone::Lost(undated(out)));
    }
    let mut v = wire::parse_all(out, &[is_head(req)])?;
    Ok(Alone::Answer(v.pop().unwrap().stable()))
}

/// Compare a connection's output with what each of its requests gets alone.
fn compare(out: &[u8], served: &wire::Served, reqs: &[usize], alone: &[Alone]) -> Result<(), (String, String)> {
    let mut pos = 0;
    for (i, &q) in reqs.iter().enumerate() {
        let what = |k: &str| format!("{}:r{}", k, q);
        match alone[q] {
            Alone::Answer(ref want) => {
                let r = wire::parse_response(out, &mut pos, is_head(q)).map_err(|e| (what("malformed"), format!("response {} to {:?}: {}", i, text_of(q), e)))?;
                let got = r.stable();
                if got != *want {
                    return Err((
                        what("differs"),
                        format!("request {}: {:?}\ngot   {:?}\n{:?}\nalone {:?}\n{:?}", i, text_of(q), (got.0, &got.1, &got.2), esc(&got.3), (want.0, &want.1, &want.2), esc(&want.3)),
                    ));
                }
            }
            Alone::Lost(ref want) => {
                let got = undated(&out[pos..]);
                if got != *want {
                    return Err((what("differs"), format!("request {}: {:?}\ngot   {:?}\nalone {:?}", i, text_of(q), esc(&got), esc(want))));
                }
                if !matches!(served.closed, Closed::Panic(_)) || served.requests != i + 1 {
                    return Err((what("survived"), format!("{:?}", served)));
                }
                return Ok(());
            }
        }
    }
    if pos != out.len() {
        return Err(("extra".into(), format!("extra output {:?}", esc(&out[pos..]))));
    }
    if served.requests != reqs.len() || !matches!(served.closed, Closed::NoRequest(_)) {
        return Err(("ended".into(), format!("{:?}", served)));
    }
    Ok(())
}

fn pipeline(reqs: &[usize]) -> (Vec<u8>, Vec<usize>) {
    let mut d = vec![];
    let mut cuts = vec![];
    for &q in reqs {
        d.extend_from_slice(text_of(q).as_bytes());
        cuts.push(d.len());
    }
    (d, cuts)
}

type Outs = Arc<Mutex<Vec<Option<(Vec<u8>, wire::Served)>>>>;
fn connection(inst: &'static Inst, reqs: Vec<usize>, id: usize, outs: Outs, fine: bool) -> Body<'static> {
    Box::new(move || {
        let (data, mut cuts) = pipeline(&reqs);
        if fine {
            // the first request arrives in two parts
            cuts.push(text_of(reqs[0]).len() / 2);
        }
        let mut rd = MemIn::new(data).cuts(cuts);
        rd.hook = Some(Arc::new(|| sched::point(10)));
        let mut out = MemOut::new();
        if fine {
            out.hook = Some(Arc::new(|| sched::point(11)));
        }
        let buf = out.clone();
        let served = wire::serve(inst, &mut rd, &mut out, true);
        outs.lock().unwrap()[id] = Some((buf.bytes(), served));
    })
}

fn explore(sh: &mut Shard, filters: bool, prog: &[Vec<usize>], alone: &[Alone], bound: Option<usize>, fine: bool, label: &str) {
    thread_local!(static ARENA: std::cell::RefCell<Option<&'static Arena>> = const { std::cell::RefCell::new(None) });
    let size = std::mem::size_of::<Inst>();
    let (arena, inst): (&'static Arena, &'static Inst) = ARENA.with(|a| {
        let mut a = a.borrow_mut();
        match *a {
            Some(ar) => (ar, &*Box::leak(ar.rebuild(size, || Box::new(build(filters))))),
            None => {
                let (ar, b) = Arena::build(size, || Box::new(build(filters)));
                let ar: &'static Arena = Box::leak(Box::new(ar));
                *a = Some(ar);
                (ar, &*Box::leak(b))
            }
        }
    });
    let mut ex = Explorer::new(arena);
    let n = prog.len();
    let outs: Outs = Arc::new(Mutex::new(vec![]));
    let o2 = outs.clone();
    let mk = move || {
        *o2.lock().unwrap() = vec![None; n];
        prog.iter().enumerate().map(|(i, k)| connection(inst, k.clone(), i, o2.clone(), fine)).collect::<Vec<_>>()
    };
    let mut bad: Option<(String, String)> = None;
    let tick = sh.slot_ticker();
    let (states, trans) = {
        let mut judge = |run: &sched::Run| {
            let r = if run.deadlock {
                Err(("deadlock".to_string(), "connections wait for each other forever".to_string()))
            } else {
                let o = outs.lock().unwrap();
                prog.iter().enumerate().try_for_each(|(i, p)| {
                    let (ref b, ref s) = *o[i].as_ref().unwrap();
                    compare(b, s, p, alone).map_err(|(k, t)| (k, format!("on connection {}: {}", i, t)))
                })
            };
            if let Err((k, t)) = r {
                bad = Some((k, format!("{}\nconnections {:?}\nschedule {}", t, prog, run.schedule())));
                return false;
            }
            true
        };
        match bound {
            Some(b) => ex.bounded(b, &mk, &mut judge, &tick),
            None => ex.all(&mk, &|_| 0, &mut judge, &tick),
        }
    };
    sh.add_states(states);
    sh.trans(trans);
    sh.traces += ex.executions;
    sh.note("schedules executed", ex.executions);
    sh.note("trapped accesses", ex.traps);
    if ex.stuck {
        sh.note("not replayable", 1);
    }
    if let Some((k, t)) = bad {
        sh.violation(format!("{}:{}", label, k), t);
    }
    sh.sample(|| format!("{:?}: {} schedules, {} states, {} shared words", prog, ex.executions, states, ex.shared_words()));
}

/// Request `k`, and what its handler says.
fn different(k: usize) -> (String, String) {
    let (a, b, q, h) = (format!("s{}", k % 13), format!("v{}", k), k * 7919 % 100_003, k % 1009);
    let post = a == "s7" && k % 3 == 0;
    let seq = k % 5 == 0 && !post;
    let path = if seq { format!("/{}/{}/{}", a, b, k % 17) } else { format!("/{}/r/{}", a, b) };
    let body = if post { format!("n{}=m{}", k, q) } else { String::new() };
    let vars = if post { format!("a=- b={} c=-", b) } else if seq { format!("a={} b=- c={}/{}", a, b, k % 17) } else { format!("a={} b={} c=-", a, b) };
    (
        format!("{} {}?q={}&k{}={} HTTP/1.1\r\nHost: h{}:{}\r\nX-K: {}\r\nContent-Length: {}\r\n\r\n{}", if post { "POST" } else { "GET" }, path, q, k, h, h, 1 + h, k, body.len(), body),
        format!("{} {} {} q={} own={} h{}:{} x={} body={}", if post { "POST" } else { "GET" }, path, vars, q, h, h, 1 + h, k, body),
    )
}
fn echo(mut c: rustful::Context, r: rustful::Response) {
    let v = |n: &str| c.variables.get(n).map_or("-".to_string(), |v| v.into_owned());
    let vars = format!("a={} b={} c={}", v("a"), v("b"), v("c"));
    let x = c.headers.get_raw("X-K").map_or("-".into(), |v| String::from_utf8_lossy(&v[0]).into_owned());
    let host = c.headers.get::<rustful::header::Host>().map_or("-".into(), |h| format!("{}:{}", h.hostname, h.port.unwrap_or(0)));
    let mut body = String::new();
    let _ = c.body.read_to_string(&mut body);
    let own = c.query.get(&format!("k{}", x)).map_or("-".to_string(), |v| v.into_owned());
    let q = c.query.get("q").map_or("-".to_string(), |v| v.into_owned());
    let text = format!("{} {} {} q={} own={} {} x={} body={}", c.method, c.uri_path, vars, q, own, host, x, body);
    r.send(text);
}
struct Same;
impl rustful::filter::ResponseFilter for Same {
    fn begin(&self, _: rustful::filter::FilterContext, s: rustful::StatusCode, _: &mut rustful::header::Headers) -> (rustful::StatusCode, rustful::filter::ResponseAction) {
        (s, rustful::filter::ResponseAction::next(None::<&str>))
    }
    fn write<'a>(&'a self, _: rustful::filter::FilterContext, c: Option<rustful::response::Data<'a>>) -> rustful::filter::ResponseAction {
        rustful::filter::ResponseAction::next(c)
    }
    fn end(&self, _: rustful::filter::FilterContext) -> rustful::filter::ResponseAction {
        rustful::filter::ResponseAction::next(None::<&str>)
    }
}

fn main() {
    let dir = std::env::temp_dir().join(format!("mc-c18-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join("f.html"), b"<p>content of the file</p>").unwrap();
    FILE.set(dir.join("f.html").to_str().unwrap().to_string()).unwrap();
    check_main(
        "C18",
        Level::ModelChecking,
        "every sequence of request types up to a length, over one and several connections of one server, and every interleaving of two and three connections at transport reads and writes, filter calls, handler steps and accesses to shared memory; each response is compared with the one its request gets alone in a fresh process",
        |ctx| {
            ctx.assume("interleavings are sequentially consistent; at most one panic per request");
            let n = REQS.len();
            let solo: Vec<Vec<Alone>> = [false, true]
                .iter()
                .map(|&f| (0..n + NEAR.len()).map(|q| understand(q, &alone(q, f)).unwrap_or_else(|e| Alone::Lost(e.into_bytes()))).collect())
                .collect();
            let solo = &solo;
            ctx.seq("alone", 2 * (n + NEAR.len()), |i, sh| {
                let a = &solo[i % 2][i / 2];
                sh.state(&format!("{:?}", a));
                sh.trace();
                if let (Alone::Lost(b), false) = (a, PANICS.contains(&(i / 2))) {
                    sh.violation("alone:malformed", format!("{:?}: {}", text_of(i / 2), String::from_utf8_lossy(b)));
                }
                // the request types are meant to be told apart by what they get
                if solo[i % 2].iter().filter(|b| *b == a).count() > 1 {
                    sh.note("not distinguishable", 1);
                }
            });
            // sequences; after each request: same connection or a new one
            let depth = ctx.pick(3, 4);
            let shared = [build(false), build(true)];
            for len in 1..=depth {
                let total = n.pow(len as u32) << (len - 1);
                ctx.par(&format!("sequences-{}", len), total * 2, |i, sh| {
                    let mut d = Digits(i);
                    let f = d.take(2);
                    let breaks = d.take(1 << (len - 1));
                    let reqs: Vec<usize> = (0..len).map(|_| d.take(n)).collect();
                    if len == 4 && breaks % 2 == 1 && breaks != 7 {
                        return;
                    }
                    let inst = build(f == 1);
                    let mut from = 0;
                    for k in 0..len {
                        if k + 1 < len && breaks & (1 << k) == 0 {
                            continue;
                        }
                        let part = &reqs[from..=k];
                        from = k + 1;
                        let (data, _) = pipeline(part);
                        let (out, served) = srv::talk(&inst, &data);
                        sh.add_states(1);
                        sh.trans(part.len() as u64);
                        sh.trace();
                        if let Err((k, t)) = compare(&out, &served, part, &solo[f]) {
                            sh.violation(format!("sequences:{}", k), format!("{}\nrequests {:?} connection breaks {:b} filters {}", t, reqs, breaks, f));
                            return;
                        }
                    }
                });
            }
            // requests of all sequences above, but on servers that live through all of them
            ctx.par("long-lived", n * n * n * 2, |i, sh| {
                let mut d = Digits(i);
                let f = d.take(2);
                let reqs: Vec<usize> = (0..3).map(|_| d.take(n)).collect();
                let (data, _) = pipeline(&reqs);
                let (out, served) = srv::talk(&shared[f], &data);
                sh.add_states(1);
                sh.trans(3);
                sh.trace();
                if let Err((k, t)) = compare(&out, &served, &reqs, &solo[f]) {
                    sh.violation(format!("long-lived:{}", k), format!("{}\nrequests {:?} filters {}", t, reqs, f));
                }
            });
            // long histories: the same request, or two in turns, over and over, on one connection and on one each
            let many = ctx.pick(300, 3000);
            ctx.par("series", n * 4 * 2 * 2, |i, sh| {
                let mut d = Digits(i);
                let (f, apart) = (d.take(2), d.take(2) == 1);
                let (q, other) = (d.take(n), [None, Some(0), Some(5), Some(13)][d.take(4)]);
                if !apart && (PANICS.contains(&q) || other.map_or(false, |o| PANICS.contains(&o))) {
                    return;
                }
                let inst = build(f == 1);
                let reqs: Vec<usize> = (0..many).map(|j| if j % 2 == 1 { other.unwrap_or(q) } else { q }).collect();
                for part in reqs.chunks(if apart { 1 } else { many }) {
                    let (data, _) = pipeline(part);
                    let (out, served) = srv::talk(&inst, &data);
                    sh.add_states(1);
                    sh.trans(part.len() as u64);
                    sh.trace();
                    if let Err((k, t)) = compare(&out, &served, part, &solo[f]) {
                        return sh.violation(format!("series:{}", k), format!("{}
{} times r{}, in turns with {:?}, own connections {} filters {}", t, many, q, other, apart, f));
                    }
                }
            });
            // many different requests, in several orders
            let many = ctx.pick(20_000, 200_000);
            ctx.par("different", 16, |i, sh| {
                let mut d = Digits(i);
                let (links, filter, apart, order) = (d.take(2) == 1, d.take(2) == 1, d.take(2) == 1, d.take(2));
                let mut r = rustful::DefaultRouter::<fn(rustful::Context, rustful::Response)>::new();
                r.build().many(|mut n| {
                    n.path("/:a/r/:b").then().on_get(echo);
                    n.path("/:a/*c").then().on_get(echo);
                    n.path("/s7/r/:b").then().on_post(echo);
                });
                r.find_hyperlinks = links;
                let mut c = srv::config(r);
                if filter {
                    c.response_filters.push(Box::new(Same));
                }
                let inst = c.build();
                let mut todo: Vec<usize> = (0..many).collect();
                match order {
                    0 => todo.extend((0..many).rev()),
                    _ => todo.extend((0..many).map(|k| (k % 2) * (many / 2) + k / 2)),
                }
                for part in todo.chunks(if apart { 1 } else { 50 }) {
                    let text: String = part.iter().map(|&k| different(k).0).collect();
                    let (out, served) = srv::talk(&inst, text.as_bytes());
                    sh.add_states(1);
                    sh.trans(part.len() as u64);
                    sh.tick();
                    let got = wire::parse_all(&out, &vec![false; part.len()]);
                    let ok = got.as_ref().map_or(false, |v| v.len() == part.len() && v.iter().zip(part).all(|(r, &k)| r.status == 200 && r.body == different(k).1.into_bytes()));
                    if !ok {
                        return sh.violation("different", format!("links {} filter {} own connections {} order {}: {:?}\n{:?}\n{:?}", links, filter, apart, order, text, got.map(|v| v.iter().map(|r| (r.status, esc(&r.body))).collect::<Vec<_>>()), served.closed));
                    }
                }
                sh.trace();
            });
            // requests that almost are the same
            let m = NEAR.len();
            ctx.par("near", m * m * m * 4 * 2, |i, sh| {
                let mut d = Digits(i);
                let f = d.take(2);
                let breaks = d.take(4);
                let reqs: Vec<usize> = (0..3).map(|_| n + d.take(m)).collect();
                let inst = build(f == 1);
                let mut from = 0;
                for k in 0..3 {
                    if k < 2 && breaks & (1 << k) == 0 {
                        continue;
                    }
                    let part = &reqs[from..=k];
                    from = k + 1;
                    let (data, _) = pipeline(part);
                    let (out, served) = srv::talk(&inst, &data);
                    sh.add_states(1);
                    sh.trans(part.len() as u64);
                    sh.trace();
                    if let Err((k, t)) = compare(&out, &served, part, &solo[f]) {
                        sh.violation(format!("near:{}", k), format!("{}\nrequests {:?} connection breaks {:b} filters {}", t, reqs, breaks, f));
                        return;
                    }
                }
            });
            ctx.fork("near-concurrent", 2 * m, |i, sh| {
                let (a, b) = (if i % 2 == 0 { n } else { n + 31 }, n + i / 2);
                explore(sh, true, &[vec![a], vec![b]], &solo[1], None, true, "near");
            });
            // interleavings
            let pairs = n * (n + 1) / 2;
            let pair = |mut i: usize| {
                let mut a = 0;
                while i >= n - a {
                    i -= n - a;
                    a += 1;
                }
                (a, a + i)
            };
            ctx.fork("two-connections-all", pairs, |i, sh| {
                let (a, b) = pair(i);
                explore(sh, true, &[vec![a], vec![b]], &solo[1], None, true, "two");
            });
            let bound = ctx.pick(2, 3);
            ctx.fork("two-connections-bounded", pairs, |i, sh| {
                let (a, b) = pair(i);
                explore(sh, true, &[vec![a], vec![b]], &solo[1], Some(bound), false, "two");
            });
            // two requests on each
            let some = [0, 1, 4, 6, 10, 15];
            let m = if ctx.thorough { 6 } else { 3 };
            ctx.fork("two-by-two", m * m * m * m, |i, sh| {
                let mut d = Digits(i);
                let v: Vec<usize> = (0..4).map(|_| some[d.take(m)]).collect();
                explore(sh, false, &[vec![v[0], v[1]], vec![v[2], v[3]]], &solo[0], None, false, "two-by-two");
            });
            let m = if ctx.thorough { 6 } else { 3 };
            ctx.fork("three-connections", m * m * m, |i, sh| {
                let mut d = Digits(i);
                let mut v: Vec<usize> = (0..3).map(|_| some[d.take(m)]).collect();
                if v.windows(2).any(|w| w[0] > w[1]) {
                    return;
                }
                let prog: Vec<Vec<usize>> = v.drain(..).map(|q| vec![q]).collect();
                explore(sh, true, &prog, &solo[1], if sh.thorough() { Some(2) } else { Some(2) }, false, "three");
            });
            let _ = fs::remove_dir_all(std::path::Path::new(FILE.get().unwrap()).parent().unwrap());
        },
    )
}
