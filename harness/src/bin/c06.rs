//! C06: request targets are decoded the same way in every form.
use mc::forms::{origin, Target};
use mc::gen::*;
use mc::routes::*;
use mc::*;
use rustful::filter::{ContextAction, ContextFilter, FilterContext};
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response, StatusCode};
use std::cell::RefCell;

thread_local!(static FILTERS: RefCell<Vec<Ran>> = const { RefCell::new(vec![]) });
// the Host header as a value: its text leaves out some ports
type Host = Option<(String, Option<u16>)>;
thread_local!(static HOSTS: RefCell<Vec<Host>> = const { RefCell::new(vec![]) });

fn typed_host(c: &Context) {
    let h = c.headers.get::<rustful::header::Host>().map(|h| (h.hostname.to_ascii_lowercase(), h.port));
    HOSTS.with(|v| v.borrow_mut().push(h));
}

thread_local!(static VIEWS: RefCell<Vec<String>> = const { RefCell::new(vec![]) });

/// Every way to look at the path gives the same answer.
fn views(c: &Context) {
    let u = &c.uri_path;
    let bytes = u.as_path().map(|p| p[..].to_vec());
    let text = bytes.as_ref().and_then(|b| String::from_utf8(b.clone()).ok());
    let lossy = bytes.as_ref().map(|b| String::from_utf8_lossy(b).into_owned());
    let mut wrong = vec![];
    if u.is_path() != bytes.is_some() || u.is_asterisk() != bytes.is_none() {
        wrong.push("is_path or is_asterisk");
    }
    if u.as_utf8_path() != text.as_ref().map(|t| &t[..]) {
        wrong.push("as_utf8_path");
    }
    if u.as_utf8_path_lossy().map(|t| t.into_owned()) != lossy {
        wrong.push("as_utf8_path_lossy");
    }
    if u.to_string() != lossy.unwrap_or("*".into()) {
        wrong.push("Display");
    }
    if !wrong.is_empty() {
        VIEWS.with(|v| v.borrow_mut().push(format!("{} of {:?}", wrong.join(", "), u)));
    }
}

struct Probe;
impl Handler for Probe {
    fn handle(&self, c: Context, r: Response) {
        let x = observe(1, &c, r.status());
        RAN.with(|v| v.borrow_mut().push(x));
        typed_host(&c);
        views(&c);
        r.send("ok");
    }
}
struct F;
impl ContextFilter for F {
    fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction {
        let x = observe(0, c, StatusCode::Ok);
        FILTERS.with(|v| v.borrow_mut().push(x));
        typed_host(c);
        views(c);
        ContextAction::next()
    }
}

fn inst() -> ServerInstance<Probe> {
    let mut c = srv::config(Probe);
    c.context_filters.push(Box::new(F));
    c.build()
}

struct Seen {
    reached: bool,
    resp: Result<wire::Resp, String>,
    ran: Vec<Ran>,
    filtered: Vec<Ran>,
    hosts: Vec<Host>,
    views: Vec<String>,
}

fn ask(i: &ServerInstance<Probe>, method: &str, target: &str, host: &str) -> Seen {
    ask_raw(i, method, target, &format!("HTTP/1.1\r\nHost: {}\r\n", host))
}
fn ask_raw(i: &ServerInstance<Probe>, method: &str, target: &str, rest: &str) -> Seen {
    DEEP.with(|d| d.set(true));
    RAN.with(|v| v.borrow_mut().clear());
    FILTERS.with(|v| v.borrow_mut().clear());
    HOSTS.with(|v| v.borrow_mut().clear());
    VIEWS.with(|v| v.borrow_mut().clear());
    let req = format!("{} {} {}\r\n", method, target, rest);
    let (out, served) = srv::talk(i, req.as_bytes());
    Seen {
        reached: served.requests == 1 || matches!(served.closed, wire::Closed::Panic(_)),
        resp: match served.closed {
            wire::Closed::Panic(p) => Err(format!("panic: {}", p)),
            _ => wire::parse_all(&out, &[method == "HEAD"]).map(|mut v| v.pop().unwrap()),
        },
        ran: RAN.with(|v| std::mem::take(&mut *v.borrow_mut())),
        filtered: FILTERS.with(|v| std::mem::take(&mut *v.borrow_mut())),
        hosts: HOSTS.with(|v| std::mem::take(&mut *v.borrow_mut())),
        views: VIEWS.with(|v| std::mem::take(&mut *v.borrow_mut())),
    }
}

fn target_of(r: &Ran) -> Target {
    Target { path: r.path.clone().unwrap_or_default(), query: r.query.iter().cloned().collect(), fragment: r.fragment.clone() }
}

fn host_of(r: &Ran) -> String {
    r.headers.lines().filter(|l| l.to_ascii_lowercase().starts_with("host:")).map(|l| l[5..].trim().to_string()).collect::<Vec<_>>().join("|")
}

/// The name and the port that a host's text stands for.
fn split_host(h: &str) -> Host {
    let end = h.rfind(']').map_or(0, |i| i + 1);
    Some(match h[end..].find(':') {
        Some(i) => (h[..end + i].to_string(), h[end + i + 1..].parse().ok()),
        None => (h.to_string(), None),
    })
}

/// Does the URL standard rewrite this path (dot segments, backslashes) or may it reject it?
fn url_rewrites(t: &str) -> bool {
    let path = t.split(|c| c == '?' || c == '#').next().unwrap();
    path.contains('\\')
        || path.split('/').any(|s| {
            let s = s.to_ascii_lowercase().replace("%2e", ".");
            s == "." || s == ".."
        })
}

fn expect_target(sh: &mut Shard, form: &str, t: &str, s: &Seen, want: &Target, host: &str) {
    expect_target_at(sh, form, t, s, want, split_host(host).unwrap())
}
fn expect_target_at(sh: &mut Shard, form: &str, t: &str, s: &Seen, want: &Target, host: (String, Option<u16>)) {
    let d = |what: String| format!("{} form, target {:?}\n{}", form, t, what);
    match s.resp {
        Ok(ref r) if r.status == 200 && r.body == b"ok" => {}
        ref r => {
            sh.violation(format!("{}:response", form), d(format!("handlers {}, response {:?}", s.ran.len(), r)));
            return;
        }
    }
    if s.ran.len() != 1 || s.filtered.len() != 1 {
        sh.violation(format!("{}:calls", form), d(format!("{} handler calls, {} filter calls", s.ran.len(), s.filtered.len())));
        return;
    }
    if let Some(v) = s.views.first() {
        sh.violation(format!("{}:views", form), d(v.clone()));
    }
    for (who, r) in [("handler", &s.ran[0]), ("filter", &s.filtered[0])] {
        let got = target_of(r);
        if got != *want {
            let part = if got.path != want.path { "path" } else if got.query != want.query { "query" } else { "fragment" };
            sh.violation(
                format!("{}:{}", form, part),
                d(format!("{} expected path {:?} query {:?} fragment {:?}\ngot path {:?} query {:?} fragment {:?}", who, show(&want.path), want.query, want.fragment, show(&got.path), got.query, got.fragment)),
            );
        }
        let typed = &s.hosts[if who == "filter" { 0 } else { 1 }];
        if typed.as_ref() != Some(&host) {
            sh.violation(format!("{}:host", form), d(format!("{} expected host {:?}, got {:?}", who, host, typed)));
        }
        // some ports are left out of the text
        let texts = match host.1 {
            None => vec![host.0.clone()],
            Some(p @ (80 | 443)) => vec![host.0.clone(), format!("{}:{}", host.0, p)],
            Some(p) => vec![format!("{}:{}", host.0, p)],
        };
        if !texts.contains(&host_of(r).to_ascii_lowercase()) {
            sh.violation(format!("{}:host", form), d(format!("{} expected host {:?}, got {:?}", who, host, host_of(r))));
        }
    }
}

fn both(sh: &mut Shard, i: &ServerInstance<Probe>, t: &str) {
    let want = origin(t.as_bytes());
    let o = ask(i, "GET", t, "orig");
    sh.trans(1);
    if !o.reached {
        sh.note("origin form not accepted by the HTTP parser", 1);
        return;
    }
    sh.trace();
    sh.state(&(want.path.clone(), want.query.clone(), want.fragment.clone()));
    expect_target(sh, "origin", t, &o, &want, "orig");
    if want.query.len() > 1 && want.fragment.is_some() {
        sh.sample(|| format!("{:?} -> {:?}", t, want));
    }
    if url_rewrites(t) {
        sh.note("absolute form not compared: the URL standard rewrites the path", 1);
        return;
    }
    let abs = format!("http://h.example:81{}", t);
    let a = ask(i, "GET", &abs, "orig");
    sh.trans(1);
    if !a.reached {
        sh.note("absolute form not accepted by the URL parser", 1);
        return;
    }
    sh.trace();
    expect_target(sh, "absolute", &abs, &a, &want, "h.example:81");
}

fn main() {
    check_main(
        "C06",
        Level::ModelChecking,
        "every target string over the alphabets up to the bound, in origin and absolute form, plus every other form; state = one decoded (path, query, fragment)",
        |ctx| {
            ctx.assume("request targets the HTTP or URL parser itself rejects never reach the server");
            ctx.assume("dot segments and backslashes, which the URL standard rewrites, are compared in origin form only");
            let chars = b"a/?#%2F+&=";
            let k = chars.len();
            ctx.par("delimiters", strings_upto(k, ctx.pick(5, 6)), |i, sh| {
                let inst = inst();
                let t: String = std::iter::once('/').chain(string_at(k, i).iter().map(|&c| chars[c] as char)).collect();
                both(sh, &inst, &t);
            });
            // tokens: whole escapes and unusual characters
            let toks = [
                "/", "?", "#", "&", "=", "+", "%23", "%3F", "%2F", "%26", "%3D", "%2B", "%25", "%20", "%00", "%ff", "%c3%a5", "%e5", "%", "%4", "%zz", "%2", "%252F", "a", "Z", ":", ";", "@",
                "!", "$", "'", "(", ")", "*", ",", "-", ".", "..", "_", "~", "\"", "<", ">", "\\", "^", "`", "{", "|", "}", "[", "]", "%0d%0a", "//", "://",
            ];
            let k = toks.len();
            ctx.par("tokens", strings_upto(k, 3), |i, sh| {
                let inst = inst();
                let t: String = std::iter::once("/").chain(string_at(k, i).iter().map(|&c| toks[c])).collect();
                both(sh, &inst, &t);
            });
            if ctx.thorough {
                let toks = ["/", "?", "#", "&", "=", "+", "%23", "%3F", "%2F", "%26", "%25", "%ff", "%", "a"];
                let k = toks.len();
                ctx.par("tokens-deep", strings_upto(k, 5), |i, sh| {
                    let inst = inst();
                    let t: String = std::iter::once("/").chain(string_at(k, i).iter().map(|&c| toks[c])).collect();
                    both(sh, &inst, &t);
                });
            }
            // every escape, and everything that only looks like one, in every part
            let printable: Vec<u8> = (33..127).collect();
            let k = printable.len();
            let words = dict::forms();
            let w = words.len();
            ctx.par("escapes", (512 + k * k + k + w) * 5, |i, sh| {
                let mut d = Digits(i);
                let (place, e) = (d.take(5), d.0);
                let c = |i: usize| printable[i] as char;
                let x = if e < 512 {
                    if e % 2 == 0 { format!("%{:02x}", e / 2) } else { format!("%{:02X}", e / 2) }
                } else if e < 512 + k * k {
                    format!("%{}{}", c((e - 512) / k), c((e - 512) % k))
                } else if e < 512 + k * k + k {
                    c(e - 512 - k * k).to_string()
                } else {
                    dict::encoded(&words[e - 512 - k * k - k])
                };
                let t = match place {
                    0 => format!("/p{}q/r", x),
                    1 => format!("/?n{}m=v", x),
                    2 => format!("/?n=v{}w", x),
                    3 => format!("/#f{}g", x),
                    _ => format!("/{}?{}#{}", x, x, x),
                };
                both(sh, &inst(), &t);
            });
            // the same targets in other requests
            let targets = ["/", "/a%2fb", "/a?k=v+w", "/?%6b=%76#f%20", "/#?", "/a#", "/a?", "//b/c", "/%", "/a/b/?x=1&x=2"];
            let ms = ["GET", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH", "CONNECT", "PURGE", "get"];
            let heads = [
                "HTTP/1.1\r\nHost: orig\r\n", "HTTP/1.0\r\nHost: orig\r\n", "HTTP/1.1\r\n", "HTTP/1.0\r\n", "HTTP/1.1\r\nhOST: Orig:80\r\n", "HTTP/1.1\r\nHost:\r\n", "HTTP/1.1\r\nConnection: close\r\nHost: orig:81\r\n",
                "HTTP/1.1\r\nHost: orig\r\nReferer: http://other:3/r?s#t\r\nX-Forwarded-Host: fwd\r\n", "HTTP/1.1\r\nHost: orig\r\nContent-Length: 0\r\n", "HTTP/1.1\r\nHost: orig\r\nUpgrade: h2c\r\nExpect: 200-ok\r\n",
            ];
            ctx.par("requests", targets.len() * ms.len() * heads.len() * 2, |i, sh| {
                let mut d = Digits(i);
                let (t, m, h, abs) = (targets[d.take(targets.len())], ms[d.take(ms.len())], heads[d.take(heads.len())], d.take(2) == 1);
                let (form, full) = if abs { ("absolute", format!("http://h.example:81{}", t)) } else { ("origin", t.to_string()) };
                let s = ask_raw(&inst(), m, &full, h);
                sh.trans(1);
                if !s.reached {
                    sh.note("not accepted by the HTTP parser", 1);
                    return;
                }
                sh.trace();
                sh.state(&(t, m, h, abs));
                let host = if abs { Some(("h.example".into(), Some(81))) } else { s.hosts.first().cloned().unwrap_or(None) };
                match host {
                    Some(host) => {
                        expect_target_at(sh, form, &full, &s, &origin(t.as_bytes()), host.clone());
                        if !abs && !h.to_ascii_lowercase().contains(&format!("host: {}", host.0)) {
                            sh.violation("origin:host", format!("{} {} {:?}: the host is {:?}", m, full, h, host));
                        }
                    }
                    None => {
                        let ok = s.ran.len() == 1 && s.filtered.len() == 1 && s.ran.iter().chain(&s.filtered).all(|r| target_of(r) == origin(t.as_bytes()) && r.method == m);
                        if !ok || h.contains("Host: orig") || !s.views.is_empty() {
                            sh.violation(format!("{}:without-host", form), format!("{} {} {:?}: {:?} {:?}", m, full, h, s.ran, s.resp));
                        }
                    }
                }
                if s.ran.iter().chain(&s.filtered).any(|r| r.method != m) {
                    sh.violation(format!("{}:method", form), format!("{} {} {:?}: {:?}", m, full, h, s.ran));
                }
            });
            // whatever else the request says, and hosts
            let lines = dict::heads();
            ctx.par("heads", lines.len() * 2, |i, sh| {
                let (h, abs) = (&lines[i / 2], i % 2 == 1);
                for t in targets {
                    for m in ["GET", "POST"] {
                        let (form, full) = if abs { ("absolute", format!("http://h.example:81{}", t)) } else { ("origin", t.to_string()) };
                        let s = ask_raw(&inst(), m, &full, &format!("HTTP/1.1\r\nHost: orig:7\r\n{}", h));
                        sh.trans(1);
                        if !s.reached {
                            sh.note("not accepted by the HTTP parser", 1);
                            continue;
                        }
                        sh.trace();
                        let host = if abs { ("h.example".into(), Some(81)) } else { ("orig".into(), Some(7)) };
                        expect_target_at(sh, form, &full, &s, &origin(t.as_bytes()), host);
                        if s.ran.iter().chain(&s.filtered).any(|r| r.method != m) {
                            sh.violation(format!("{}:method", form), format!("{} {} {:?}: {:?}", m, full, h, s.ran));
                        }
                    }
                }
            });
            let hosts = dict::hosts();
            ctx.par("hosts", hosts.len() * 4, |i, sh| {
                let (h, port) = (&hosts[i / 4], [None, Some(81)][i % 2]);
                let text = port.map_or(h.clone(), |p| format!("{}:{}", h, p));
                let abs = i % 4 >= 2;
                let full = if abs { format!("http://{}/p?k=v#f", text) } else { "/p?k=v#f".to_string() };
                let s = ask(&inst(), "GET", &full, if abs { "orig" } else { &text });
                sh.trans(1);
                if !s.reached {
                    sh.note("not accepted by the HTTP parser", 1);
                    return;
                }
                sh.trace();
                expect_target_at(sh, if abs { "absolute" } else { "origin" }, &full, &s, &origin(b"/p?k=v#f"), (h.clone(), port));
            });
            // whatever the header says, the absolute form's host is what counts
            let mut said: Vec<String> = ["", "Host:", "Host: :81", "Host: :", "Host: orig", "Host: orig:0", "Host: orig:65536", "Host: orig:x", "Host: a b", "Host: a,b", "Host: a\r\nHost: b:2", "Host: h.example:81", "Host: h.example", "Host: h.example:82", "host: user@orig", "HOST: [::1]:5", "Host: http://orig/", "Host: *", "Host: \u{e5}"]
                .iter()
                .map(|s| s.to_string())
                .collect();
            said.extend(dict::values().iter().map(|v| format!("Host: {}", v)));
            said.extend(dict::hosts().iter().flat_map(|v| [format!("Host: {}", v), format!("Host: {}:8080", v)]));
            ctx.par("host-headers", said.len() * 4, |i, sh| {
                let (line, abs) = (&said[i / 4], ["http://h.example:81", "http://h.example", "https://h.example:81", "http://h.example:81"][i % 4]);
                let t = format!("{}/p?k=v#f", abs);
                let s = ask_raw(&inst(), "GET", &t, &format!("HTTP/1.{}\r\n{}{}", if i % 4 == 3 { 0 } else { 1 }, line, if line.is_empty() { "" } else { "\r\n" }));
                sh.trans(1);
                if !s.reached {
                    sh.note("not accepted by the HTTP parser", 1);
                    return;
                }
                sh.trace();
                sh.state(&(line, i % 4));
                expect_target_at(sh, "absolute", &t, &s, &origin(b"/p?k=v#f"), ("h.example".into(), if abs.ends_with("81") { Some(81) } else { None }));
            });
            // names of other shapes, as they are
            let shapes: Vec<String> = ["h.", "h..", ".h", "a..b", "www.h", "h.example.", "localhost", "localhost.", "a_b", "1a", "127.1", "255.255.255.255", "0", "h.local", "h.test:1", "_", "~"].iter().map(|s| s.to_string()).collect();
            ctx.par("host-shapes", shapes.len() * 6, |i, sh| {
                let (h, k) = (&shapes[i / 6], i % 6);
                let (text, port) = match (k % 3, h.split_once(':')) {
                    (_, Some((_, p))) => (h.clone(), p.parse().ok()),
                    (0, None) => (h.clone(), None),
                    (1, None) => (format!("{}:81", h), Some(81)),
                    (_, None) => (format!("{}:65535", h), Some(65535)),
                };
                let name = h.split(':').next().unwrap().to_string();
                let abs = k >= 3;
                // the parser of URLs reads numbers as addresses, and refuses some
                if abs && !(name.ends_with("h") || name.ends_with("h.") || name.ends_with("example") || name.ends_with("example.") || name.contains("local") || name == "a_b" || name == "255.255.255.255" || name == "h.test" || name == "a..b" || name == "h..") {
                    return;
                }
                let full = if abs { format!("http://{}/p?k=v#f", text) } else { "/p?k=v#f".to_string() };
                let s = ask(&inst(), "GET", &full, if abs { "orig" } else { &text });
                sh.trans(1);
                if !s.reached {
                    sh.note("not accepted by the HTTP parser", 1);
                    return;
                }
                sh.trace();
                expect_target_at(sh, if abs { "absolute" } else { "origin" }, &full, &s, &origin(b"/p?k=v#f"), (name, port));
            });
            // sizes: of every part of the target, and of what is in it
            let lens = ladder(ctx.pick(9000, 40000));
            ctx.par("sizes", lens.len() * 12, |i, sh| {
                let mut d = Digits(i);
                let (n, shape) = (lens[d.take(lens.len())], d.take(12));
                let inst = inst();
                let r = |s: &str| s.repeat(n);
                let t = match shape {
                    0 => format!("/{}", r("a")),
                    1 => r("/a"),
                    2 => format!("/{}?x=1#f", r("%41%2f")),
                    3 => format!("/?{}=v", r("k")),
                    4 => format!("/?k={}", r("v")),
                    5 => format!("/?{}", (0..n).map(|j| format!("k{}=v{}&", j, j)).collect::<String>()),
                    6 => format!("/p?{}k=last", r("k=v&")),
                    7 => format!("/p#{}", r("f%41")),
                    8 => format!("/p?{}#f", r("&")),
                    9 => format!("/{}", r("/")),
                    10 => format!("/p?k={}", r("%ff+")),
                    _ => format!("/p?a=b#{}", r("#?")),
                };
                if t.is_empty() || t.len() > 60000 {
                    return;
                }
                both(sh, &inst, &t);
            });
            // the authority of an absolute form
            let auths: Vec<(&str, &str)> = vec![
                ("h", "h"), ("h.example", "h.example"), ("H.Example", "h.example"), ("h:81", "h:81"), ("h:8080", "h:8080"), ("127.0.0.1", "127.0.0.1"), ("127.0.0.1:99", "127.0.0.1:99"),
                ("user@h", "h"), ("user:pw@h:82", "h:82"), ("h:65535", "h:65535"), ("a-b.c", "a-b.c"), ("h:80", "h"), ("h:", "h"), ("[::1]:81", "[::1]:81"), ("[::1]", "[::1]"), ("h:1", "h:1"),
            ];
            let schemes: [(&str, Option<u16>); 5] = [("http", Some(80)), ("https", Some(443)), ("ws", Some(80)), ("ftp", Some(21)), ("x-other", None)];
            let rests = ["", "/", "/p/q", "?k=v", "#f", "/?k=v#f", "/p?k=v&k=w", "/p#a?b", "/%41%2f?%41=%42+c#%43", "//", "/p/", "?", "#"];
            let methods = ["GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PURGE"];
            ctx.par("authorities", auths.len() * rests.len() * methods.len() * schemes.len(), |i, sh| {
                let mut d = Digits(i);
                let (scheme, default) = schemes[d.take(schemes.len())];
                let ((a, host), rest, m) = (auths[d.take(auths.len())], rests[d.take(rests.len())], methods[d.take(methods.len())]);
                if m == "HEAD" {
                    return;
                }
                let inst = inst();
                let t = format!("{}://{}{}", scheme, a, rest);
                let s = ask(&inst, m, &t, "orig:7");
                sh.trans(1);
                if !s.reached {
                    sh.note("absolute form not accepted by the URL parser", 1);
                    return;
                }
                sh.trace();
                let want = origin(rest.as_bytes());
                sh.state(&(a, rest, m));
                // as the URL standard has it, the scheme's own port is no port
                let port = a[a.rfind(']').map_or(0, |i| i + 1)..].rsplit('@').next().unwrap().split(':').nth(1).and_then(|p| p.parse::<u16>().ok());
                let name = split_host(host).unwrap().0;
                expect_target_at(sh, "absolute", &t, &s, &want, (name, if port == default { None } else { port }));
            });
            // any number of other headers, of every length, does nothing to any form
            let mut counts: Vec<usize> = (0..=97).collect();
            counts.extend(dict::numbers().iter().filter(|&&n| n < 98));
            counts.sort();
            counts.dedup();
            let kinds = ["n", "same", "cookie", "long", "body"];
            let forms = ["*", "/a%2f?k=v+w#f", "http://h.example:81/a%2f?k=v+w#f", "h:80", "?a=b"];
            let ms = ["GET", "OPTIONS", "POST"];
            ctx.par("header-counts", counts.len() * kinds.len() * forms.len() * ms.len(), |i, sh| {
                let mut d = Digits(i);
                let (n, kind, t, m) = (counts[d.take(counts.len())], kinds[d.take(kinds.len())], forms[d.take(forms.len())], ms[d.take(ms.len())]);
                let mut rest = "HTTP/1.1\r\nHost: orig:7\r\n".to_string();
                for j in 0..n {
                    rest += &match kind {
                        "n" => format!("X-{}: {}\r\n", j, j),
                        "same" => format!("X-Same: {}\r\n", j),
                        "cookie" => format!("Cookie: a{}=b\r\n", j),
                        "long" => format!("X-{}: {}\r\n", j, "v".repeat(n)),
                        _ => format!("X-{}: \r\n", j),
                    };
                }
                if kind == "body" {
                    rest += "Content-Length: 0\r\n";
                }
                let s = ask_raw(&inst(), m, t, &rest);
                sh.trans(1);
                if !s.reached {
                    sh.note("not accepted by the HTTP parser", 1);
                    return;
                }
                sh.trace();
                sh.state(&(n, kind, t, m));
                let status = s.resp.as_ref().map(|r| r.status).ok();
                let d = format!("{} {} and {} headers of the kind {}\n{} handler calls, {} filter calls, response {:?}", m, t, n, kind, s.ran.len(), s.filtered.len(), s.resp);
                match t {
                    "*" => {
                        let f = s.filtered.first();
                        if status != Some(200) || !s.ran.is_empty() || s.filtered.len() != 1 || f.map_or(true, |f| f.path.is_some() || !f.query.is_empty() || f.fragment.is_some() || f.method != m) || !s.views.is_empty() {
                            sh.violation("asterisk:headers", d);
                        }
                    }
                    "h:80" | "?a=b" => {
                        if status != Some(400) || !s.ran.is_empty() || !s.filtered.is_empty() {
                            sh.violation("other-form:headers", d);
                        }
                    }
                    _ => {
                        let host = if t.starts_with('/') { ("orig".into(), Some(7)) } else { ("h.example".into(), Some(81)) };
                        expect_target_at(sh, "headers", t, &s, &origin(b"/a%2f?k=v+w#f"), host);
                    }
                }
            });
            // asterisk and everything else
            let others = ["h", "h:80", "h.example:443", "?a=b", "?", "#", "#f", "a", "a=b", "%41", "*a", "**", "?a#b", "127.0.0.1", "127.0.0.1:80", "user@h:1", "a%2Fb", "+", "&", "-", "[::1]:80"];
            let all = ["GET", "POST", "PUT", "DELETE", "OPTIONS", "CONNECT", "TRACE", "PATCH", "PURGE"];
            ctx.par("other-forms", (others.len() + 1) * all.len(), |i, sh| {
                let mut d = Digits(i);
                let (o, m) = (d.take(others.len() + 1), all[d.take(all.len())]);
                let inst = inst();
                let t = if o == 0 { "*" } else { others[o - 1] };
                let s = ask(&inst, m, t, "orig");
                sh.trans(1);
                if !s.reached {
                    sh.note("not accepted by the HTTP parser", 1);
                    return;
                }
                sh.trace();
                sh.state(&(t, m));
                let status = s.resp.as_ref().map(|r| r.status).ok();
                let d = format!("{} {}\n{} handler calls, {} filter calls, response {:?}", m, t, s.ran.len(), s.filtered.len(), s.resp);
                if o == 0 {
                    if status != Some(200) || !s.ran.is_empty() || s.filtered.len() != 1 {
                        sh.violation("asterisk", d);
                    } else if !s.views.is_empty() {
                        sh.violation("asterisk:views", format!("{:?}", s.views));
                    } else if s.filtered[0].path.is_some() || !s.filtered[0].query.is_empty() || s.filtered[0].fragment.is_some() {
                        sh.violation("asterisk:context", d);
                    }
                } else if status != Some(400) || !s.ran.is_empty() || !s.filtered.is_empty() {
                    sh.violation("other-form", d);
                }
            });
        },
    )
}
