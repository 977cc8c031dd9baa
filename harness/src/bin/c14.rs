//! C14: files are sent whole, with the right type and length.
use mc::gen::*;
use mc::wire::{Closed, Fault, Framing, MemIn, MemOut};
use mc::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::{ContentType, Headers};
use rustful::response::{Data, FileError, ResponseError};
use rustful::server::ServerInstance;
use rustful::{Context, ContentFactory, Handler, Response, StatusCode};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

fn content(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u32).wrapping_mul(2654435761).wrapping_add(i as u32 >> 3).to_le_bytes()[2]).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Way {
    Path,
    PathBuf,
    /// opened, and read up to this byte
    File(u64),
    MimeNone,
    MimeCustom,
    MimeTable,
    Send,
    Some,
    Ok,
    Err,
}
const WAYS: [Way; 13] =
    [Way::Path, Way::PathBuf, Way::File(0), Way::File(1), Way::File(8000), Way::File(u64::MAX), Way::MimeNone, Way::MimeCustom, Way::MimeTable, Way::Send, Way::Some, Way::Ok, Way::Err];

/// What to do about an error.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum On {
    Recover,
    NotFound,
    NotFoundEmpty,
    NotFoundThenIgnore,
    Ignore,
    Handle,
    Into,
    Show,
}
const ONS: [On; 8] = [On::Recover, On::NotFound, On::NotFoundEmpty, On::NotFoundThenIgnore, On::Ignore, On::Handle, On::Into, On::Show];

#[derive(Clone, Debug)]
struct Job {
    path: PathBuf,
    way: Way,
    on: On,
    status: u16,
    ctype: bool,
}
/// What the handler saw.
#[derive(Clone, Debug, Default, PartialEq)]
struct Saw {
    exts: Vec<String>,
    /// "open kind", "send kind" or "ok"
    result: Option<String>,
    recovered: Option<(u16, Option<String>, Option<String>)>,
    note: Option<String>,
}
thread_local! {
    static JOB: RefCell<Option<Job>> = const { RefCell::new(None) };
    static REQUEST: RefCell<Option<(Vec<u8>, bool)>> = const { RefCell::new(None) };
    static SAW: RefCell<Saw> = RefCell::new(Saw::default());
}

fn look(r: &Response) -> (u16, Option<String>, Option<String>) {
    (r.status().to_u16(), r.headers().get::<ContentType>().map(|c| c.to_string()), r.headers().get_raw("x-kept").map(|v| esc(&v[0])))
}

fn attempt<'a, 'b>(job: &Job, r: Response<'a, 'b>) -> Result<(), FileError<'a, 'b>> {
    let p: &Path = &job.path;
    let note = |e: &str| SAW.with(|s| s.borrow_mut().exts.push(e.to_string()));
    match job.way {
        Way::Path => r.try_send(p),
        Way::PathBuf => r.try_send(p.to_path_buf()),
        Way::File(at) => match fs::File::open(p) {
            Ok(mut f) => {
                if at > 0 {
                    let _ = f.by_ref().take(3).read_to_end(&mut vec![]);
                    let len = f.metadata().map(|m| m.len()).unwrap_or(0);
                    let _ = f.seek(SeekFrom::Start(at.min(len)));
                }
                r.try_send(f)
            }
            Err(e) => Err(FileError::Open(e, r)),
        },
        Way::MimeNone => r.send_file_with_mime(p, |e| {
            note(e);
            None
        }),
        Way::MimeCustom => r.send_file_with_mime(&job.path, |e| {
            note(e);
            Some("x-custom/type".parse().unwrap())
        }),
        Way::MimeTable => r.send_file_with_mime(p.to_path_buf(), |e| {
            note(e);
            rustful::file::ext_to_mime(e)
        }),
        Way::Send => {
            r.send(p);
            Ok(())
        }
        Way::Some => r.try_send(Some(p)),
        Way::Ok => r.try_send(Ok::<_, PathBuf>(p)),
        Way::Err => r.try_send(Err::<PathBuf, _>(p)),
    }
}

struct H;
impl Handler for H {
    fn handle(&self, _: Context, mut r: Response) {
        let job = JOB.with(|j| j.borrow().clone().unwrap());
        r.set_status(StatusCode::from_u16(job.status));
        r.headers_mut().set_raw("x-kept", vec![b"1".to_vec()]);
        if job.ctype {
            r.headers_mut().set(ContentType("a/preset".parse().unwrap()));
        }
        let saw = |f: &dyn Fn(&mut Saw)| SAW.with(|s| f(&mut s.borrow_mut()));
        let e = match attempt(&job, r) {
            Ok(()) => return saw(&|s| s.result = Some("ok".into())),
            Err(e) => e,
        };
        match e {
            FileError::Open(ref e, ref r) => saw(&|s| {
                s.result = Some(format!("open {:?}", e.kind()));
                s.recovered = Some(look(r));
            }),
            FileError::Send(ref e) => saw(&|s| s.result = Some(format!("send {:?}", e.kind()))),
        }
        match job.on {
            On::Recover => match e.recover_response() {
                Ok(r) => {
                    let l = look(&r);
                    saw(&|s| s.recovered = Some(l.clone()));
                    r.send("recovered")
                }
                Err(FileError::Send(_)) => saw(&|s| s.note = Some("not recoverable".into())),
                Err(FileError::Open(..)) => saw(&|s| s.note = Some("open error not recoverable".into())),
            },
            On::NotFound | On::NotFoundEmpty => match e.send_not_found(if job.on == On::NotFound { "nothing here" } else { "" }) {
                Ok(()) => saw(&|s| s.note = Some("sent".into())),
                Err(FileError::Open(_, mut r)) => {
                    saw(&|s| s.note = Some("kept".into()));
                    r.set_status(StatusCode::ImATeapot);
                }
                Err(FileError::Send(_)) => saw(&|s| s.note = Some("send kept".into())),
            },
            On::NotFoundThenIgnore => match e.send_not_found("nothing here").or_else(|e| e.ignore_send_error()) {
                Ok(()) => saw(&|s| s.note = Some("done".into())),
                Err((_, mut r)) => {
                    saw(&|s| s.note = Some("kept".into()));
                    r.set_status(StatusCode::ImATeapot);
                }
            },
            On::Ignore => match e.ignore_send_error() {
                Ok(()) => saw(&|s| s.note = Some("ignored".into())),
                Err((e, mut r)) => {
                    saw(&|s| s.note = Some(format!("kept {:?}", e.kind())));
                    r.set_status(StatusCode::ImATeapot);
                }
            },
            On::Handle => e.handle(),
            On::Into => {
                let e: io::Error = e.into();
                saw(&|s| s.note = Some(format!("{:?}", e.kind())));
            }
            On::Show => {
                let t = format!("{} {:?}", e, e);
                saw(&|s| s.note = Some(if t.is_empty() { "empty" } else { "shown" }.into()));
                e.handle()
            }
        }
    }
}

fn table() -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in fs::read_to_string("/repo/build/apache/mime.types").unwrap().lines() {
        if l.starts_with('#') {
            continue;
        }
        let mut w = l.split_whitespace();
        if let Some(t) = w.next() {
            for e in w {
                m.entry(e.into()).or_default().push(t.to_ascii_lowercase());
            }
        }
    }
    m
}

const OCTETS: &str = "application/octet-stream";

fn types_for(tab: &BTreeMap<String, Vec<String>>, ext: &Option<String>) -> Vec<String> {
    ext.as_ref().and_then(|e| tab.get(e)).cloned().unwrap_or_else(|| vec![OCTETS.into()])
}

/// An extension as the last dot of a file name delimits it, unless that is all there is.
fn ext_of(name: &[u8]) -> Option<String> {
    if name == b".." {
        return None;
    }
    let i = name.iter().rposition(|&c| c == b'.')?;
    if i == 0 {
        return None;
    }
    Some(String::from_utf8_lossy(&name[i + 1..]).into_owned())
}

fn names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["plain", "a.html", "a.css", "a.js", "a.jpg", "a.JPG", "a.png", "a.txt", "a.json", "a.svg", "a.mp4", "a.mpeg", "a.tar.gz", "a.unknownext", ".html", ".a.html", "a.", "a b.html", "a.html ", "é.html", "a.é", "a.html~", "..html", "a..", "a%2ehtml"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .collect();
    v.push(b"a.\xff".to_vec());
    v.push(b"\xff.html".to_vec());
    v
}

/// What is asked, and whether the answer is without a body.
fn request() -> (Vec<u8>, bool) {
    REQUEST.with(|r| r.borrow().clone()).unwrap_or_else(|| (b"GET /f HTTP/1.1\r\nHost: h\r\n\r\n".to_vec(), false))
}

fn talk(inst: &ServerInstance<H>, job: &Job, out: &mut MemOut) -> (wire::Served, Saw) {
    JOB.with(|j| *j.borrow_mut() = Some(job.clone()));
    SAW.with(|s| *s.borrow_mut() = Saw::default());
    let s = wire::serve(inst, &mut MemIn::new(request().0), out, true);
    (s, SAW.with(|s| s.borrow().clone()))
}

fn sent(sh: &mut Shard, inst: &ServerInstance<H>, tab: &BTreeMap<String, Vec<String>>, job: &Job, data: &[u8], name: &[u8]) {
    let mut o = MemOut::new();
    let (s, saw) = talk(inst, job, &mut o);
    sh.trans(1);
    sh.trace();
    let d = || format!("{:?} of {} bytes", job, data.len());
    if let Closed::Panic(p) = s.closed {
        sh.violation("panic", format!("{}\n{}", d(), p));
        return;
    }
    let ext = ext_of(name);
    let want_result = if job.way == Way::Send { "ok" } else { "ok" };
    if saw.result.as_ref().map(|s| &s[..]) != Some(want_result) {
        sh.violation("result", format!("{}\n{:?}", d(), saw));
        return;
    }
    let want_exts: Vec<String> = match job.way {
        Way::MimeNone | Way::MimeCustom | Way::MimeTable => ext.iter().cloned().collect(),
        _ => vec![],
    };
    if saw.exts != want_exts {
        sh.violation("mapping", format!("{}\nthe mapping was asked for {:?}, expected {:?}", d(), saw.exts, want_exts));
    }
    // HEAD is answered with the body (a known finding of C11) or, as it should be, without
    let mut head = request().1;
    let mut parsed = wire::parse_all(&o.bytes(), &[head]);
    if head && parsed.is_err() {
        head = false;
        parsed = wire::parse_all(&o.bytes(), &[head]);
    }
    let r = match parsed {
        Ok(mut r) => r.pop().unwrap(),
        Err(e) => {
            sh.violation(format!("malformed:{}", norm(&e)), format!("{}\n{}", d(), e));
            return;
        }
    };
    let status = match job.way {
        Way::Ok => 200,
        Way::Err => 500,
        _ => job.status,
    };
    if r.status != status {
        sh.violation("status", format!("{}\n{} instead of {}", d(), r.status, status));
    }
    let types = match job.way {
        Way::MimeNone => vec![OCTETS.to_string()],
        Way::MimeCustom => vec![if ext.is_some() { "x-custom/type" } else { OCTETS }.to_string()],
        // an open file has no name
        Way::File(_) => vec![if job.ctype { "a/preset" } else { "text/plain" }.to_string()],
        _ => types_for(tab, &ext),
    };
    if !r.one("content-type").map_or(false, |t| types.iter().any(|x| x == t)) {
        sh.violation("type", format!("{}\nContent-Type {:?}, expected {:?}", d(), r.all("content-type"), types));
    }
    let want = match job.way {
        Way::File(at) => &data[(at as usize).min(data.len())..],
        _ => data,
    };
    let want = if head { &[] } else { want };
    if !head && r.framing != Framing::Sized(want.len() as u64) {
        sh.violation("length", format!("{}\n{:?}, expected {}", d(), r.framing, want.len()));
    }
    if r.body != want {
        let at = r.body.iter().zip(want).position(|(a, b)| a != b);
        sh.violation("content", format!("{}\n{} bytes, first difference at {:?}", d(), r.body.len(), at));
    }
    if r.one("x-kept") != Some("1") {
        sh.violation("headers", format!("{}\n{:?}", d(), r.headers));
    }
}

/// A path that cannot be opened, and why.
fn bad_paths(dir: &Path) -> Vec<(PathBuf, ErrorKind)> {
    let p = |s: &str| dir.join(s);
    fs::create_dir_all(p("dir.html")).unwrap();
    let _ = std::os::unix::fs::symlink("missing-target", p("dangling.html"));
    let _ = std::os::unix::fs::symlink("loop.html", p("loop.html"));
    let _ = std::os::unix::fs::symlink("dir.html", p("linkdir"));
    fs::write(p("secret.html"), "x").unwrap();
    let c = std::ffi::CString::new(p("secret.html").as_os_str().as_bytes()).unwrap();
    unsafe { libc::chmod(c.as_ptr(), 0) };
    let _ = std::os::unix::net::UnixListener::bind(p("socket"));
    let mut v = vec![
        (p("missing.html"), ErrorKind::NotFound),
        (p("missing"), ErrorKind::NotFound),
        (p("missing/deeper.html"), ErrorKind::NotFound),
        (p("dangling.html"), ErrorKind::NotFound),
        (PathBuf::from(""), ErrorKind::NotFound),
        (p("nul\0byte.html"), ErrorKind::InvalidInput),
        (p("secret.html"), ErrorKind::PermissionDenied),
    ];
    // whatever the system calls these, it is not "not found"
    for s in ["dir.html", "dir.html/", "linkdir", ".", "loop.html", "plain/under.html", "socket", &"n".repeat(300)] {
        v.push((p(s), ErrorKind::Other));
    }
    v
}

fn not_opened(sh: &mut Shard, inst: &ServerInstance<H>, job: &Job, kind: ErrorKind) {
    let open_file = matches!(job.way, Way::File(_));
    let mut o = MemOut::new();
    // give up the right to read everything, for this thread only
    let restricted = kind == ErrorKind::PermissionDenied;
    if restricted {
        unsafe { libc::setfsuid(65534) };
    }
    let readable = restricted && fs::File::open(&job.path).is_ok();
    let (s, saw) = talk(inst, job, &mut o);
    if restricted {
        unsafe { libc::setfsuid(libc::getuid()) };
    }
    if readable {
        return;
    }
    sh.trans(1);
    sh.trace();
    let d = || format!("{:?}", job);
    if let Closed::Panic(p) = s.closed {
        sh.violation("open:panic", format!("{}\n{}", d(), p));
        return;
    }
    let r = match wire::parse_all(&o.bytes(), &[false]) {
        Ok(mut r) => r.pop().unwrap(),
        Err(e) => {
            sh.violation("open:malformed", format!("{}\n{}", d(), e));
            return;
        }
    };
    let missing = kind == ErrorKind::NotFound;
    // sending sets 200 or 500 for results first
    let status = match job.way {
        Way::Ok => 200,
        Way::Err => 500,
        _ => job.status,
    };
    let ctype = if job.ctype { "a/preset" } else { "text/plain" };
    let (want_status, want_body, want_note): (u16, &str, Option<&str>) = if job.way == Way::Send {
        (if missing { 404 } else { 500 }, "", None)
    } else {
        match (job.on, missing) {
            (On::Recover, _) => (status, "recovered", None),
            (On::NotFound, true) => (404, "nothing here", Some("sent")),
            (On::NotFoundEmpty, true) => (404, "", Some("sent")),
            (On::NotFound, false) | (On::NotFoundEmpty, false) => (418, "", Some("kept")),
            (On::NotFoundThenIgnore, true) => (404, "nothing here", Some("done")),
            (On::NotFoundThenIgnore, false) => (418, "", Some("kept")),
            (On::Ignore, _) => (418, "", None),
            (On::Handle, true) | (On::Show, true) => (404, "", None),
            (On::Handle, false) | (On::Show, false) => (500, "", None),
            (On::Into, _) => (0, "", None),
        }
    };
    if job.way != Way::Send {
        let res = saw.result.clone().unwrap_or_default();
        if !res.starts_with("open ") || missing != (res == "open NotFound") || (kind != ErrorKind::Other && !missing && res != format!("open {:?}", kind)) {
            sh.violation("open:result", format!("{}\n{:?}", d(), saw));
            return;
        }
        // recovered unchanged
        if saw.recovered != Some((status, Some(ctype.into()), Some("1".into()))) {
            sh.violation("open:recovered", format!("{}\n{:?}", d(), saw.recovered));
        }
        if let Some(n) = want_note {
            if saw.note.as_ref().map(|s| &s[..]) != Some(n) {
                sh.violation("open:helper", format!("{}\n{:?}", d(), saw.note));
            }
        }
        if job.on == On::Into && saw.note.as_ref().map(|n| format!("open {}", n)) != saw.result {
            sh.violation("open:into", format!("{}\n{:?}", d(), saw));
        }
        let _ = open_file;
    }
    if want_status != 0 && r.status != want_status {
        sh.violation("open:status", format!("{}\n{} instead of {}", d(), r.status, want_status));
    }
    if r.body != want_body.as_bytes() {
        sh.violation("open:body", format!("{}\n{:?} instead of {:?}", d(), esc(&r.body), want_body));
    }
    if r.one("x-kept") != Some("1") || r.one("content-type") != Some(ctype) {
        sh.violation("open:headers", format!("{}\n{:?}", d(), r.headers));
    }
}

/// The transport fails while sending.
fn broken(sh: &mut Shard, inst: &ServerInstance<H>, job: &Job, data: &[u8]) {
    let mut o = MemOut::new();
    let _ = talk(inst, job, &mut o);
    let n = o.calls.lock().unwrap().len();
    for i in 0..n {
        let mut o = MemOut::new();
        o.faults = vec![(i, Fault::Fail(ErrorKind::BrokenPipe))];
        let (s, saw) = talk(inst, job, &mut o);
        sh.trans(1);
        sh.trace();
        let d = || format!("{:?} of {} bytes, transport call {} fails", job, data.len(), i);
        if let Closed::Panic(p) = s.closed {
            sh.violation("send:panic", format!("{}\n{}", d(), p));
            continue;
        }
        if job.way == Way::Send {
            continue;
        }
        let note = match job.on {
            On::Recover => "not recoverable",
            On::NotFound | On::NotFoundEmpty => "send kept",
            On::NotFoundThenIgnore => "done",
            On::Ignore => "ignored",
            On::Into => "BrokenPipe",
            On::Handle => "",
            On::Show => "shown",
        };
        // what is left in the transport's buffer is written when nobody waits for it any more
        let late = saw.result.as_ref().map_or(false, |r| r == "ok") && i == n - 1;
        if !late && (saw.result.as_ref().map(|s| &s[..]) != Some("send BrokenPipe") || saw.note.clone().unwrap_or_default() != note) {
            sh.violation("send:result", format!("{}\n{:?}", d(), saw));
        }
    }
}

struct Shout;
impl ResponseFilter for Shout {
    fn begin(&self, _: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        h.set_raw("x-filter", vec![b"1".to_vec()]);
        (s, ResponseAction::next(Some("<")))
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::next(c.map(|c| c.as_bytes().to_ascii_uppercase()))
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(Some(">"))
    }
}

fn main() {
    check_main(
        "C14",
        Level::ModelChecking,
        "every file size around the buffer boundaries x file name x way of sending x status and headers set before; every open failure x way of sending x way of dealing with the error; every transport call failing; state = one (file, way, handling)",
        |ctx| {
            ctx.assume("regular files that do not change while they are sent; a file that is already open is sent from its current position");
            ctx.assume("the built-in table is the bundled Apache table (C16)");
            let dir = std::env::temp_dir().join(format!("mc-c14-{}", std::process::id()));
            let _ = fs::remove_dir_all(&dir);
            fs::create_dir_all(&dir).unwrap();
            let tab = table();
            let names = names();
            let mut sizes: Vec<usize> = vec![0, 1, 2, 3, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537];
            if ctx.thorough {
                sizes.extend(4..511);
                sizes.extend((8000..8400).filter(|n| !(8191..8194).contains(n)));
                sizes.extend([100_000, 131071, 131072, 131073, 1 << 20, (1 << 20) + 1]);
            }
            sizes.extend(ladder(ctx.pick(70_000, 1_100_000)));
            sizes.sort();
            sizes.dedup();
            let statuses = [200u16, 203, 404];
            // sizes x ways
            for &n in &sizes {
                fs::write(dir.join(format!("s{}.html", n)), content(n)).unwrap();
            }
            ctx.par("sizes", sizes.len() * WAYS.len(), |i, sh| {
                let inst = srv::instance(H);
                let (n, way) = (sizes[i / WAYS.len()], WAYS[i % WAYS.len()]);
                let name = format!("s{}.html", n);
                for status in statuses {
                    for ctype in [false, true] {
                        sh.add_states(1);
                        sent(sh, &inst, &tab, &Job { path: dir.join(&name), way, on: On::Handle, status, ctype }, &content(n), name.as_bytes());
                    }
                }
                if n > 0 && n < 70000 {
                    let ons = if n == 8193 { &ONS[..] } else { &ONS[..1] };
                    for &on in ons {
                        broken(sh, &inst, &Job { path: dir.join(&name), way, on, status: 200, ctype: false }, &content(n));
                    }
                }
            });
            // sizes beyond what fits into 31 and 32 bits: the announced length (nothing is read beyond the head)
            let huge: Vec<u64> = [31u32, 32, 33, 35].iter().flat_map(|&p| [(1u64 << p) - 1, 1 << p, (1 << p) + 1, (1 << p) + 4711]).collect();
            ctx.seq("huge", huge.len(), |i, sh| {
                let n = huge[i];
                let path = dir.join("huge.html");
                let f = fs::File::create(&path).unwrap();
                if f.set_len(n).is_err() {
                    sh.note("file system without sparse files of this size", 1);
                    return;
                }
                drop(f);
                let inst = srv::instance(H);
                for way in WAYS {
                    let job = Job { path: path.clone(), way, on: On::Handle, status: 200, ctype: false };
                    let mut o = MemOut::new();
                    o.faults = vec![(1, Fault::Fail(ErrorKind::BrokenPipe))];
                    let (_, _) = talk(&inst, &job, &mut o);
                    sh.add_states(1);
                    sh.trans(1);
                    sh.trace();
                    let at = if let Way::File(at) = way { at.min(n) } else { 0 };
                    let out = String::from_utf8_lossy(&o.bytes()).into_owned();
                    let head = out.split("\r\n\r\n").next().unwrap_or("");
                    let want = format!("Content-Length: {}", n - at);
                    if n > at && !head.lines().any(|l| l == want) {
                        sh.violation("huge", format!("{:?}, a file of {} bytes: {:?}", job, n, head));
                    }
                }
                let _ = fs::remove_file(&path);
            });
            // names x ways
            let sub = dir.join("names.d");
            fs::create_dir_all(&sub).unwrap();
            let known: Vec<Vec<u8>> = names.clone().into_iter().chain(if ctx.thorough { tab.keys().map(|e| format!("file.{}", e).into_bytes()).collect::<Vec<_>>() } else { vec![] }).collect();
            for (i, n) in known.iter().enumerate() {
                fs::write(sub.join(OsString::from_vec(n.clone())), content(20 + i)).unwrap();
            }
            ctx.par("names", known.len() * WAYS.len(), |i, sh| {
                let inst = srv::instance(H);
                let (k, way) = (i / WAYS.len(), WAYS[i % WAYS.len()]);
                let data = content(20 + k);
                for status in statuses {
                    for ctype in [false, true] {
                        sh.add_states(1);
                        sent(sh, &inst, &tab, &Job { path: sub.join(OsString::from_vec(known[k].clone())), way, on: On::Handle, status, ctype }, &data, &known[k]);
                    }
                }
                sh.sample(|| format!("{:?} {:?}", way, esc(&known[k])));
            });
            // whatever is asked for: methods, versions and headers that sound like parts, caches and encodings
            let mut heads: Vec<String> = vec!["".into()];
            for (n, vs) in [
                ("Range", &["bytes=0-0", "bytes=1-", "bytes=-1", "bytes=0-99999", "lines=1"][..]),
                ("If-Range", &["\"x\"", "Sun, 06 Nov 2094 08:49:37 GMT"]),
                ("If-Modified-Since", &["Sun, 06 Nov 2094 08:49:37 GMT", "Sun, 06 Nov 1994 08:49:37 GMT"]),
                ("If-Unmodified-Since", &["Sun, 06 Nov 1994 08:49:37 GMT"]),
                ("If-None-Match", &["*", "\"x\""]),
                ("If-Match", &["*", "\"x\""]),
                ("Accept", &["image/png", "*/*;q=0"]),
                ("Accept-Encoding", &["gzip, deflate", "identity;q=0"]),
                ("Accept-Charset", &["utf-8"]),
                ("TE", &["trailers, chunked"]),
                ("Cache-Control", &["no-cache", "only-if-cached"]),
                ("Connection", &["close", "keep-alive", "upgrade"]),
                ("User-Agent", &["Mozilla/5.0 (compatible; MSIE 6.0)"]),
            ] {
                heads.extend(vs.iter().map(|v| format!("{}: {}\r\n", n, v)));
            }
            let methods = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PROPFIND"];
            let files = [0usize, 1, 4097, 8193];
            ctx.par("requests", heads.len() * methods.len() * 2, |i, sh| {
                let mut d = Digits(i);
                let (h, m, v) = (&heads[d.take(heads.len())], methods[d.take(methods.len())], ["1.1", "1.0"][d.take(2)]);
                let inst = srv::instance(H);
                REQUEST.with(|r| *r.borrow_mut() = Some((format!("{} /f HTTP/{}\r\nHost: h\r\n{}\r\n", m, v, h).into_bytes(), m == "HEAD")));
                for n in files {
                    let name = format!("s{}.html", n);
                    for way in WAYS {
                        for status in [200u16, 206, 404] {
                            sh.add_states(1);
                            sent(sh, &inst, &tab, &Job { path: dir.join(&name), way, on: On::Handle, status, ctype: false }, &content(n), name.as_bytes());
                        }
                    }
                }
                REQUEST.with(|r| *r.borrow_mut() = None);
            });
            let lines = dict::heads();
            let other = dict::methods();
            ctx.par("heads", lines.len() * 3 + other.len(), |i, sh| {
                let (h, m) = if i < lines.len() * 3 { (&lines[i / 3][..], ["GET", "HEAD", "POST"][i % 3]) } else { ("", &other[i - lines.len() * 3][..]) };
                let inst = srv::instance(H);
                REQUEST.with(|r| *r.borrow_mut() = Some((format!("{} /f HTTP/1.1\r\nHost: h\r\n{}\r\n", m, h).into_bytes(), m == "HEAD")));
                for n in files {
                    let name = format!("s{}.html", n);
                    for way in WAYS {
                        sh.add_states(1);
                        sent(sh, &inst, &tab, &Job { path: dir.join(&name), way, on: On::Handle, status: 200, ctype: false }, &content(n), name.as_bytes());
                    }
                }
                REQUEST.with(|r| *r.borrow_mut() = None);
            });
            // names, directories and content made of what the code mentions
            let words: Vec<Vec<u8>> = dict::forms().into_iter().filter(|w| !w.is_empty() && w.len() < 200 && !w.contains(&b'/') && !w.contains(&0)).collect();
            let word_dir = dir.join("words.d");
            fs::create_dir_all(&word_dir).unwrap();
            ctx.par("words", words.len(), |i, sh| {
                let inst = srv::instance(H);
                let w = &words[i];
                let here = word_dir.join(i.to_string());
                fs::create_dir_all(&here).unwrap();
                let mut made: Vec<(PathBuf, Vec<u8>, Vec<u8>)> = vec![];
                let data = [w, &b"\r\n"[..], w, b"\n\n", w].concat();
                for name in [w.clone(), [&w[..], b".html"].concat(), [b"x.", &w[..]].concat(), [b"x.html.", &w[..]].concat()] {
                    if &name[..] != b"." && &name[..] != b".." {
                        made.push((here.join(OsString::from_vec(name.clone())), name, data.clone()));
                    }
                }
                if &w[..] != b"." && &w[..] != b".." {
                    let d = here.join("d").join(OsString::from_vec(w.clone()));
                    fs::create_dir_all(&d).unwrap();
                    made.push((d.join("p.html"), b"p.html".to_vec(), w.clone()));
                }
                for (path, name, data) in &made {
                    fs::write(path, data).unwrap();
                    for way in WAYS {
                        for ctype in [false, true] {
                            sh.add_states(1);
                            sent(sh, &inst, &tab, &Job { path: path.clone(), way, on: On::Handle, status: 200, ctype }, data, name);
                        }
                    }
                }
                let _ = fs::remove_dir_all(&here);
            });
            // ways to write the path of a file, and links to it
            let up: PathBuf = std::env::current_dir().unwrap().components().skip(1).map(|_| "..").collect();
            let relative = up.join(dir.strip_prefix("/").unwrap());
            let deep = sub.join(["d".repeat(200), "e".repeat(200), "f".repeat(200)].iter().collect::<PathBuf>());
            fs::create_dir_all(&deep).unwrap();
            fs::write(deep.join("p.html"), content(77)).unwrap();
            fs::write(sub.join("p.html"), content(77)).unwrap();
            fs::write(sub.join(format!("{}.html", "n".repeat(250))), content(77)).unwrap();
            for (to, link) in [("p.html", "link.css"), ("link.css", "second.js"), ("p.html", "noext"), ("../names.d", "dirlink")] {
                let _ = std::os::unix::fs::symlink(to, sub.join(link));
            }
            let sub_text = sub.to_str().unwrap().to_string();
            let spelled: Vec<(PathBuf, String)> = vec![
                (sub.join("link.css"), "link.css".into()),
                (sub.join("second.js"), "second.js".into()),
                (sub.join("noext"), "noext".into()),
                (sub.join("dirlink/p.html"), "p.html".into()),
                (sub.join("dirlink/link.css"), "link.css".into()),
                (deep.join("p.html"), "p.html".into()),
                (sub.join(format!("{}.html", "n".repeat(250))), "n.html".into()),
                (relative.join("names.d/p.html"), "p.html".into()),
                (format!("./{}/names.d/p.html", relative.display()).into(), "p.html".into()),
                (format!("{}/./p.html", sub_text).into(), "p.html".into()),
                (format!("{}/../names.d/p.html", sub_text).into(), "p.html".into()),
                (format!("{}//p.html", sub_text).into(), "p.html".into()),
                (format!("/{}/p.html", sub_text).into(), "p.html".into()),
                (format!("/..{}/p.html", sub_text).into(), "p.html".into()),
            ];
            ctx.par("spellings", spelled.len() * WAYS.len(), |i, sh| {
                let inst = srv::instance(H);
                let (path, name) = spelled[i / WAYS.len()].clone();
                for status in statuses {
                    sh.add_states(1);
                    sent(sh, &inst, &tab, &Job { path: path.clone(), way: WAYS[i % WAYS.len()], on: On::Handle, status, ctype: false }, &content(77), name.as_bytes());
                }
            });
            // failures
            fs::write(dir.join("plain"), "p").unwrap();
            let bad = bad_paths(&dir);
            ctx.par("failures", bad.len() * WAYS.len(), |i, sh| {
                let inst = srv::instance(H);
                let (path, kind) = bad[i / WAYS.len()].clone();
                for on in ONS {
                    for status in statuses {
                        for ctype in [false, true] {
                            sh.add_states(1);
                            not_opened(sh, &inst, &Job { path: path.clone(), way: WAYS[i % WAYS.len()], on, status, ctype }, kind);
                        }
                    }
                }
            });
            // factories, and filters (which see no raw data, but do see error messages)
            ctx.seq("factory", 2, |i, sh| {
                let (p, q) = (dir.join("s8193.html"), dir.join("missing.html"));
                let p2 = if i == 0 { p } else { q };
                let inst = srv::instance(ContentFactory(move |_: Context| p2.clone()));
                sh.add_states(1);
                sh.trans(1);
                sh.trace();
                match srv::ask(&inst, b"GET /f HTTP/1.1\r\nHost: h\r\n\r\n") {
                    Ok(r) => {
                        let ok = if i == 0 { r.status == 200 && r.body == content(8193) && r.one("content-type") == Some("text/html") } else { r.status == 404 && r.body.is_empty() };
                        if !ok {
                            sh.violation("factory", format!("case {}: {} {:?}", i, r.status, r.headers));
                        }
                    }
                    Err(e) => sh.violation("factory", e),
                }
            });
            ctx.seq("filters", WAYS.len(), |i, sh| {
                let mut c = srv::config(H);
                c.response_filters.push(Box::new(Shout));
                let inst = c.build();
                sh.add_states(1);
                // the file's bytes are sent as they are
                sent(sh, &inst, &tab, &Job { path: dir.join("s4097.html"), way: WAYS[i], on: On::Handle, status: 200, ctype: false }, &content(4097), b"s4097.html");
                let mut o = MemOut::new();
                talk(&inst, &Job { path: dir.join("missing.html"), way: WAYS[i], on: On::NotFound, status: 200, ctype: false }, &mut o);
                sh.trans(1);
                sh.trace();
                let want: &[u8] = if WAYS[i] == Way::Send { b"<>" } else { b"<NOTHING HERE>" };
                match wire::parse_all(&o.bytes(), &[false]) {
                    Ok(r) if r[0].status == 404 && r[0].body == want && r[0].one("x-filter") == Some("1") => {}
                    r => sh.violation("filters", format!("{:?}: {:?}", WAYS[i], r)),
                }
            });
            let _ = fs::remove_dir_all(&dir);
        },
    )
}
