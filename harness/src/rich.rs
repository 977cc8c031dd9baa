//! A server that uses most of what the framework offers, and requests that tell apart all that
//! might leak from one into another.
use crate::gen::*;
use crate::sched;
use crate::srv;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::ServerInstance;
use rustful::{Context, DefaultRouter, Handler, Response, Server, StatusCode};
use std::fmt::Write as FW;
use std::io::Read;
use std::sync::Arc;

// Request types. Each is distinguishable from every other in all that it carries.
pub const REQS: [&str; 29] = [
    "GET /a?x=1&x2=one#frag1 HTTP/1.1\r\nHost: a.example\r\nX-Id: r0\r\nX-Only0: 0\r\n\r\n",
    "GET /v/one/two HTTP/1.1\r\nHost: b.example:81\r\nX-Id: r1\r\n\r\n",
    "GET /s/a/b/c?y=2 HTTP/1.1\r\nHost: c.example\r\nX-Id: r2\r\nCookie: c=2\r\n\r\n",
    "POST /form?q=3 HTTP/1.1\r\nHost: d.example\r\nX-Id: r3\r\nContent-Length: 11\r\n\r\nk=v&l=m&n=3",
    "POST /form HTTP/1.1\r\nHost: e.example\r\nX-Id: r4\r\nTransfer-Encoding: chunked\r\n\r\n4\r\nk4=v\r\n5\r\n&l4=m\r\n0\r\n\r\n",
    "POST /a?unread=5 HTTP/1.1\r\nHost: f.example\r\nX-Id: r5\r\nContent-Length: 38\r\n\r\nGET /evil HTTP/1.1\r\nHost: evil\r\nX: 5\r\n\r\n",
    "GET /chunk#six HTTP/1.1\r\nHost: g.example\r\nX-Id: r6\r\n\r\n",
    "GET /raw HTTP/1.1\r\nHost: h.example\r\nX-Id: r7\r\n\r\n",
    "GET /nowhere/eight HTTP/1.1\r\nHost: i.example\r\nX-Id: r8\r\n\r\n",
    "DELETE /a HTTP/1.1\r\nHost: j.example\r\nX-Id: r9\r\n\r\n",
    "GET /panic HTTP/1.1\r\nHost: k.example\r\nX-Id: r10\r\n\r\n",
    "GET /abort HTTP/1.1\r\nHost: l.example\r\nX-Id: r11\r\n\r\n",
    "HEAD /a?h=12 HTTP/1.1\r\nHost: m.example\r\nX-Id: r12\r\n\r\n",
    "OPTIONS * HTTP/1.1\r\nHost: n.example\r\nX-Id: r13\r\n\r\n",
    "GET http://abs.example:99/v/three/four?z=14#abs HTTP/1.1\r\nHost: o.example\r\nX-Id: r14\r\n\r\n",
    "GET /set HTTP/1.1\r\nHost: p.example\r\nX-Id: r15\r\n\r\n",
    "GET /file HTTP/1.1\r\nHost: q.example\r\nX-Id: r16\r\n\r\n",
    "GET /stop HTTP/1.1\r\nHost: r.example\r\nX-Id: r17\r\n\r\n",
    "POST /part HTTP/1.1\r\nHost: s.example\r\nX-Id: r18\r\nContent-Length: 12\r\n\r\npartly=read!",
    "GET /v/%ff%00/x%2Fy HTTP/1.1\r\nHost: t.example\r\nX-Id: r19\r\n\r\n",
    "GET / HTTP/1.1\r\nX-Id: r20\r\nHost: u.example\r\n\r\n",
    "CONNECT t.example:443 HTTP/1.1\r\nHost: v.example\r\nX-Id: r21\r\n\r\n",
    "GET /v/lone HTTP/1.1\r\nHost: w.example\r\nX-Id: r22\r\n\r\n",
    "POST /v/post/two HTTP/1.1\r\nHost: x.example\r\nX-Id: r23\r\nContent-Length: 0\r\n\r\n",
    "GET /fpanic HTTP/1.1\r\nHost: y.example\r\nX-Id: r24\r\n\r\n",
    "GET /missing HTTP/1.1\r\nHost: z.example\r\nX-Id: r25\r\n\r\n",
    "GET /late HTTP/1.1\r\nHost: A.example\r\nX-Id: r26\r\n\r\n",
    "GET /a?cut=27 HTTP/1.1\r\nHost: B.example\r\nX-Id: r27\r\n\r\n",
    "GET /a?cut=28 HTTP/1.1\r\nHost: C.example\r\nX-Id: r28\r\n\r\n",
];
/// Requests that differ from the first, or from the one before, in a single detail.
pub const NEAR: [&str; 36] = [
    "GET /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?Key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=2#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=1&key=Last#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Va%6c%20&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Va%256c&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&y=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=1#frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=1# HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=1 HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/One/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/two/one?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/tw%4f?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two/?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /V/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /s/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: Near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example:81\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: Yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\n\r\n",
    "GET /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\nX-More: yes\r\n\r\n",
    "GET /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\nContent-Type: text/plain\r\n\r\n",
    "GET /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: N\r\nX-More: yes\r\n\r\n",
    "POST /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "get /v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET http://near.example/v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET http://other.example/v/one/two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "GET /s/one/Two?key=Val&x=1#Frag HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nX-More: yes\r\n\r\n",
    "POST /form HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nContent-Length: 11\r\n\r\nk=v&l=m&n=3",
    "POST /form HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nContent-Length: 11\r\n\r\nk=V&l=m&n=3",
    "POST /form HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nContent-Length: 7\r\n\r\nk=v&l=m",
    "POST /form?k=v&l=m&n=3 HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\n\r\n",
    "POST /form HTTP/1.1\r\nHost: near.example\r\nX-Id: n\r\nTransfer-Encoding: chunked\r\n\r\n7\r\nk=v&l=M\r\n0\r\n\r\n",
];
/// All of them, by number.
pub fn text_of(q: usize) -> &'static str {
    if q < REQS.len() {
        REQS[q]
    } else {
        NEAR[q - REQS.len()]
    }
}
pub const PANICS: [usize; 3] = [10, 24, 26];
/// The transport reads the rest of these bodies itself.
pub fn is_head(r: usize) -> bool {
    r == 12
}

fn dump(c: &mut Context) -> String {
    let mut s = String::new();
    let _ = write!(s, "{} {:?} {} ", c.method, c.http_version, c.address);
    let _ = write!(s, "path={:?} ", c.uri_path.as_path().map(|p| esc(p.as_bytes())));
    for (name, p) in [("vars", &c.variables), ("query", &c.query)] {
        let mut v: Vec<String> = p.iter().map(|(k, v)| format!("{}={}", esc(k.as_bytes()), esc(v.as_bytes()))).collect();
        v.sort();
        let _ = write!(s, "{}={:?} ", name, v);
    }
    let _ = write!(s, "frag={:?} ", c.fragment.as_ref().map(|f| esc(f.as_bytes())));
    let mut l: Vec<String> = c.hyperlinks.iter().map(|l| format!("{:?}", l)).collect();
    l.sort();
    let _ = write!(s, "links={:?} ", l);
    let mut h: Vec<String> = c.headers.iter().map(|h| format!("{:?}", h.to_string())).collect();
    h.sort();
    let _ = write!(s, "headers={:?} global={:?}", h, c.global.get::<Arc<String>>());
    s
}

pub struct H(pub &'static str);
impl Handler for H {
    fn handle(&self, mut c: Context, mut r: Response) {
        sched::point(1);
        let mut text = format!("[{}] {}", self.0, dump(&mut c));
        // what filters noted about this request
        {
            let st = r.filter_storage();
            let _ = write!(text, " note={:?}", st.get::<Note>());
        }
        sched::point(2);
        match self.0 {
            "form" => {
                let q = c.body.read_query_body();
                let mut v: Vec<String> = q.map(|q| q.iter().map(|(k, v)| format!("{}={}", esc(k.as_bytes()), esc(v.as_bytes()))).collect()).unwrap_or_else(|e| vec![e.to_string()]);
                v.sort();
                let _ = write!(text, " body={:?}", v);
                r.send(text)
            }
            "part" => {
                let mut b = vec![];
                let n = (&mut c.body).take(5).read_to_end(&mut b).unwrap_or(99);
                let _ = write!(text, " body={:?} {}", b, n);
                r.send(text)
            }
            "chunk" => {
                let mut ch = r.into_chunked();
                ch.send(&text[..10]);
                sched::point(3);
                ch.send(&text[10..]);
                sched::point(4);
                let _ = ch.end();
            }
            "raw" => {
                let mut raw = unsafe { r.into_raw(text.len() as u64) };
                raw.send(&text[..10]);
                sched::point(3);
                raw.send(&text[10..]);
            }
            "set" => {
                r.set_status(StatusCode::ImATeapot);
                r.headers_mut().set_raw("X-Set", vec![b"set".to_vec()]);
                r.headers_mut().set_raw("Server", vec![b"mine".to_vec()]);
                r.headers_mut().remove::<rustful::header::ContentType>();
                r.filter_storage_mut().get_mut::<Note>().map(|n| n.id.push_str("+set"));
                sched::point(3);
                r.send(text)
            }
            "file" => {
                let f = FILE.get().unwrap();
                let _ = r.send_file_with_mime(f, rustful::file::ext_to_mime).is_ok();
            }
            "missing" => {
                let _ = r.send_file_with_mime("/nonexistent/file.txt", rustful::file::ext_to_mime).map_err(|e| e.send_not_found("not there").is_ok());
            }
            // a body would be sent to a HEAD request too: a known finding of C11
            "head" => r.headers_mut().set_raw("X-Head", vec![format!("{:x}", crate::hash64(&text)).into_bytes()]),
            "panic" => panic!("scripted handler panic"),
            "late" => {
                let mut ch = r.into_chunked();
                ch.send("partial");
                panic!("scripted handler panic")
            }
            _ => r.send(text),
        }
    }
}
pub static FILE: std::sync::OnceLock<String> = std::sync::OnceLock::new();

#[derive(Debug, Default, Clone)]
struct Note {
    id: String,
    writes: usize,
}
struct CF;
impl ContextFilter for CF {
    fn modify(&self, fc: FilterContext, c: &mut Context) -> ContextAction {
        sched::point(5);
        let id = c.headers.get_raw("X-Id").map(|v| String::from_utf8_lossy(&v[0]).into_owned()).unwrap_or_default();
        let had = fc.storage.get::<Note>().is_some();
        fc.storage.insert(Note { id: format!("{}{}", id, if had { "(had one)" } else { "" }), writes: 0 });
        c.headers.set_raw("X-Filtered", vec![id.clone().into_bytes()]);
        match &id[..] {
            "r11" => ContextAction::abort(StatusCode::PaymentRequired),
            "r24" => panic!("scripted filter panic"),
            _ => ContextAction::next(),
        }
    }
}
struct RF;
impl ResponseFilter for RF {
    fn begin(&self, fc: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        sched::point(6);
        let id = fc.storage.get::<Note>().map(|n| n.id.clone()).unwrap_or_else(|| "none".into());
        h.set_raw("X-Noted", vec![id.clone().into_bytes()]);
        if id == "r27" || id == "r28" {
            // held back, since a later step refuses the response
            return (s, ResponseAction::next(Some(format!("held from {}", id))));
        }
        if id == "r1" {
            return (StatusCode::NonAuthoritativeInformation, ResponseAction::next(Some("<")));
        }
        (s, ResponseAction::next(None::<&str>))
    }
    fn write<'a>(&'a self, fc: FilterContext, c: Option<Data<'a>>) -> ResponseAction {
        sched::point(7);
        if let Some(n) = fc.storage.get_mut::<Note>() {
            n.writes += 1;
            if n.id == "r17" {
                return ResponseAction::silent_abort();
            }
            if n.id == "r27" && c.is_some() {
                return ResponseAction::abort("refused".to_string());
            }
        }
        ResponseAction::next(c)
    }
    fn end(&self, fc: FilterContext) -> ResponseAction {
        let n = fc.storage.get::<Note>().cloned().unwrap_or_default();
        if n.id == "r12" {
            return ResponseAction::next(None::<&str>);
        }
        if n.id == "r28" {
            return ResponseAction::abort("refused at the end".to_string());
        }
        ResponseAction::next(Some(format!("|{} {}", n.id, n.writes)))
    }
}

pub type Inst = ServerInstance<DefaultRouter<H>>;
pub fn build(filters: bool) -> Inst {
    config(filters).build()
}
pub fn config(filters: bool) -> Server<DefaultRouter<H>> {
    let mut r = DefaultRouter::<H>::new();
    r.find_hyperlinks = true;
    let get = |r: &mut DefaultRouter<H>, p: &str, n: &'static str| {
        r.build().path(p).then().on_get(H(n));
    };
    get(&mut r, "a", "a");
    r.build().path("a").then().on_head(H("head"));
    r.build().path("a").then().on_post(H("post"));
    r.build().path("v/:p1/:p2").then().on_get(H("vars"));
    r.build().path("v/:only/:other").then().on_post(H("vars-post"));
    get(&mut r, "v/:single", "single");
    get(&mut r, "s/*rest", "seq");
    r.build().path("form").then().on_post(H("form"));
    r.build().path("part").then().on_post(H("part"));
    get(&mut r, "", "root");
    for n in ["chunk", "raw", "set", "file", "stop", "panic", "late", "missing"] {
        get(&mut r, n, n);
    }
    let mut s: Server<_> = srv::config(r);
    s.global = Box::new(Arc::new("global".to_string())).into();
    s.context_filters.push(Box::new(CF));
    if filters {
        s.response_filters.push(Box::new(RF));
    }
    s
}

/// The output of a connection without its dates, and how it went on.
pub fn undated(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut rest = b;
    while let Some(i) = rest.windows(8).position(|w| w == b"\r\nDate: ") {
        out.extend_from_slice(&rest[..i]);
        let r = &rest[i + 2..];
        let j = r.windows(2).position(|w| w == b"\r\n").unwrap_or(r.len());
        rest = &r[j..];
    }
    out.extend_from_slice(rest);
    out
}

