//! C26: content, content types and errors say what they hold.
use mc::gen::*;
use mc::*;
use rustful::mime::{Attr, Mime, SubLevel, TopLevel, Value};
use rustful::response::{Data, Error, FileError, ResponseError};
use rustful::{content_type, Response, StatusCode};
use std::borrow::Cow;
use std::error::Error as StdError;
use std::io;

/// Every way to make content of the same bytes.
fn spellings<'a>(b: &'a [u8]) -> Vec<(&'static str, Data<'a>)> {
    let mut v: Vec<(&'static str, Data<'a>)> = vec![
        ("Vec", b.to_vec().into()),
        ("&[u8]", b.into()),
        ("Bytes(Owned)", Data::Bytes(Cow::Owned(b.to_vec()))),
        ("Bytes(Borrowed)", Data::Bytes(Cow::Borrowed(b))),
    ];
    if let Ok(s) = std::str::from_utf8(b) {
        v.push(("String", s.to_string().into()));
        v.push(("&str", s.into()));
        v.push(("String(Owned)", Data::String(Cow::Owned(s.to_string()))));
        v.push(("String(Borrowed)", Data::String(Cow::Borrowed(s))));
    }
    v
}

fn data(sh: &mut Shard, b: &[u8]) {
    let text = std::str::from_utf8(b);
    for (how, d) in spellings(b) {
        sh.add_states(1);
        sh.trans(6);
        sh.trace();
        let r = catch(|| {
            if d.as_bytes() != b || d.clone().as_bytes() != b {
                return Err("as_bytes");
            }
            if d.clone().into_bytes() != b {
                return Err("into_bytes");
            }
            match (d.as_string(), text) {
                (Ok(s), Ok(t)) if s == t => {}
                (Err(e), Err(f)) if e.valid_up_to() == f.valid_up_to() => {}
                _ => return Err("as_string"),
            }
            match (d.clone().into_string(), text) {
                (Ok(s), Ok(t)) if s == t => {}
                (Err(e), Err(_)) if e.as_bytes() == b => {}
                _ => return Err("into_string"),
            }
            // reading it must not have changed it
            if d.into_bytes() != b {
                return Err("changed");
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => sh.violation(&format!("data:{}", e), format!("{} of {}: {}", how, esc(b), e)),
            Err(e) => sh.violation("data:panic", format!("{} of {}: {}", how, esc(b), e)),
        }
    }
}

fn top(s: &str) -> TopLevel {
    use rustful::mime::TopLevel::*;
    [Star, Text, Image, Audio, Video, Application, Multipart, Message, Model].iter().find(|t| t.as_str() == s).cloned().unwrap_or_else(|| Ext(s.into()))
}
fn sub(s: &str) -> SubLevel {
    use rustful::mime::SubLevel::*;
    [Star, Plain, Html, Xml, Javascript, Css, EventStream, Json, WwwFormUrlEncoded, Msgpack, OctetStream, FormData, Png, Gif, Bmp, Jpeg, Mpeg, Mp4, Ogg]
        .iter()
        .find(|t| t.as_str() == s)
        .cloned()
        .unwrap_or_else(|| Ext(s.into()))
}
fn attr(s: &str) -> Attr {
    use rustful::mime::Attr::*;
    [Charset, Boundary, Q].iter().find(|t| t.as_str() == s).cloned().unwrap_or_else(|| Ext(s.into()))
}
fn value(s: &str) -> Value {
    use rustful::mime::Value::*;
    if s == "utf-8" {
        Utf8
    } else {
        Ext(s.into())
    }
}

/// Equal, and built of the same variants.
fn judge(sh: &mut Shard, what: &str, got: std::result::Result<Mime, String>, want: &Mime) {
    sh.add_states(1);
    sh.trans(1);
    sh.trace();
    match got {
        Ok(ref g) if g == want && format!("{:?}", g) == format!("{:?}", want) => {}
        Ok(g) => sh.violation("type", format!("{} gives {:?} instead of {:?}", what, g, want)),
        Err(e) => sh.violation("type:panic", format!("{}: {}", what, e)),
    }
}

macro_rules! with_subs {
    ($sh:expr, $($t:ident)*) => { $( with_sub!($sh, $t, Star Plain Html Xml Javascript Css EventStream Json WwwFormUrlEncoded Msgpack OctetStream FormData Png Gif Bmp Jpeg Mpeg Mp4 Ogg); )* };
}
macro_rules! with_sub {
    ($sh:expr, $t:ident, $($s:ident)*) => { $( one_type!($sh, $t, $s); )* };
}
macro_rules! one_type {
    ($sh:expr, $t:ident, $s:ident) => {{
        let name = concat!(stringify!($t), " / ", stringify!($s));
        let ts = TopLevel::$t.as_str().to_string();
        let ss = SubLevel::$s.as_str().to_string();
        let (ts, ss) = (&ts[..], &ss[..]);
        let plain = Mime(TopLevel::$t, SubLevel::$s, vec![]);
        judge($sh, name, catch(|| content_type!($t / $s)), &plain);
        judge($sh, &format!("{} (sub text)", name), catch(|| content_type!($t / ss)), &plain);
        judge($sh, &format!("{} (top text)", name), catch(|| content_type!(ts / $s)), &plain);
        judge($sh, &format!("{} (texts)", name), catch(|| content_type!(ts / ss)), &plain);
        let p = |v: Vec<(Attr, Value)>| Mime(TopLevel::$t, SubLevel::$s, v);
        judge($sh, &format!("{}; Charset = Utf8", name), catch(|| content_type!($t / $s; Charset = Utf8)), &p(vec![(Attr::Charset, Value::Utf8)]));
        judge($sh, &format!("{}; Boundary = \"b\"", name), catch(|| content_type!($t / $s; Boundary = "b")), &p(vec![(Attr::Boundary, Value::Ext("b".into()))]));
        judge($sh, &format!("{}; \"q\" = \"1\"; Q = \"2\"", name), catch(|| content_type!($t / $s; "q" = "1"; Q = "2")), &p(vec![(Attr::Q, Value::Ext("1".into())), (Attr::Q, Value::Ext("2".into()))]));
        judge(
            $sh,
            &format!("{}; four parameters", name),
            catch(|| content_type!(ts / ss; "b" = "1"; "a" = "utf-8"; Charset = "x"; Boundary = Utf8)),
            &p(vec![(Attr::Ext("b".into()), Value::Ext("1".into())), (Attr::Ext("a".into()), Value::Utf8), (Attr::Charset, Value::Ext("x".into())), (Attr::Boundary, Value::Utf8)]),
        );
    }};
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Interrupted,
    io::ErrorKind::Unsupported,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];
const TEXTS: &[&str] = &["", "x", "filter error: x", "{}", "a\nb", "räksmörgås", "%s %d", "io error", "\0", "not found", "   ", "404"];

/// Every io::Error within bounds: by kind, with a text, by number.
fn io_errors() -> Vec<Box<dyn Fn() -> io::Error + Sync + Send>> {
    let mut v: Vec<Box<dyn Fn() -> io::Error + Sync + Send>> = vec![];
    for &k in KINDS {
        v.push(Box::new(move || io::Error::from(k)));
        for &t in TEXTS {
            v.push(Box::new(move || io::Error::new(k, t)));
        }
    }
    for n in 0..=140 {
        v.push(Box::new(move || io::Error::from_raw_os_error(n)));
    }
    v
}

/// Two errors are the same if nothing tells them apart.
fn same(a: &io::Error, b: &io::Error) -> bool {
    a.kind() == b.kind() && a.to_string() == b.to_string() && a.raw_os_error() == b.raw_os_error() && a.get_ref().is_some() == b.get_ref().is_some()
}

#[allow(deprecated)]
fn io_error(sh: &mut Shard, make: &dyn Fn() -> io::Error) {
    let want = make();
    let global = Default::default();
    let checks = catch(|| -> Vec<(&'static str, bool)> {
        let mut r = vec![];
        // a failure of the transport
        let e: Error = make().into();
        r.push(("From<io::Error>", match e {
            Error::Io(ref e) => same(e, &want),
            Error::Filter(_) => false,
        }));
        r.push(("display", e.to_string().contains(&want.to_string())));
        r.push(("debug", format!("{:?}", e).contains(&format!("{:?}", want))));
        r.push(("description", e.description() == want.description()));
        r.push(("cause", StdError::cause(&e).map(|c| c.to_string()) == Some(want.to_string())));
        e.handle();
        // files
        let open = || FileError::Open(make(), prepared(&global));
        let send = || FileError::Send(make());
        for (is_open, e) in vec![(true, open()), (false, send())] {
            r.push(("file display", e.to_string().contains(&want.to_string())));
            r.push(("file debug", format!("{:?}", e).contains(&format!("{:?}", want))));
            r.push(("file description", e.description() == want.description()));
            r.push(("file cause", StdError::cause(&e).map(|c| c.to_string()) == Some(want.to_string())));
            let e: io::Error = e.into();
            r.push((if is_open { "open error as io::Error" } else { "send error as io::Error" }, same(&e, &want)));
        }
        // what the helpers hand back
        r.push(("recover open", match open().recover_response() {
            Ok(response) => untouched(&response),
            Err(_) => false,
        }));
        r.push(("recover send", match send().recover_response() {
            Err(FileError::Send(e)) => same(&e, &want),
            _ => false,
        }));
        r.push(("ignore open", match open().ignore_send_error() {
            Err((e, response)) => same(&e, &want) && untouched(&response),
            Ok(()) => false,
        }));
        r.push(("ignore send", send().ignore_send_error().is_ok()));
        r.push(("not found open", match open().send_not_found("gone") {
            Ok(()) => want.kind() == io::ErrorKind::NotFound,
            Err(FileError::Open(e, response)) => want.kind() != io::ErrorKind::NotFound && same(&e, &want) && untouched(&response),
            Err(_) => false,
        }));
        r.push(("not found send", match send().send_not_found("gone") {
            Err(FileError::Send(e)) => same(&e, &want),
            _ => false,
        }));
        open().handle();
        send().handle();
        r
    });
    sh.add_states(1);
    sh.trace();
    match checks {
        Ok(v) => {
            sh.trans(v.len() as u64);
            for (what, ok) in v {
                if !ok {
                    sh.violation(&format!("io:{}", what), format!("{}: {:?}", what, want));
                }
            }
        }
        Err(e) => sh.violation("io:panic", format!("{:?}: {}", want, e)),
    }
}

fn prepared<'g>(global: &'g rustful::server::Global) -> Response<'static, 'g> {
    let mut r = Response::mock(global);
    r.set_status(StatusCode::Accepted);
    r.headers_mut().set_raw("x-h", vec![b"v".to_vec()]);
    r.filter_storage_mut().insert(7u8);
    r
}
fn untouched(r: &Response) -> bool {
    r.status() == StatusCode::Accepted && r.headers().len() == 1 && r.headers().get_raw("x-h").map(|v| v == &[b"v".to_vec()][..]) == Some(true) && r.filter_storage().get::<u8>() == Some(&7)
}

#[allow(deprecated)]
fn filter_error(sh: &mut Shard, text: &str) {
    sh.add_states(1);
    sh.trace();
    sh.trans(5);
    let r = catch(|| {
        let e = Error::Filter(text.to_string());
        let mut r = vec![
            ("display", e.to_string().contains(text)),
            ("debug", format!("{:?}", e).contains(&format!("{:?}", text))),
            ("description", e.description() == text),
            ("cause", StdError::cause(&e).is_none()),
        ];
        // as seen through io::Write (which has only io::Error to report it)
        let io = io::Error::new(io::ErrorKind::Other, e);
        r.push(("inside io::Error", io.to_string().contains(text)));
        Error::Filter(text.to_string()).handle();
        r
    });
    match r {
        Ok(v) => {
            for (what, ok) in v {
                if !ok {
                    sh.violation(&format!("filter:{}", what), format!("{}: {:?}", what, text));
                }
            }
        }
        Err(e) => sh.violation("filter:panic", format!("{:?}: {}", text, e)),
    }
}

fn main() {
    check_main(
        "C26",
        Level::ModelChecking,
        "every byte string up to a length as content of every kind and in every view; every content type over the known words, and texts, as written with the macro; every error by kind, text and number in every view and through every helper",
        |ctx| {
            ctx.assume("content is made of text or bytes; a NotUtf8 or invalid String made by unsafe code is outside the contract");
            // content
            let frags: Vec<&[u8]> = vec![b"a", b"/", b"\0", b"\x7f", b"\x80", b"\xc3", b"\xa5", b"\xe2\x82", b"\xac", b"\xf0\x9f", b"\x98\x80", b"\xff", b"\xed\xa0\x80", b"\xc0\xaf", b"\xef\xbb\xbf"];
            let n = ctx.pick(4, 6);
            ctx.par("data", strings_upto(frags.len(), n), |i, sh| {
                let b: Vec<u8> = string_at(frags.len(), i).iter().flat_map(|&k| frags[k].iter().cloned()).collect();
                data(sh, &b);
            });
            ctx.par("data-bytes", 256 * 257, |i, sh| {
                let b: Vec<u8> = if i < 256 { vec![i as u8] } else { vec![((i - 256) / 256) as u8, (i % 256) as u8] };
                data(sh, &b);
            });
            let mut lens: Vec<usize> = (0..300).collect();
            for p in [512usize, 1000, 1024, 4096, 8192, 16384, 32768, 65536, 100000, 1 << 20] {
                lens.extend([p - 1, p, p + 1]);
            }
            ctx.par("data-sizes", lens.len() * 4, |i, sh| {
                let l = lens[i / 4];
                let mut b: Vec<u8> = (0..l).map(|k| b'a' + (k % 26) as u8).collect();
                match i % 4 {
                    0 => {}
                    1 => b.push(0xff),
                    2 => b.extend("å".as_bytes()),
                    _ => {
                        b.insert(0, 0xc3);
                    }
                }
                data(sh, &b);
            });
            // what the code mentions
            let forms = dict::forms();
            ctx.par("data-words", forms.len() * 4, |i, sh| {
                let w = &forms[i / 4];
                data(sh, &[w.clone(), [w, &b"\xff"[..]].concat(), [b"\xc3", &w[..]].concat(), [w, &b"\xe2\x82"[..], &w[..]].concat()][i % 4]);
            });
            let near: Vec<usize> = dict::numbers().iter().filter(|&&n| n <= 1 << 22).flat_map(|&n| vec![n.saturating_sub(1), n, n + 1]).collect();
            ctx.par("data-counts", near.len() * 2, |i, sh| {
                let mut b = vec![b'a'; near[i / 2]];
                if i % 2 == 1 {
                    b.push(0xff);
                }
                data(sh, &b);
            });
            // content types
            ctx.seq("types", 1, |_, sh| {
                with_subs!(sh, Star Text Image Audio Video Application Multipart Message Model);
                // what is written as a literal
                judge(sh, "literals", catch(|| content_type!("text" / "html"; "charset" = "utf-8")), &Mime(TopLevel::Text, SubLevel::Html, vec![(Attr::Charset, Value::Utf8)]));
                judge(sh, "own words", catch(|| content_type!("x-a" / "x-b"; "x-c" = "x-d"; "x-c" = "x-d")), &Mime(TopLevel::Ext("x-a".into()), SubLevel::Ext("x-b".into()), vec![(Attr::Ext("x-c".into()), Value::Ext("x-d".into())); 2]));
            });
            let words: Vec<&str> = vec![
                "", "*", "text", "image", "audio", "video", "application", "multipart", "message", "model", "plain", "html", "xml", "javascript", "css", "event-stream", "json", "x-www-form-urlencoded", "msgpack", "octet-stream", "form-data", "png", "gif",
                "bmp", "jpeg", "mpeg", "mp4", "ogg", "charset", "boundary", "q", "utf-8", "UTF-8", "utf8", "Text", "HTML", "svg+xml", "vnd.a-b.c", "a b", "a;b=c", "a/b", "\"", "å", "text ", " text", "0.5", "type", "name", "ext", "star",
            ];
            let w = words.len();
            ctx.par("type-texts", w * w, |i, sh| {
                let (t, s) = (words[i / w], words[i % w]);
                judge(sh, &format!("{:?} / {:?}", t, s), catch(|| content_type!(t / s)), &Mime(top(t), sub(s), vec![]));
                for &v in &words {
                    judge(sh, &format!("{:?} / {:?}; {:?} = {:?}", t, s, s, v), catch(|| content_type!(t / s; s = v)), &Mime(top(t), sub(s), vec![(attr(s), value(v))]));
                    judge(
                        sh,
                        &format!("{:?} / Plain; {:?} = {:?}; {:?} = {:?}", t, s, v, v, t),
                        catch(|| content_type!(t / Plain; s = v; v = t)),
                        &Mime(top(t), SubLevel::Plain, vec![(attr(s), value(v)), (attr(v), value(t))]),
                    );
                }
            });
            let told = dict::texts();
            ctx.par("type-words", told.len() * w, |i, sh| {
                let (d, v) = (&told[i / w][..], words[i % w]);
                judge(sh, &format!("{:?} / {:?}", d, v), catch(|| content_type!(d / v)), &Mime(top(d), sub(v), vec![]));
                judge(sh, &format!("{:?} / {:?}; {:?} = {:?}", v, d, d, v), catch(|| content_type!(v / d; d = v)), &Mime(top(v), sub(d), vec![(attr(d), value(v))]));
                judge(sh, &format!("Text / {:?}; {:?} = {:?}; {:?} = {:?}", d, v, d, d, d), catch(|| content_type!(Text / d; v = d; d = d)), &Mime(TopLevel::Text, sub(d), vec![(attr(v), value(d)), (attr(d), value(d))]));
            });
            // errors
            let all = io_errors();
            ctx.par("io-errors", all.len(), |i, sh| io_error(sh, &*all[i]));
            let chars: Vec<char> = "ab{}%\"\\\n\0 å".chars().collect();
            let n = ctx.pick(4, 5);
            ctx.par("filter-errors", strings_upto(chars.len(), n), |i, sh| {
                let t: String = string_at(chars.len(), i).iter().map(|&k| chars[k]).collect();
                filter_error(sh, &t);
            });
            ctx.par("filter-texts", TEXTS.len() + lens.len(), |i, sh| {
                if i < TEXTS.len() {
                    filter_error(sh, TEXTS[i]);
                } else {
                    filter_error(sh, &"x".repeat(lens[i - TEXTS.len()]));
                }
            });
            ctx.par("error-words", told.len(), |i, sh| {
                filter_error(sh, &told[i]);
                for &k in KINDS {
                    io_error(sh, &|| io::Error::new(k, &told[i][..]));
                }
            });
        },
    )
}
