//! Driving a composition of routers and judging what it does.
use crate::compose::*;
use crate::routes::*;
use crate::*;
use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
use rustful::handler::{BuilderContext, FromHandler};
use rustful::server::Global;
use rustful::{Context, StatusCode};


pub fn direct(sh: &mut Shard, t: &T) {
    DEEP.with(|d| d.set(true));
    let mut t = t.clone();
    number(&mut t, &mut 1);
    direct_from(sh, &t, &Start::default());
}

/// Start anywhere: after other routers, with what they and the filters have left.
pub fn everywhere(sh: &mut Shard, t: &T) {
    DEEP.with(|d| d.set(true));
    let mut t = t.clone();
    number(&mut t, &mut 1);
    for s in starts() {
        direct_from(sh, &t, &s);
    }
}

pub fn direct_from(sh: &mut Shard, t: &T, start: &Start) {
    direct_with(sh, t, start, &REQS)
}

pub fn direct_with(sh: &mut Shard, t: &T, start: &Start, reqs: &[(&str, &str)]) {
    let r = Any::from_handler(start.builder_context(), t);
    sh.add_states(1);
    let global = Global::default();
    for &(m, p) in reqs {
        let want = expected_from(t, m, p, start);
        let path = if start.passed.is_some() { format!("/p{}", p) } else { p.to_string() };
        if start.passed.is_some() && segments(p.as_bytes()).len() != segments(path.as_bytes()).len() - 1 {
            continue;
        }
        let mut h = rustful::header::Headers::new();
        h.set_raw("x-probe", vec![b"1".to_vec()]);
        let mut c = Context::mock(m.parse().unwrap(), p, h, &global);
        c.query.insert("k", "v");
        c.fragment = Some("f".to_string().into());
        c.http_version = rustful::HttpVersion::Http10;
        c.address = "10.1.2.3:4567".parse().unwrap();
        let before = observe(0, &c, StatusCode::Ok);
        if start.set {
            c.variables.insert("pre", "set");
            c.hyperlinks.push(Link { method: None, path: vec![LinkSegment { label: "old".into(), ty: SegmentType::Static }], handler: None });
        }
        let o = drive_from(&r, &global, c, path.as_bytes(), StatusCode::from_u16(start.status.unwrap_or(200)), start.passed.is_some() as usize, start.passed == Some(true));
        sh.trans(1);
        sh.trace();
        let key = if o.ran.len() > 1 {
            Some("several-handlers")
        } else if let Some(ran) = o.ran.first() {
            if !want.iter().any(|w| fits(ran, w)) {
                Some(match want.iter().find(|w| matches!(w, Res::Handled { id, .. } if *id == ran.id)) {
                    Some(Res::Handled { status, .. }) if *status != ran.status => "status-seen",
                    Some(Res::Handled { vars, .. }) if !vars_ok(vars, &ran.vars) => "variables-left",
                    Some(_) => "links-left",
                    None => "wrong-handler",
                })
            } else if (&ran.method, &ran.path, &ran.query, &ran.fragment, &ran.headers, &ran.client) != (&before.method, &before.path, &before.query, &before.fragment, &before.headers, &before.client) {
                Some("request-changed")
            } else {
                None
            }
        } else if !want.iter().any(|w| *w == Res::Rejected(o.rejected.unwrap_or(0))) {
            Some(if want.iter().any(|w| matches!(w, Res::Rejected(_))) { "rejection-status" } else { "not-handled" })
        } else if !o.intact {
            Some("environment-not-given-back")
        } else {
            None
        };
        if let Some(k) = key {
            sh.violation(k, format!("router {:?} started with {:?}\nrequest {} {}\nexpected one of {:?}\ngot {:?}", t, start, m, p, want, o));
        }
        if want.len() == 1 && o.ran.iter().any(|r| r.status == 405) {
            sh.sample(|| format!("{:?}: {} {} -> {:?}", t, m, p, want));
        }
    }
}

pub fn server(sh: &mut Shard, t: &T) {
    DEEP.with(|d| d.set(true));
    let mut t = t.clone();
    number(&mut t, &mut 1);
    let inst = srv::instance(Any::from_handler(BuilderContext::new(), &t));
    sh.add_states(1);
    for &(m, p) in &REQS {
        let want = expected(&t, m, p);
        let req = format!("{} {}?k=v HTTP/1.1\r\nHost: h\r\nX-Probe: 1\r\nContent-Length: 4\r\n\r\nbody", m, p);
        RAN.with(|v| v.borrow_mut().clear());
        BODY.with(|v| v.borrow_mut().clear());
        let got = srv::ask(&inst, req.as_bytes());
        let ran = RAN.with(|v| std::mem::take(&mut *v.borrow_mut()));
        sh.trans(1);
        sh.trace();
        let ok = match got {
            Err(_) => false,
            Ok(ref r) => {
                if let Some(x) = ran.first() {
                    ran.len() == 1
                        && want.iter().any(|w| fits(x, w))
                        && r.status == x.status
                        && r.body == format!("h{}", x.id).into_bytes()
                        && BODY.with(|v| *v.borrow() == b"body")
                        && x.method == m
                        && x.path == Some(p.as_bytes().to_vec())
                        && x.query == vec![(b"k".to_vec(), b"v".to_vec())]
                        && x.headers.contains("X-Probe: 1")
                        && x.client == format!("HTTP/1.1 {}", wire::peer())
                } else {
                    r.body.is_empty() && want.iter().any(|w| matches!(*w, Res::Rejected(s) if r.status == if s == 200 { 404 } else { s }))
                }
            }
        };
        if !ok {
            sh.violation("server", format!("router {:?}\nrequest {:?}\nexpected one of {:?}\ngot {:?}\nhandlers {:?}, body read {:?}", t, req, want, got, ran, BODY.with(|v| v.borrow().clone())));
        }
    }
}
