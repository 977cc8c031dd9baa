//! Server instances run in memory.
use crate::wire::{self, MemIn, MemOut, Resp, Served};
use rustful::handler::HandleRequest;
use rustful::server::ServerInstance;
use rustful::Server;

pub fn config<R: HandleRequest>(router: R) -> Server<R> {
    Server {
        handlers: router,
        threads: Some(8),
        host: 8080.into(),
        keep_alive: None,
        server: "mc".into(),
        content_type: rustful::mime::Mime(rustful::mime::TopLevel::Text, rustful::mime::SubLevel::Plain, vec![]),
        global: Default::default(),
        context_filters: vec![],
        response_filters: vec![],
    }
}

pub fn instance<R: HandleRequest>(router: R) -> ServerInstance<R> {
    config(router).build()
}

/// Serve one connection with this input; returns everything sent and how it ended.
pub fn talk<R: HandleRequest>(inst: &ServerInstance<R>, input: &[u8]) -> (Vec<u8>, Served) {
    talk_with(inst, MemIn::new(input), true)
}

pub fn talk_with<R: HandleRequest>(inst: &ServerInstance<R>, mut rd: MemIn, keep: bool) -> (Vec<u8>, Served) {
    let mut out = MemOut::new();
    let s = wire::serve(inst, &mut rd, &mut out, keep);
    let b = out.bytes();
    (b, s)
}

/// One request, one response.
pub fn ask<R: HandleRequest>(inst: &ServerInstance<R>, input: &[u8]) -> Result<Resp, String> {
    let (out, served) = talk(inst, input);
    let head = input.starts_with(b"HEAD ");
    let mut v = wire::parse_all(&out, &[head]).map_err(|e| format!("{} [{:?}] in {:?}", e, served, crate::gen::esc(&out)))?;
    Ok(v.pop().unwrap())
}
