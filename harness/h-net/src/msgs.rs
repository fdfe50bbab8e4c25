//! P36: what nodes say to each other arrives, where it was meant to, as it was said.
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use bytes::{Bytes, BytesMut};
use common_apm::tracing::AxonTracer;
use core_network::{NetworkConfig, NetworkContext};
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res};
use protocol::traits::{Context, Gossip, Priority, Rpc};
use tentacle::secio::PeerId;
use tentacle::service::SessionType;
use tentacle::{ProtocolId, SessionId};
use tokio::time::Instant;

use crate::world::*;

type Trace = (u64, u64, u64);

fn config(i: usize, dir: &std::path::Path) -> NetworkConfig {
    let mut c = NetworkConfig::new().chain_id(5).peer_store_dir(dir.join(i.to_string()));
    c.secio_keypair = key(i);
    c
}

fn world(n: usize, dir: &std::path::Path) -> World {
    World::new((0..n).map(|i| Node::new(config(i, dir), key(i), addr(&format!("8.1.{i}.1"), 1000 + i as u16, &key(i).peer_id()))).collect())
}

/// A message on its way to a handler.
struct Exp {
    node: usize,
    sid: usize,
    end: &'static str,
    from: PeerId,
    data: Bytes,
    /// Not checked when `None`.
    trace: Option<Option<Trace>>,
    done: bool,
    lost: bool,
}

struct Call {
    node: usize,
    sid: usize,
    rid: u64,
    deadline: Instant,
    /// What the other side answers, in order.
    answers: Vec<Result<Bytes, String>>,
    /// The answer that arrived in time.
    got: Option<Result<Bytes, Option<String>>>,
    result: Arc<Mutex<Option<Result<Bytes, String>>>>,
    unknown: bool,
}

struct Case {
    w: World,
    exps: Vec<Exp>,
    calls: Vec<Call>,
    asked: Vec<(usize, Recv)>,
    count: u8,
    out: Option<Outsider>,
    frames: Vec<(usize, BytesMut)>,
}

struct Outsider {
    sid: usize,
    id: PeerId,
}

fn arg(g: &mut Gen, count: &mut u8) -> Bytes {
    *count = (*count + 1) % 200;
    let mut v = vec![*count, 0xaa];
    match g.weighted(&[8, 3, 2, 1, 1, 1]) {
        0 => v.extend(g.bytes(40)),
        1 => {
            let n = g.usize(1015, 1030);
            let b = g.byte();
            v.extend((0..n).map(|i| b.wrapping_mul(i as u8)));
        }
        2 => {
            let n = g.usize(1000, 6000);
            v.extend(g.entropy(n));
        }
        3 => {
            let n = g.usize(60_000, 150_000);
            v.extend(g.entropy(64).into_iter().cycle().take(n));
        }
        4 => v.extend(vec![0u8; g.usize(1000, 70_000)]),
        _ => v.insert(0, 0xff),
    }
    Bytes::from(v)
}

fn trace(g: &mut Gen) -> Option<Trace> {
    match g.below(4) {
        0 => Some((g.u64(), g.u64(), g.u64())),
        1 => Some((0, g.u64(), g.u64())),
        _ => None,
    }
}

fn context(t: Option<Trace>) -> Context {
    match t {
        None => Context::new(),
        Some((high, low, span)) => {
            AxonTracer::inject_span_state(Context::new(), AxonTracer::new_state(common_apm::TraceId { high, low }, span))
        }
    }
}

fn prio(g: &mut Gen) -> Priority {
    if g.bool() {
        Priority::High
    } else {
        Priority::Normal
    }
}

impl Case {
    fn open(&self, a: usize, sid: usize) -> bool {
        self.w.nodes[a].sessions.get(&sid).map_or(false, |s| s.open.contains(&TRANSMITTER))
    }

    fn expect(&mut self, a: usize, to: &[usize], end: &'static str, data: &Bytes, t: Option<Trace>) {
        if data.first() == Some(&0xff) {
            return;
        }
        for sid in to {
            if !self.open(a, *sid) {
                continue;
            }
            if let End::Node(node, sid) = self.w.nodes[a].sessions[sid].far {
                let from = self.w.nodes[a].id.clone();
                self.exps.push(Exp { node, sid, end, from, data: data.clone(), trace: Some(t), done: false, lost: false });
            }
        }
    }

    /// The one message node `a` just sent.
    fn sent(&mut self, a: usize, g: &mut Gen) -> Result<Sent, pbt::Stop> {
        let i = self.w.sent.iter().position(|(n, s)| *n == a && s.proto == TRANSMITTER);
        let Some(i) = i else { return Err(fail("nothing-sent", format!("node {a} sent nothing"))) };
        let (_, s) = self.w.sent.remove(i);
        let again = self.w.sent.iter().any(|(n, s)| *n == a && s.proto == TRANSMITTER);
        check!(!again, "sent-twice", "node {a} sent more than it was asked to");
        g.label_if(s.data.len() > 1024, "more than 1024 bytes");
        Ok(s)
    }

    fn settle_inbox(&mut self, g: &mut Gen) -> Res {
        for (i, n) in self.w.nodes.iter().enumerate() {
            let got = std::mem::take(&mut *n.inbox.lock().unwrap());
            for r in got {
                let e = self.exps.iter_mut().find(|e| {
                    !e.done && !e.lost && e.node == i && e.end == r.end && e.data == r.data && Some(e.sid) == r.session
                });
                match e {
                    Some(e) => {
                        e.done = true;
                        g.label("message received");
                        check!(r.peer.as_ref() == Some(&e.from), "wrong-peer", "node {i}: a message of {:?} is said to be from {:?}", e.from, r.peer);
                        if let Some(t) = &e.trace {
                            check_eq!(r.trace, *t, "trace", "node {i}: the trace a message carries");
                            g.label_if(t.is_some(), "message with a trace");
                        }
                    }
                    None => {
                        let o = self.out.as_ref().filter(|_| i == 0);
                        let ok = o.map_or(false, |o| r.session == Some(o.sid) && r.peer.as_ref() == Some(&o.id));
                        check!(ok, "unexpected-message", "node {i} received on {} from session {:?}, peer {:?}: {:?}, which nobody sent there", r.end, r.session, r.peer, r.data);
                    }
                }
                check_eq!(r.rpc.is_some(), r.end == CALL, "rpc-id", "node {i}: whether a message on {} can be answered", r.end);
                if r.end == CALL {
                    self.asked.push((i, r));
                }
            }
        }
        Ok(())
    }

    fn check_calls(&self, g: &mut Gen) -> Res {
        let now = Instant::now();
        for c in self.calls.iter().filter(|c| !c.unknown) {
            let r = c.result.lock().unwrap().clone();
            let what = format!("call {} of node {} on session {}", c.rid, c.node, c.sid);
            match (&c.got, now >= c.deadline) {
                (Some(Ok(v)), _) if v.first() == Some(&0xff) => {
                    check!(matches!(r, Some(Err(_))), "answer-undecodable", "{what}: an answer that does not decode gave {:?}", r)
                }
                (Some(Ok(v)), _) => {
                    check!(r == Some(Ok(v.clone())), "answer", "{what}: the answer was {:?}, the caller got {:?}", v, r);
                    g.label("call answered")
                }
                (Some(Err(e)), _) => {
                    let ok = matches!((&r, e), (Some(Err(x)), Some(e)) if x.contains(e)) || matches!((&r, e), (Some(Err(_)), None));
                    check!(ok, "answer-error", "{what}: the answer was the error {:?}, the caller got {:?}", e, r);
                    g.label("call answered with an error")
                }
                (None, false) => check!(r.is_none(), "answered-by-nobody", "{what} has no answer, but the caller got {:?}", r),
                (None, true) => {
                    check!(matches!(&r, Some(Err(e)) if e.to_lowercase().contains("timeout")), "no-timeout", "{what} got no answer in time; the caller got {:?}", r);
                    g.label("call timed out")
                }
            }
        }
        Ok(())
    }

    async fn deliver(&mut self, at: (usize, usize, usize)) {
        let frame = self.w.deliver(at).await;
        let (a, sid, proto) = at;
        if let (Some(frame), TRANSMITTER) = (frame, proto) {
            let far = self.w.nodes[a].sessions.get(&sid).map(|s| s.far);
            if let Some(End::Node(b, sb)) = far {
                self.frames.push((proto, frame.clone()));
                if let Ok(Some(data)) = self.w.nodes[b].parts.unframe(ProtocolId::new(proto), frame) {
                    self.arrived(b, sb, &data, None)
                }
            }
        }
    }

    /// An answer arrived at a node.
    fn arrived(&mut self, b: usize, sb: usize, data: &Bytes, content: Option<Result<Bytes, Option<String>>>) {
        let Ok(m) = <wire::Network as prost::Message>::decode(data.clone()) else { return };
        let Some(rid) = m.url.strip_prefix("/rpc_resp/t/c/").and_then(|r| r.parse::<u64>().ok()) else { return };
        let now = Instant::now();
        if let Some(c) = self.calls.iter_mut().find(|c| c.node == b && c.sid == sb && c.rid == rid) {
            let first = match content {
                Some(x) => Some(x),
                None => c.answers.first().cloned().map(|a| a.map_err(Some)),
            };
            if c.got.is_none() && now < c.deadline {
                c.got = first;
            }
        }
    }

    async fn deliver_all(&mut self) {
        loop {
            self.w.commands().await;
            let ws = self.w.waiting();
            if ws.is_empty() {
                return;
            }
            for x in ws {
                self.deliver(x).await;
            }
        }
    }

    async fn join(&mut self, a: usize, b: usize) {
        let (sa, _) = self.w.connect(a, b).await;
        self.w.open(a, sa, &[IDENTIFY]).await;
        self.w.commands().await;
    }

    fn linked(&self, a: usize, b: usize) -> Option<usize> {
        self.w.nodes[a].sessions.iter().find(|(_, s)| matches!(s.far, End::Node(x, _) if x == b)).map(|(s, _)| *s)
    }

    /// Sessions between nodes, from one side.
    fn links(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (a, n) in self.w.nodes.iter().enumerate() {
            v.extend(n.sessions.iter().filter(|(_, s)| matches!(s.far, End::Node(b, _) if a < b)).map(|(s, _)| (a, *s)));
        }
        v
    }

    async fn say(&mut self, g: &mut Gen) -> Res {
        let a = g.usize(0, self.w.nodes.len() - 1);
        let (end, url) = match g.below(7) {
            0 | 1 => (Some(GOSSIP_A), GOSSIP_A.to_owned()),
            2 | 3 => (Some(GOSSIP_B), GOSSIP_B.to_owned()),
            4 => (Some(GOSSIP_A), format!("{GOSSIP_A}/more")),
            5 => (None, "/gossip/t/nobody".to_owned()),
            _ => (None, (*g.pick(&["", "/gossip", "/rpc/t/a", "/gossip/a/b/c/d", "gossip/t/a"])).to_owned()),
        };
        let valid = url.starts_with("/gossip/t/");
        let data = arg(g, &mut self.count);
        let t = trace(g);
        let handle = self.w.nodes[a].handle.clone();
        let all: BTreeSet<usize> = self.w.nodes[a].sessions.keys().copied().collect();
        let p = prio(g);
        self.w.sent.clear();
        self.w.asked.clear();
        let cx = context(t);
        match g.below(3) {
            0 => {
                g.note(|| format!("node {a} broadcasts {} bytes on {url:?}", data.len()));
                let r = handle.broadcast(cx, &url, Msg(data.clone()), p).await;
                self.w.commands().await;
                check_eq!(r.is_ok(), valid, "endpoint", "a broadcast on {:?}: {:?}", url, r.err().map(|e| e.to_string()));
                if !valid {
                    return Ok(());
                }
                let s = self.sent(a, g)?;
                let to: BTreeSet<usize> = s.to.iter().copied().collect();
                check_eq!(to, all, "broadcast", "the sessions node {a} broadcasts to");
                check_eq!(s.to.len(), to.len(), "broadcast-twice", "node {a} broadcasts more than once to a session");
                if let Some(end) = end {
                    self.expect(a, &s.to, end, &data, t);
                }
                g.label("broadcast");
            }
            1 => {
                let origin = match g.below(3) {
                    0 => None,
                    1 if !all.is_empty() => Some(*g.pick(&all.iter().copied().collect::<Vec<_>>())),
                    _ => Some(g.usize(50, 60)),
                };
                g.note(|| format!("node {a} gossips {} bytes from {origin:?} on {url:?}", data.len()));
                let r = handle.gossip(cx, origin, &url, Msg(data.clone()), p).await;
                self.w.commands().await;
                check_eq!(r.is_ok(), valid, "endpoint", "gossip on {:?}: {:?}", url, r.err().map(|e| e.to_string()));
                if !valid {
                    return Ok(());
                }
                let s = self.sent(a, g)?;
                let others: Vec<bool> = s.asked.iter().filter(|(x, _)| Some(*x) != origin).map(|(_, y)| *y).collect();
                check!(s.to.iter().all(|x| Some(*x) != origin), "gossip-origin", "node {a} sends back to session {:?} what came from there", origin);
                check!(s.to.iter().all(|x| all.contains(x)), "gossip-session", "node {a} gossips to {:?}, its sessions are {:?}", s.to, all);
                check!(
                    others.windows(2).all(|w| w[0] || w[1]),
                    "gossip-few",
                    "node {a} leaves out two peers in a row: {:?}",
                    others
                );
                g.label_if(others.len() > 1, "gossip with a choice");
                if let Some(end) = end {
                    self.expect(a, &s.to, end, &data, t);
                }
            }
            _ => {
                let mut names: Vec<usize> = (0..self.w.nodes.len() + 1).filter(|_| g.bool()).collect();
                g.shuffle(&mut names);
                let bad = g.chance(1, 12);
                let mut ids: Vec<Bytes> = names.iter().map(|i| Bytes::from(key(*i).peer_id().into_bytes())).collect();
                if bad {
                    ids.push(Bytes::from(g.bytes(40)));
                }
                g.note(|| format!("node {a} multicasts {} bytes to {names:?} (bad id: {bad}) on {url:?}", data.len()));
                let r = handle.multicast(cx, &url, ids, Msg(data.clone()), p).await;
                let ok = r.is_ok();
                self.w.commands().await;
                check_eq!(ok, valid && !bad, "endpoint", "multicast on {:?} (bad id: {})", url, bad);
                if !ok {
                    check!(!self.w.sent.iter().any(|(n, s)| *n == a && s.proto == TRANSMITTER), "refused-but-sent", "a refused multicast was sent");
                    return Ok(());
                }
                let s = self.sent(a, g)?;
                let want: BTreeSet<usize> = names.iter().filter_map(|b| self.linked_before(a, *b, &all)).collect();
                let to: BTreeSet<usize> = s.to.iter().copied().collect();
                check_eq!(to, want, "multicast", "the sessions node {a} multicasts to, for {names:?}");
                check_eq!(s.to.len(), to.len(), "multicast-twice", "node {a} multicasts more than once to a session");
                for (n, x) in &self.w.asked {
                    if let Asked::Dial(d, _) = x {
                        let id = tentacle::utils::extract_peer_id(d);
                        let ok = names.iter().any(|i| Some(key(*i).peer_id()) == id);
                        check!(*n == a && ok, "dials-another", "node {n} dials {d}, the multicast was to {names:?}");
                        g.label("multicast dials a peer");
                    }
                }
                if let Some(end) = end {
                    self.expect(a, &s.to, end, &data, t);
                }
                g.label("multicast");
            }
        }
        Ok(())
    }

    fn linked_before(&self, a: usize, b: usize, all: &BTreeSet<usize>) -> Option<usize> {
        self.w.nodes[a]
            .sessions
            .iter()
            .find(|(s, x)| all.contains(s) && x.ctx.remote_pubkey.as_ref().map(|k| k.peer_id()) == Some(key(b).peer_id()))
            .map(|(s, _)| *s)
    }

    async fn call(&mut self, g: &mut Gen) -> Res {
        let a = g.usize(0, self.w.nodes.len() - 1);
        let sids: Vec<usize> = self.w.nodes[a].sessions.keys().copied().filter(|s| self.open(a, *s)).collect();
        if sids.is_empty() {
            return Ok(());
        }
        let sid = *g.pick(&sids);
        let data = arg(g, &mut self.count);
        let t = trace(g);
        let (handle, p) = (self.w.nodes[a].handle.clone(), prio(g));
        let result = Arc::new(Mutex::new(None));
        let (r, d) = (result.clone(), data.clone());
        let cx = context(t).set_session_id(SessionId::new(sid));
        g.note(|| format!("node {a} calls on session {sid} with {} bytes", data.len()));
        self.w.sent.clear();
        let deadline = Instant::now() + Duration::from_secs(10);
        tokio::spawn(async move {
            let x = handle.call::<Msg, Msg>(cx, CALL, Msg(d), p).await;
            *r.lock().unwrap() = Some(x.map(|m| m.0).map_err(|e| e.to_string()));
        });
        self.w.commands().await;
        let s = self.sent(a, g)?;
        check_eq!(s.to, vec![sid], "call-session", "the sessions a call of node {a} goes to");
        let m = <wire::Network as prost::Message>::decode(s.data.clone()).map_err(|e| fail("call-undecodable", e.to_string()))?;
        let Some(rid) = m.url.strip_prefix("/rpc_call/t/c/").and_then(|r| r.parse::<u64>().ok()) else {
            return Err(fail("call-url", format!("a call goes to {:?}", m.url)));
        };
        let fresh = !self.calls.iter().any(|c| c.node == a && c.rid == rid);
        check!(fresh, "call-id-twice", "node {a} numbered two calls {rid}");
        self.expect(a, &[sid], CALL, &data, t);
        let unknown = matches!(self.w.nodes[a].sessions[&sid].far, End::Outside);
        self.calls.push(Call { node: a, sid, rid, deadline, answers: vec![], got: None, result, unknown: false });
        g.label_if(unknown, "call to an outsider");
        Ok(())
    }

    async fn respond(&mut self, g: &mut Gen) -> Res {
        if self.asked.is_empty() {
            return Ok(());
        }
        let i = g.usize(0, self.asked.len() - 1);
        let (b, r) = &self.asked[i];
        let b = *b;
        let (sid, rid, cx) = (r.session.unwrap(), r.rpc.unwrap(), r.ctx.clone());
        let far = self.w.nodes[b].sessions.get(&sid).map(|s| s.far);
        let data = arg(g, &mut self.count);
        let answer = if g.chance(1, 4) { Err(format!("cannot do {}", self.count)) } else { Ok(data) };
        g.note(|| format!("node {b} answers call {rid} on session {sid}: {:?}", answer.as_ref().map(|d| d.len())));
        let p = prio(g);
        self.w.sent.clear();
        let ret = answer.clone().map(Msg).map_err(|e| trouble(&e));
        let out = self.w.nodes[b].handle.clone().response(cx, RESP, ret, p).await;
        check!(out.is_ok(), "respond", "an answer is refused: {:?}", out.err().map(|e| e.to_string()));
        self.w.commands().await;
        let s = self.sent(b, g)?;
        check_eq!(s.to, vec![sid], "answer-session", "the sessions an answer goes to");
        if let Some(End::Node(a, sa)) = far {
            if let Some(c) = self.calls.iter_mut().find(|c| c.node == a && c.sid == sa && c.rid == rid) {
                g.label_if(!c.answers.is_empty(), "call answered twice");
                c.answers.push(answer);
            }
        }
        if g.chance(2, 3) {
            self.asked.swap_remove(i);
        }
        Ok(())
    }

    /// A frame reaches another session than it was sent on, or once more.
    async fn misdirect(&mut self, g: &mut Gen) -> Res {
        let Some(o) = self.out.as_ref().map(|o| o.sid) else { return Ok(()) };
        if !self.open(0, o) {
            return Ok(());
        }
        let id = self.out.as_ref().unwrap().id.clone();
        match g.below(3) {
            0 => {
                // An answer to whatever call of node 0, most of them not the outsider's.
                let rids: Vec<(u64, usize)> = self.calls.iter().filter(|c| c.node == 0).map(|c| (c.rid, c.sid)).collect();
                let (rid, sid) = match rids.is_empty() {
                    true => (g.below(3), 0),
                    false => *g.pick(&rids),
                };
                let content = match g.below(4) {
                    0 => vec![],
                    1 => [vec![1], b"no".to_vec()].concat(),
                    _ => [vec![0], arg(g, &mut self.count).to_vec()].concat(),
                };
                let m = wire::Network { url: format!("{RESP}/{rid}"), content: content.clone(), ..Default::default() };
                g.note(|| format!("the outsider answers call {rid} (of session {sid}) with {} bytes", content.len()));
                g.label_if(sid != o, "outsider answers another's call");
                let data = wire::bytes(&m);
                let frame = self.w.nodes[0].parts.frame(ProtocolId::new(TRANSMITTER), data.clone()).unwrap();
                self.w.arrive(0, o, TRANSMITTER, frame).await;
                let said = match content.split_first() {
                    Some((0, rest)) => Ok(Bytes::from(rest.to_vec())),
                    _ => Err(None),
                };
                self.arrived(0, o, &data, Some(said));
            }
            1 => {
                // A message with headers of its own making.
                let mut m = wire::Network::default();
                let good = g.chance(1, 3);
                let t = (g.u64() | 1, g.u64(), g.u64());
                if good {
                    m.headers.insert("trace_id".into(), format!("{:x}{:016x}", t.0, t.1).into_bytes());
                    m.headers.insert("span_id".into(), t.2.to_be_bytes().to_vec());
                } else {
                    if g.chance(3, 4) {
                        let v = match g.below(4) {
                            0 => g.text(20).into_bytes(),
                            1 => "f".repeat(g.usize(0, 70)).into_bytes(),
                            2 => g.text(40).into_bytes(),
                            _ => g.bytes(40),
                        };
                        m.headers.insert("trace_id".into(), v);
                    }
                    if g.chance(3, 4) {
                        m.headers.insert("span_id".into(), g.bytes(12));
                    }
                }
                let (end, url) = match g.below(5) {
                    0 => (Some(GOSSIP_A), format!("{GOSSIP_A}/x")),
                    1 => (Some(GOSSIP_B), GOSSIP_B.to_owned()),
                    2 => (None, format!("{CALL}/{}", *g.pick(&["x", "", "-1", "18446744073709551616", "7/8"]))),
                    3 => (None, g.text(30)),
                    _ => (Some(CALL), format!("{CALL}/{}", g.u64())),
                };
                let data = arg(g, &mut self.count);
                m.url = url;
                m.content = data.to_vec();
                g.note(|| format!("the outsider sends {} bytes on {:?} with {:?}", m.content.len(), m.url, m.headers));
                if let Some(end) = end {
                    if data[0] != 0xff {
                        let trace = good.then_some(Some(t));
                        self.exps.push(Exp { node: 0, sid: o, end, from: id, data, trace, done: false, lost: false });
                    }
                }
                let frame = self.w.nodes[0].parts.frame(ProtocolId::new(TRANSMITTER), wire::bytes(&m)).unwrap();
                self.w.arrive(0, o, TRANSMITTER, frame).await;
                g.label("outsider's message");
            }
            _ => {
                // Anything at all.
                let protos: Vec<usize> = self.w.nodes[0].sessions[&o].open.iter().copied().collect();
                let proto = *g.pick(&protos);
                let mut frame = match g.below(3) {
                    0 => BytesMut::from(&g.bytes(60)[..]),
                    1 if !self.frames.is_empty() => g.pick(&self.frames).1.clone(),
                    _ => {
                        let b = Bytes::from(g.bytes(60));
                        self.w.nodes[0].parts.frame(ProtocolId::new(proto), b).unwrap()
                    }
                };
                if g.bool() {
                    let head = frame.len().min(4);
                    let body = g.mutate(&frame[head..]);
                    let mut f = BytesMut::from(&(body.len() as u32).to_be_bytes()[..]);
                    f.extend_from_slice(&body);
                    frame = f;
                }
                for c in self.calls.iter_mut().filter(|c| c.node == 0 && c.sid == o) {
                    c.unknown = true;
                }
                g.note(|| format!("the outsider sends on protocol {proto} the frame {}", pbt::clip(&format!("{:?}", frame))));
                self.w.arrive(0, o, proto, frame).await;
                g.label("outsider's frame");
            }
        }
        Ok(())
    }
}

fn messages(g: &mut Gen) -> Res {
    let dir = tempfile::tempdir().unwrap();
    let n = g.usize(2, 4);
    let mut c = Case { w: world(n, dir.path()), exps: vec![], calls: vec![], asked: vec![], count: 0, out: None, frames: vec![] };
    run(async {
        c.w.init().await;
        for a in 0..n {
            for b in 0..n {
                if a != b && c.linked(a, b).is_none() && g.chance(3, 5) {
                    c.join(a, b).await;
                }
            }
        }
        if g.chance(2, 3) {
            let k = key(100);
            let ty = if g.bool() { SessionType::Inbound } else { SessionType::Outbound };
            let address = addr("9.9.9.9", 99, &k.peer_id());
            let sid = c.w.outsider(0, ty, address.clone(), &k).await;
            c.w.open(0, sid, &[IDENTIFY]).await;
            let id = identity(5, &[address.clone()], &address);
            let frame = c.w.nodes[0].parts.frame(ProtocolId::new(IDENTIFY), id).unwrap();
            c.w.arrive(0, sid, IDENTIFY, frame).await;
            c.w.open(0, sid, &[PING, DISCOVERY, TRANSMITTER]).await;
            c.out = Some(Outsider { sid, id: k.peer_id() });
        }
        c.deliver_all().await;
        for (a, s) in c.links() {
            check!(c.open(a, s), "not-talking", "nodes of one chain identified each other but do not talk: session {s} of node {a}");
        }
        c.w.asked.clear();
        for _ in 0..g.usize(3, 18) {
            match g.weighted(&[6, 4, 5, 8, 2, 2, 3, 2]) {
                0 => c.say(g).await?,
                1 => c.call(g).await?,
                2 => c.respond(g).await?,
                3 => {
                    for _ in 0..g.usize(1, 4) {
                        let ws = c.w.waiting();
                        if !ws.is_empty() {
                            let x = *g.pick(&ws);
                            c.deliver(x).await;
                        }
                    }
                }
                4 => {
                    let links = c.links();
                    if !links.is_empty() {
                        let (a, s) = *g.pick(&links);
                        c.settle_inbox(g)?;
                        let far = c.w.nodes[a].sessions[&s].far;
                        for e in c.exps.iter_mut().filter(|e| !e.done) {
                            if (e.node, e.sid) == (a, s) || End::Node(e.node, e.sid) == far {
                                e.lost = true;
                                g.label("message lost with its session");
                            }
                        }
                        g.note(|| format!("session {s} of node {a} ends"));
                        c.w.close(a, s).await;
                        c.w.commands().await;
                    }
                }
                5 => {
                    let (a, b) = (g.usize(0, n - 1), g.usize(0, n - 1));
                    if a != b && c.linked(a, b).is_none() {
                        g.note(|| format!("node {a} connects to node {b}"));
                        c.join(a, b).await;
                    }
                }
                6 => c.misdirect(g).await?,
                _ => {
                    let ms = *g.pick(&[100u64, 5_000, 9_999, 10_000, 20_000]);
                    g.note(|| format!("{ms} ms pass"));
                    tokio::time::advance(Duration::from_millis(ms)).await;
                    settle().await;
                    if g.bool() {
                        let (a, (p, t)) = (g.usize(0, n - 1), *g.pick(&[(PING, 0u64), (PING, 1), (IDENTIFY, 100), (DISCOVERY, 0)]));
                        let l = c.w.nodes[a].listens.clone();
                        c.w.nodes[a].parts.notify(ProtocolId::new(p), &l, t).await;
                        c.w.commands().await;
                    }
                }
            }
            c.settle_inbox(g)?;
            c.check_calls(g)?;
            c.w.quiet()?;
        }
        c.deliver_all().await;
        c.settle_inbox(g)?;
        c.check_calls(g)?;
        c.w.quiet()?;
        // The outsider's session may have ended on the way.
        for e in c.exps.iter().filter(|e| !e.done && !e.lost) {
            let gone = c.out.as_ref().map_or(false, |o| e.node == 0 && e.sid == o.sid);
            check!(gone, "message-lost", "node {} never got on {} what {:?} sent on session {}: {:?}", e.node, e.end, e.from, e.sid, e.data);
        }
        for (a, x) in &c.w.asked {
            if let Asked::Disconnect(s) = x {
                let honest = !(*a == 0 && c.out.as_ref().map_or(false, |o| o.sid == *s));
                check!(!honest, "honest-peer-dropped", "node {a} ended session {s}, whose peer did nothing wrong");
            }
        }
        tokio::time::advance(Duration::from_secs(11)).await;
        c.w.commands().await;
        c.check_calls(g)?;
        if c.exps.iter().any(|e| e.done) {
            g.hit();
        }
        Ok(())
    })
}

/// What one side puts on a stream the other side takes from it.
fn frames(g: &mut Gen) -> Res {
    let dir = tempfile::tempdir().unwrap();
    let mut w = world(2, dir.path());
    let proto = *g.pick(&[PING, IDENTIFY, DISCOVERY, TRANSMITTER, FEELER]);
    let limit = [0, 1024, 2048, 512 * 1024, 4 * 1024 * 1024, 1024][proto];
    let n = match g.below(4) {
        0 => g.usize(0, 50),
        1 => g.usize(1015, 1035),
        2 => g.len(70_000),
        _ if proto == TRANSMITTER && g.chance(1, 6) => g.usize((8 << 20) - 2, (8 << 20) + 2),
        _ => g.len(if proto == TRANSMITTER { 9_000_000 } else { 600_000 }),
    };
    let data: Vec<u8> = match g.below(4) {
        0 => g.entropy(n),
        1 => vec![g.byte(); n],
        2 => {
            let unit = g.entropy(100);
            unit.into_iter().cycle().take(n).collect()
        }
        _ => {
            // Runs of all lengths, copies of all distances.
            let mut v: Vec<u8> = vec![];
            while v.len() < n {
                if v.len() > 10 && g.bool() {
                    let back = g.usize(1, v.len());
                    let len = g.len(5000).min(n - v.len());
                    for _ in 0..len {
                        v.push(v[v.len() - back]);
                    }
                } else {
                    let len = g.len(300).min(n - v.len()).max(1);
                    v.extend(g.entropy(len));
                }
            }
            v
        }
    };
    let data = Bytes::from(data);
    let p = ProtocolId::new(proto);
    match w.nodes[0].parts.frame(p, data.clone()) {
        Err(_) => {
            check!(data.len() + 1 > limit, "small-frame-refused", "{} bytes cannot be sent on protocol {proto}", data.len());
            g.label("too long for the protocol");
        }
        Ok(frame) => {
            g.hit();
            g.label_if(frame.len() < data.len(), "compressed");
            check!(frame.len() <= limit + 4, "long-frame", "protocol {proto} sends frames of {} bytes", frame.len());
            match w.nodes[1].parts.unframe(p, frame.clone()) {
                Ok(Some(got)) => {
                    check!(got == data, "frame-changed", "{} bytes became {} bytes on protocol {proto}, or others", data.len(), got.len());
                    check!(got.len() <= 8 << 20, "unpacked-too-long", "a frame of {} bytes unpacks to {} bytes", frame.len(), got.len());
                }
                Ok(None) => return Err(fail("frame-incomplete", format!("a frame of {} bytes is not complete", frame.len()))),
                Err(e) => {
                    check!(data.len() > 8 << 20, "frame-refused", "the frame of {} bytes is refused: {e}", data.len());
                    g.label("unpacks to too much");
                }
            }
            // A damaged frame is refused or unpacks to no more than it may.
            if frame.len() < 50_000 {
                let body = g.mutate(&frame[4..]);
                let mut f = BytesMut::from(&(body.len() as u32).to_be_bytes()[..]);
                f.extend_from_slice(&body);
                match w.nodes[1].parts.unframe(p, f) {
                    Ok(Some(got)) => check!(got.len() <= 8 << 20, "unpacked-too-long", "a frame unpacks to {} bytes", got.len()),
                    _ => g.label("damaged frame refused"),
                }
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P36",
        rule: "a message reached a handler and was compared with what was sent; a frame was taken from the stream",
        assume: vec!["tentacle (sessions, streams), prost and snap are replaced by stand-ins; frames of a protocol keep their order"],
        facets: vec![Facet::new("messages", 5000, messages).deep(12), Facet::new("frames", 1500, frames).deep(10)],
    }]
}
