//! Some nodes with the real core/network, and the network between them: sessions, protocols and the
//! frames on their way, which arrive when the check wants them to.
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};

use bytes::{Bytes, BytesMut};
use core_network::{NetworkConfig, NetworkContext, NetworkService, NetworkServiceHandle, PeerManager, ServiceHandler};
use pbt::{check, Gen, Res};
use protocol::traits::{Context, MessageCodec, MessageHandler, TrustFeedback};
use protocol::{async_trait, ProtocolError, ProtocolErrorKind, ProtocolResult};
use tentacle::context::SessionContext;
use tentacle::error::{DialerErrorKind, HandshakeErrorKind};
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::{error::SecioError, PeerId, SecioKeyPair};
use tentacle::service::{ServiceError, ServiceEvent, SessionType, TargetProtocol, TargetSession};
use tentacle::sim::{self, Command, Parts};
use tentacle::{ProtocolId, SessionId};

pub const PING: usize = 1;
pub const IDENTIFY: usize = 2;
pub const DISCOVERY: usize = 3;
pub const TRANSMITTER: usize = 4;
pub const FEELER: usize = 5;

pub const GOSSIP_A: &str = "/gossip/t/a";
pub const GOSSIP_B: &str = "/gossip/t/b";
pub const CALL: &str = "/rpc_call/t/c";
pub const RESP: &str = "/rpc_resp/t/c";

/// Runs on a thread of its own making, with a clock that only moves when told to.
pub fn run<F: std::future::Future<Output = Res>>(f: F) -> Res {
    sim::PANICS.with(|p| p.borrow_mut().clear());
    faketime::set(Some(1_700_000_000_000));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let res = rt.block_on(f);
    drop(rt);
    faketime::set(None);
    res
}

pub async fn settle() {
    for _ in 0..12 {
        tokio::task::yield_now().await;
    }
}

/// Panics of a node's tasks; each of them would have ended the node.
pub fn panics() -> Vec<String> {
    sim::PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

pub fn key(i: usize) -> SecioKeyPair {
    let mut k = [7u8; 32];
    k[30] = (i >> 8) as u8;
    k[31] = i as u8;
    SecioKeyPair::secp256k1_raw_key(k).unwrap()
}

pub fn addr(ip: &str, port: u16, id: &PeerId) -> Multiaddr {
    let kind = if ip.contains(':') { "ip6" } else { "ip4" };
    format!("/{kind}/{ip}/tcp/{port}/p2p/{}", id.to_base58()).parse().unwrap()
}

/// What travels: bytes, of which those that start with 0xff do not decode.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg(pub Bytes);

impl MessageCodec for Msg {
    fn encode_msg(&mut self) -> ProtocolResult<Bytes> {
        Ok(self.0.clone())
    }
    fn decode_msg(bytes: Bytes) -> ProtocolResult<Self> {
        if bytes.first() == Some(&0xff) {
            return Err(trouble("does not decode"));
        }
        Ok(Msg(bytes))
    }
}

#[derive(Debug)]
pub struct Trouble(pub String);

impl std::fmt::Display for Trouble {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

impl std::error::Error for Trouble {}

pub fn trouble(s: &str) -> ProtocolError {
    ProtocolError::new(ProtocolErrorKind::Network, Box::new(Trouble(s.to_owned())))
}

/// A message that reached a handler.
pub struct Recv {
    pub end: &'static str,
    pub ctx: Context,
    pub session: Option<usize>,
    pub peer: Option<PeerId>,
    pub rpc: Option<u64>,
    pub trace: Option<(u64, u64, u64)>,
    pub data: Bytes,
}

pub type Inbox = Arc<Mutex<Vec<Recv>>>;

struct Handler {
    end: &'static str,
    inbox: Inbox,
}

#[async_trait]
impl MessageHandler for Handler {
    type Message = Msg;

    async fn process(&self, ctx: Context, msg: Msg) -> TrustFeedback {
        let trace = common_apm::tracing::AxonTracer::span_state(&ctx).map(|s| (s.trace_id().high, s.trace_id().low, s.span_id()));
        self.inbox.lock().unwrap().push(Recv {
            end: self.end,
            session: ctx.session_id().ok().map(|s| s.value()),
            peer: ctx.remote_peer_id().ok(),
            rpc: ctx.rpc_id().ok(),
            trace,
            data: msg.0,
            ctx,
        });
        TrustFeedback::Neutral
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum End {
    Node(usize, usize),
    Outside,
}

pub struct Sess {
    pub ctx: Arc<SessionContext>,
    pub far: End,
    pub open: BTreeSet<usize>,
    /// Frames on their way to the far side, per protocol in order.
    pub out: VecDeque<(usize, BytesMut)>,
}

pub struct Node {
    pub parts: Parts,
    pub service: Option<NetworkService<SecioKeyPair>>,
    pub handle: NetworkServiceHandle,
    pub peers: Arc<PeerManager>,
    pub id: PeerId,
    pub key: SecioKeyPair,
    pub addr: Multiaddr,
    pub listens: Vec<Multiaddr>,
    pub sessions: BTreeMap<usize, Sess>,
    pub next: usize,
    pub inbox: Inbox,
}

impl Node {
    pub fn new(config: NetworkConfig, key: SecioKeyPair, addr: Multiaddr) -> Node {
        let mut service = NetworkService::new(config, key.clone());
        let parts = sim::take().expect("a node");
        let inbox = Inbox::default();
        for end in [GOSSIP_A, GOSSIP_B, CALL] {
            service.register_endpoint_handler(end, Handler { end, inbox: inbox.clone() }).unwrap();
        }
        service.register_rpc_response(RESP).unwrap();
        let peers = parts.handle.as_any().downcast_ref::<ServiceHandler>().expect("the service's handler").peer_store.clone();
        Node {
            parts,
            handle: service.handle(),
            service: Some(service),
            peers,
            id: key.peer_id(),
            key,
            listens: vec![addr.clone()],
            addr,
            sessions: BTreeMap::new(),
            next: 1,
            inbox,
        }
    }
}

/// A send as the node asked for it, and who got it.
#[derive(Debug)]
pub struct Sent {
    pub proto: usize,
    pub data: Bytes,
    /// Sessions the transport was asked about, in order, and whether the node wanted them.
    pub asked: Vec<(usize, bool)>,
    pub to: Vec<usize>,
}

/// What a node asked of the transport apart from sending.
#[derive(Debug)]
pub enum Asked {
    Dial(Multiaddr, Vec<usize>),
    Disconnect(usize),
    Open(usize, Vec<usize>),
}

pub struct World {
    pub nodes: Vec<Node>,
    pub sent: Vec<(usize, Sent)>,
    pub asked: Vec<(usize, Asked)>,
    /// Whether dials are answered, and not only recorded.
    pub dialing: bool,
}

impl World {
    pub fn new(nodes: Vec<Node>) -> World {
        World { nodes, sent: vec![], asked: vec![], dialing: true }
    }

    pub async fn init(&mut self) {
        for n in &mut self.nodes {
            let l = n.listens.clone();
            n.parts.init(&l).await;
        }
        self.commands().await;
    }

    fn session(&mut self, a: usize, ty: SessionType, address: Multiaddr, remote: tentacle::secio::PublicKey, far: End) -> (usize, Arc<SessionContext>) {
        let n = &mut self.nodes[a];
        let sid = n.next;
        n.next += 1;
        let ctx = Arc::new(SessionContext { id: SessionId::new(sid), address, ty, remote_pubkey: Some(remote) });
        n.sessions.insert(sid, Sess { ctx: ctx.clone(), far, open: BTreeSet::new(), out: VecDeque::new() });
        (sid, ctx)
    }

    async fn event(&mut self, a: usize, e: ServiceEvent) {
        let n = &mut self.nodes[a];
        let l = n.listens.clone();
        n.parts.event(&l, e).await
    }

    /// Node `a` dials node `b`. The protocols are opened by whoever asked for the session.
    pub async fn connect(&mut self, a: usize, b: usize) -> (usize, usize) {
        let (addr_b, key_b, key_a, addr_a) = {
            let (na, nb) = (&self.nodes[a], &self.nodes[b]);
            (nb.addr.clone(), nb.key.public_key(), na.key.public_key(), na.addr.clone())
        };
        let sb = self.nodes[b].next;
        let (sa, ctx_a) = self.session(a, SessionType::Outbound, addr_b, key_b, End::Node(b, sb));
        let (_, ctx_b) = self.session(b, SessionType::Inbound, addr_a, key_a, End::Node(a, sa));
        self.event(a, ServiceEvent::SessionOpen { session_context: ctx_a }).await;
        self.event(b, ServiceEvent::SessionOpen { session_context: ctx_b }).await;
        (sa, sb)
    }

    /// A peer from outside connects to node `a`, or node `a` to it.
    pub async fn outsider(&mut self, a: usize, ty: SessionType, address: Multiaddr, key: &SecioKeyPair) -> usize {
        let (sid, ctx) = self.session(a, ty, address, key.public_key(), End::Outside);
        self.event(a, ServiceEvent::SessionOpen { session_context: ctx }).await;
        sid
    }

    /// Opens protocols of a session on both of its sides.
    pub async fn open(&mut self, a: usize, sid: usize, protos: &[usize]) {
        let Some(s) = self.nodes[a].sessions.get(&sid) else { return };
        let far = s.far;
        for p in protos {
            let mut sides = vec![(a, sid)];
            if let End::Node(b, sb) = far {
                sides.push((b, sb));
            }
            if sides.iter().any(|(n, s)| self.nodes[*n].sessions.get(s).map_or(true, |s| s.open.contains(p))) {
                continue;
            }
            for (n, s) in &sides {
                self.nodes[*n].sessions.get_mut(s).unwrap().open.insert(*p);
            }
            for (n, s) in sides {
                let n = &mut self.nodes[n];
                let (l, ctx) = (n.listens.clone(), n.sessions[&s].ctx.clone());
                n.parts.connected(ProtocolId::new(*p), &l, &ctx).await;
            }
        }
    }

    async fn close_side(&mut self, a: usize, sid: usize) {
        let Some(s) = self.nodes[a].sessions.remove(&sid) else { return };
        let n = &mut self.nodes[a];
        let l = n.listens.clone();
        for p in &s.open {
            n.parts.disconnected(ProtocolId::new(*p), &l, &s.ctx).await;
        }
        self.event(a, ServiceEvent::SessionClose { session_context: s.ctx }).await;
    }

    /// A session ends; what is still on its way is lost.
    pub async fn close(&mut self, a: usize, sid: usize) {
        let Some(s) = self.nodes[a].sessions.get(&sid) else { return };
        let far = s.far;
        self.close_side(a, sid).await;
        if let End::Node(b, sb) = far {
            self.close_side(b, sb).await;
        }
    }

    fn find(&self, address: &Multiaddr) -> Option<usize> {
        let id = tentacle::utils::extract_peer_id(address)?;
        self.nodes.iter().position(|n| n.id == id && tentacle::utils::multiaddr_to_socketaddr(&n.addr) == tentacle::utils::multiaddr_to_socketaddr(address))
    }

    /// Carries out what the nodes asked of the transport, until they ask for nothing more.
    pub async fn commands(&mut self) {
        loop {
            settle().await;
            let mut any = false;
            for a in 0..self.nodes.len() {
                while let Some(c) = self.nodes[a].parts.next_command() {
                    any = true;
                    self.command(a, c).await;
                }
            }
            if !any {
                return;
            }
        }
    }

    async fn command(&mut self, a: usize, c: Command) {
        match c {
            Command::Notify { .. } | Command::Listen(_) | Command::Shutdown => {}
            Command::Send { target, proto_id, data } => {
                let n = &mut self.nodes[a];
                let mut asked = vec![];
                let to: Vec<usize> = match target {
                    TargetSession::Single(s) => vec![s.value()],
                    TargetSession::Multi(it) => it.map(|s| s.value()).collect(),
                    TargetSession::All => n.sessions.keys().copied().collect(),
                    TargetSession::Filter(mut f) => {
                        for s in n.sessions.keys() {
                            asked.push((*s, f(&SessionId::new(*s))));
                        }
                        asked.iter().filter(|(_, y)| *y).map(|(s, _)| *s).collect()
                    }
                };
                let frame = n.parts.frame(proto_id, data.clone());
                for s in &to {
                    if let (Some(s), Ok(frame)) = (n.sessions.get_mut(s), &frame) {
                        if s.open.contains(&proto_id.value()) {
                            s.out.push_back((proto_id.value(), frame.clone()));
                        }
                    }
                }
                self.sent.push((a, Sent { proto: proto_id.value(), data, asked, to }));
            }
            Command::Disconnect(s) => {
                self.asked.push((a, Asked::Disconnect(s.value())));
                self.close(a, s.value()).await
            }
            Command::Open { session_id, target } => {
                let p = self.protos(a, &target);
                self.asked.push((a, Asked::Open(session_id.value(), p.clone())));
                self.open(a, session_id.value(), &p).await
            }
            Command::Dial { address, target } => {
                let p = self.protos(a, &target);
                self.asked.push((a, Asked::Dial(address.clone(), p.clone())));
                if !self.dialing {
                    return;
                }
                let error = match self.find(&address) {
                    Some(b) if a == b => DialerErrorKind::HandshakeError(HandshakeErrorKind::SecioError(SecioError::ConnectSelf)),
                    Some(b) => match self.nodes[a].sessions.iter().find(|(_, s)| matches!(s.far, End::Node(x, _) if x == b)) {
                        Some((s, _)) => DialerErrorKind::RepeatedConnection(SessionId::new(*s)),
                        None => {
                            let (s, _) = self.connect(a, b).await;
                            self.open(a, s, &p).await;
                            return;
                        }
                    },
                    None => DialerErrorKind::IoError(std::io::ErrorKind::ConnectionRefused.into()),
                };
                self.error(a, ServiceError::DialerError { address, error }).await
            }
        }
    }

    pub fn protos(&self, a: usize, target: &TargetProtocol) -> Vec<usize> {
        self.nodes[a].parts.matching(target).into_iter().map(|p| p.value()).collect()
    }

    pub async fn error(&mut self, a: usize, e: ServiceError) {
        let n = &mut self.nodes[a];
        let l = n.listens.clone();
        n.parts.error(&l, e).await
    }

    /// A frame reaches a node.
    pub async fn arrive(&mut self, a: usize, sid: usize, proto: usize, frame: BytesMut) {
        let n = &mut self.nodes[a];
        let Some(s) = n.sessions.get(&sid) else { return };
        if !s.open.contains(&proto) {
            return;
        }
        let (l, ctx) = (n.listens.clone(), s.ctx.clone());
        match n.parts.unframe(ProtocolId::new(proto), frame) {
            Ok(None) => {}
            Ok(Some(data)) => n.parts.received(ProtocolId::new(proto), &l, &ctx, data).await,
            Err(error) => {
                n.parts.error(&l, ServiceError::ProtocolError { id: ctx.id, proto_id: ProtocolId::new(proto), error }).await
            }
        }
        self.commands().await
    }

    /// Sessions between nodes with frames on their way: (node, session, protocol).
    pub fn waiting(&self) -> Vec<(usize, usize, usize)> {
        let mut v = vec![];
        for (a, n) in self.nodes.iter().enumerate() {
            for (sid, s) in &n.sessions {
                if s.far != End::Outside {
                    let protos: BTreeSet<usize> = s.out.iter().map(|(p, _)| *p).collect();
                    v.extend(protos.into_iter().map(|p| (a, *sid, p)));
                }
            }
        }
        v
    }

    /// The first frame of a session's protocol arrives.
    pub async fn deliver(&mut self, (a, sid, proto): (usize, usize, usize)) -> Option<BytesMut> {
        let s = self.nodes[a].sessions.get_mut(&sid)?;
        let End::Node(b, sb) = s.far else { return None };
        let i = s.out.iter().position(|(p, _)| *p == proto)?;
        let (_, frame) = s.out.remove(i)?;
        self.arrive(b, sb, proto, frame.clone()).await;
        Some(frame)
    }

    pub async fn deliver_some(&mut self, g: &mut Gen) -> bool {
        let w = self.waiting();
        if w.is_empty() {
            return false;
        }
        let w = *g.pick(&w);
        self.deliver(w).await;
        true
    }

    pub async fn deliver_all(&mut self) {
        loop {
            self.commands().await;
            let w = self.waiting();
            if w.is_empty() {
                return;
            }
            for w in w {
                self.deliver(w).await;
            }
        }
    }

    pub fn quiet(&self) -> Res {
        let p = panics();
        check!(p.is_empty(), "panic", "a task of a node panicked: {:?}", p);
        Ok(())
    }
}

/// Messages as they are on the wire.
pub mod wire {
    use std::collections::HashMap;

    #[derive(prost::Message)]
    pub struct Network {
        #[prost(map = "string, bytes", tag = "1")]
        pub headers: HashMap<String, Vec<u8>>,
        #[prost(string, tag = "2")]
        pub url: String,
        #[prost(bytes, tag = "3")]
        pub content: Vec<u8>,
    }

    #[derive(prost::Message)]
    pub struct Addresses {
        #[prost(bytes, repeated, tag = "1")]
        pub listen_addrs: Vec<Vec<u8>>,
        #[prost(bytes, tag = "2")]
        pub observed_addr: Vec<u8>,
    }

    #[derive(prost::Message)]
    pub struct Identity {
        #[prost(string, tag = "1")]
        pub chain_id: String,
        #[prost(message, tag = "2")]
        pub addr_info: Option<Addresses>,
    }

    pub fn bytes<M: prost::Message>(m: &M) -> bytes::Bytes {
        let mut b = bytes::BytesMut::new();
        m.encode(&mut b).unwrap();
        b.freeze()
    }
}

/// An identification as a peer of the chain would send it.
pub fn identity(chain_id: u64, listens: &[Multiaddr], observed: &Multiaddr) -> Bytes {
    wire::bytes(&wire::Identity {
        chain_id: chain_id.to_string(),
        addr_info: Some(wire::Addresses { listen_addrs: listens.iter().map(|a| a.to_vec()).collect(), observed_addr: observed.to_vec() }),
    })
}
