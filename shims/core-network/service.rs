//! A network service whose messages all go through one hub, over the Unix socket named by
//! `AXON_HUB`: the hub decides what arrives, when and where. Sessions are numbered by the hub.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use common_config_parser::types::Config;
use common_crypto::{PublicKey, Secp256k1PrivateKey, ToPublicKey};
use protocol::tokio::{self, sync::oneshot};
use protocol::traits::{Context, Gossip, MessageCodec, MessageHandler, Network, PeerTag, PeerTrust, Priority, Rpc, TrustFeedback};
use protocol::types::Bytes;
use protocol::{async_trait, ProtocolResult};

use super::{NetworkContext, NetworkError, PeerId, PeerIdExt, SessionId};

/// One message on the wire.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Frame {
    pub kind: Kind,
    /// To whom (from a node) or from whom (to a node); 0 is all.
    pub peer: u32,
    pub rid: u64,
    pub end: String,
    /// Of a multicast: the peers.
    pub ids: Vec<Vec<u8>>,
    pub data: Vec<u8>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Kind {
    Hello,
    Broadcast,
    Gossip,
    Multicast,
    Call,
    Answer,
    Refusal,
}

const KINDS: [Kind; 7] = [Kind::Hello, Kind::Broadcast, Kind::Gossip, Kind::Multicast, Kind::Call, Kind::Answer, Kind::Refusal];

impl Frame {
    pub fn write(&self, w: &mut impl Write) -> std::io::Result<()> {
        let mut b = vec![0; 4];
        b.push(self.kind as u8);
        b.extend(self.peer.to_be_bytes());
        b.extend(self.rid.to_be_bytes());
        let mut put = |v: &[u8]| {
            b.extend((v.len() as u32).to_be_bytes());
            b.extend(v);
        };
        put(self.end.as_bytes());
        put(&self.ids.concat());
        put(&self.data);
        let n = b.len() as u32 - 4;
        b[..4].copy_from_slice(&n.to_be_bytes());
        w.write_all(&b)
    }

    pub fn read(r: &mut impl Read) -> std::io::Result<Frame> {
        let mut n = [0; 4];
        r.read_exact(&mut n)?;
        let mut b = vec![0; u32::from_be_bytes(n) as usize];
        r.read_exact(&mut b)?;
        let mut at = 13;
        let mut take = || {
            let n = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
            at += 4 + n;
            b[at - n..at].to_vec()
        };
        let (end, ids, data) = (take(), take(), take());
        Ok(Frame {
            kind: KINDS[b[0] as usize],
            peer: u32::from_be_bytes(b[1..5].try_into().unwrap()),
            rid: u64::from_be_bytes(b[5..13].try_into().unwrap()),
            end: String::from_utf8(end).expect("an endpoint"),
            ids: ids.chunks(32).map(|c| c.to_vec()).collect(),
            data,
        })
    }
}

#[derive(Debug, Clone)]
pub struct SecioError;

#[async_trait]
pub trait KeyProvider: Clone + Send + Sync + 'static {
    type Error: Into<SecioError>;

    async fn sign_ecdsa_async<T: AsRef<[u8]> + Send>(&self, message: T) -> Result<Vec<u8>, Self::Error>;
    fn sign_ecdsa<T: AsRef<[u8]>>(&self, message: T) -> Result<Vec<u8>, Self::Error>;
    fn pubkey(&self) -> Vec<u8>;
    fn verify_ecdsa<P, T, F>(&self, pubkey: P, message: T, signature: F) -> bool
    where
        P: AsRef<[u8]>,
        T: AsRef<[u8]>,
        F: AsRef<[u8]>;
}

/// Nothing is encrypted here: only its public key is used.
#[derive(Debug, Clone)]
pub struct SecioKeyPair(Vec<u8>);

#[async_trait]
impl KeyProvider for SecioKeyPair {
    type Error = SecioError;

    async fn sign_ecdsa_async<T: AsRef<[u8]> + Send>(&self, _: T) -> Result<Vec<u8>, SecioError> {
        Err(SecioError)
    }

    fn sign_ecdsa<T: AsRef<[u8]>>(&self, _: T) -> Result<Vec<u8>, SecioError> {
        Err(SecioError)
    }

    fn pubkey(&self) -> Vec<u8> {
        self.0.clone()
    }

    fn verify_ecdsa<P, T, F>(&self, _: P, _: T, _: F) -> bool
    where
        P: AsRef<[u8]>,
        T: AsRef<[u8]>,
        F: AsRef<[u8]>,
    {
        false
    }
}

#[derive(Debug)]
pub struct NetworkConfig {
    pub secio_keypair: SecioKeyPair,
    pub chain_id: u64,
}

impl NetworkConfig {
    pub fn from_config(config: &Config, chain_id: u64) -> ProtocolResult<Self> {
        let key = Secp256k1PrivateKey::try_from(config.net_privkey.as_ref()).map_err(|_| NetworkError::InvalidPeerId)?;
        Ok(NetworkConfig { secio_keypair: SecioKeyPair(key.pub_key().to_bytes().to_vec()), chain_id })
    }
}

pub async fn observe_listen_port_occupancy<T>(_: &[T]) -> Result<(), NetworkError> {
    Ok(())
}

type Handle = Arc<dyn Fn(Context, Bytes) + Send + Sync>;

type Waiting = HashMap<(usize, u64), oneshot::Sender<Result<Vec<u8>, String>>>;

struct Shared {
    out: Mutex<UnixStream>,
    next: AtomicU64,
    waiting: Mutex<Waiting>,
}

impl Shared {
    fn send(&self, f: Frame) {
        if f.write(&mut *self.out.lock().unwrap()).is_err() {
            // the hub is gone
            std::process::exit(9);
        }
    }
}

#[derive(Clone)]
pub struct NetworkServiceHandle(Arc<Shared>);

#[async_trait]
impl Gossip for NetworkServiceHandle {
    async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let data = msg.encode_msg()?.to_vec();
        self.0.send(Frame { kind: Kind::Broadcast, peer: 0, rid: 0, end: end.to_string(), ids: vec![], data });
        Ok(())
    }

    /// Goes to all but the origin (`peer`).
    async fn gossip<M: MessageCodec>(&self, _: Context, origin: Option<usize>, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let data = msg.encode_msg()?.to_vec();
        self.0.send(Frame { kind: Kind::Gossip, peer: origin.unwrap_or(0) as u32, rid: 0, end: end.to_string(), ids: vec![], data });
        Ok(())
    }

    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, end: &str, peers: P, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let data = msg.encode_msg()?.to_vec();
        let ids = peers.as_ref().iter().map(|p| p.to_vec()).collect();
        self.0.send(Frame { kind: Kind::Multicast, peer: 0, rid: 0, end: end.to_string(), ids, data });
        Ok(())
    }
}

#[async_trait]
impl Rpc for NetworkServiceHandle {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, ctx: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        let sid = ctx.session_id()?.value();
        let data = msg.encode_msg()?.to_vec();
        let rid = self.0.next.fetch_add(1, SeqCst);
        let (tx, rx) = oneshot::channel();
        self.0.waiting.lock().unwrap().insert((sid, rid), tx);
        self.0.send(Frame { kind: Kind::Call, peer: sid as u32, rid, end: end.to_string(), ids: vec![], data });
        let r = tokio::time::timeout(Duration::from_secs(10), rx).await;
        self.0.waiting.lock().unwrap().remove(&(sid, rid));
        match r {
            Ok(Ok(Ok(v))) => R::decode_msg(Bytes::from(v)),
            Ok(Ok(Err(e))) => Err(NetworkError::RemoteResponse(e).into()),
            _ => Err(NetworkError::Timeout.into()),
        }
    }

    async fn response<M: MessageCodec>(&self, ctx: Context, end: &str, ret: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> {
        let sid = ctx.session_id()?.value();
        let rid = *ctx.get::<u64>("rpc_id").ok_or(NetworkError::NoRpcId)?;
        let (kind, data) = match ret {
            Ok(mut m) => (Kind::Answer, m.encode_msg()?.to_vec()),
            Err(e) => (Kind::Refusal, e.to_string().into_bytes()),
        };
        self.0.send(Frame { kind, peer: sid as u32, rid, end: end.to_string(), ids: vec![], data });
        Ok(())
    }
}

impl PeerTrust for NetworkServiceHandle {
    fn report(&self, _: Context, _: TrustFeedback) {}
}

impl Network for NetworkServiceHandle {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> {
        Ok(())
    }
    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> {
        Ok(())
    }
    fn tag_consensus(&self, _: Context, _: Vec<Bytes>) -> ProtocolResult<()> {
        Ok(())
    }
    fn peer_count(&self, _: Context) -> ProtocolResult<usize> {
        Ok(0)
    }
}

pub struct NetworkService<K> {
    shared: Arc<Shared>,
    input: UnixStream,
    handlers: HashMap<String, Handle>,
    answers: Vec<String>,
    _key: K,
}

impl<K: KeyProvider> NetworkService<K> {
    pub fn new(_: NetworkConfig, key: K) -> Self {
        let to = std::env::var("AXON_HUB").expect("AXON_HUB");
        let out = UnixStream::connect(to).expect("the hub");
        let input = out.try_clone().expect("the hub");
        let shared = Arc::new(Shared { out: Mutex::new(out), next: AtomicU64::new((std::process::id() as u64) << 32), waiting: Mutex::default() });
        let id = PeerId::from_pubkey_bytes(key.pubkey()).expect("an id").into_bytes_ext().to_vec();
        shared.send(Frame { kind: Kind::Hello, peer: 0, rid: 0, end: String::new(), ids: vec![id], data: vec![] });
        NetworkService { shared, input, handlers: HashMap::new(), answers: vec![], _key: key }
    }

    pub fn handle(&self) -> NetworkServiceHandle {
        NetworkServiceHandle(Arc::clone(&self.shared))
    }

    pub fn register_endpoint_handler<M: MessageCodec>(&mut self, end: &str, handler: impl MessageHandler<Message = M>) -> ProtocolResult<()> {
        let handler = Arc::new(handler);
        self.handlers.insert(
            end.to_string(),
            Arc::new(move |ctx, data| {
                let handler = Arc::clone(&handler);
                tokio::spawn(async move {
                    if let Ok(m) = M::decode_msg(data) {
                        handler.process(ctx, m).await;
                    }
                });
            }),
        );
        Ok(())
    }

    pub fn register_rpc_response(&mut self, end: &str) -> ProtocolResult<()> {
        self.answers.push(end.to_string());
        Ok(())
    }

    pub async fn run(self) {
        let rt = tokio::runtime::Handle::current();
        let NetworkService { shared, mut input, handlers, answers, .. } = self;
        std::thread::spawn(move || loop {
            let Ok(f) = Frame::read(&mut input) else {
                std::process::exit(9);
            };
            let _in = rt.enter();
            let mut ctx = Context::new().set_session_id(SessionId::new(f.peer as usize));
            match f.kind {
                Kind::Answer | Kind::Refusal => {
                    if !answers.contains(&f.end) {
                        continue;
                    }
                    if let Some(tx) = shared.waiting.lock().unwrap().remove(&(f.peer as usize, f.rid)) {
                        let _ = tx.send(if f.kind == Kind::Answer { Ok(f.data) } else { Err(String::from_utf8_lossy(&f.data).into()) });
                    }
                }
                kind => {
                    if kind == Kind::Call {
                        ctx = ctx.with_value::<u64>("rpc_id", f.rid);
                    }
                    if let Some(h) = handlers.get(&f.end) {
                        h(ctx, Bytes::from(f.data));
                    }
                }
            }
        });
    }
}
