//! Stands in for tentacle (the peer-to-peer transport, not available offline). Nothing is connected
//! here: what the node asks of the transport becomes a `sim::Command`, and whoever drives the check
//! is the network: it opens sessions, carries the frames and calls the node's protocol handlers.
pub use async_trait::async_trait;
pub use bytes;

use std::fmt;

pub mod multiaddr {
    pub use tentacle_multiaddr::{Error, MultiAddr, Multiaddr, Protocol};
}

macro_rules! ids {
    ($($name:ident)*) => {$(
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $name(usize);

        impl $name {
            pub const fn new(v: usize) -> $name {
                $name(v)
            }
            pub const fn value(self) -> usize {
                self.0
            }
        }

        impl From<usize> for $name {
            fn from(v: usize) -> $name {
                $name(v)
            }
        }

        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}({})", stringify!($name), self.0)
            }
        }
    )*};
}

ids! { SessionId ProtocolId }

pub mod secio {
    use std::fmt;
    use std::str::FromStr;

    use bytes::Bytes;
    use sha2::{Digest, Sha256};

    pub mod error {
        use std::fmt;

        #[derive(Debug)]
        pub enum SecioError {
            ConnectSelf,
            SecretKeyError,
            IoError(std::io::Error),
        }

        impl fmt::Display for SecioError {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(self, f)
            }
        }

        impl std::error::Error for SecioError {}
    }

    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct PublicKey(Bytes);

    impl PublicKey {
        pub fn from_raw_key(key: Vec<u8>) -> PublicKey {
            PublicKey(key.into())
        }
        pub fn inner_ref(&self) -> &[u8] {
            &self.0
        }
        pub fn inner(self) -> Vec<u8> {
            self.0.to_vec()
        }
        pub fn peer_id(&self) -> PeerId {
            PeerId::from_public_key(self)
        }
    }

    #[derive(Debug)]
    pub struct PeerIdError;

    impl fmt::Display for PeerIdError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "invalid peer id")
        }
    }

    impl std::error::Error for PeerIdError {}

    /// A multihash (SHA-256) of the public key.
    #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct PeerId(Vec<u8>);

    impl fmt::Debug for PeerId {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "PeerId({})", self.to_base58())
        }
    }

    impl PeerId {
        pub fn from_public_key(key: &PublicKey) -> PeerId {
            let mut v = vec![0x12, 32];
            v.extend_from_slice(&Sha256::digest(key.inner_ref()));
            PeerId(v)
        }
        pub fn from_bytes(bytes: Vec<u8>) -> Result<PeerId, PeerIdError> {
            match bytes.as_slice() {
                [0x12, 32, rest @ ..] if rest.len() == 32 => Ok(PeerId(bytes)),
                _ => Err(PeerIdError),
            }
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        pub fn into_bytes(self) -> Vec<u8> {
            self.0
        }
        pub fn to_base58(&self) -> String {
            bs58::encode(&self.0).into_string()
        }
    }

    impl FromStr for PeerId {
        type Err = PeerIdError;

        fn from_str(s: &str) -> Result<PeerId, PeerIdError> {
            PeerId::from_bytes(bs58::decode(s).into_vec().map_err(|_| PeerIdError)?)
        }
    }

    #[derive(Clone, Debug)]
    pub struct SecioKeyPair(secp256k1::SecretKey);

    impl SecioKeyPair {
        pub fn secp256k1_generated() -> SecioKeyPair {
            SecioKeyPair(secp256k1::SecretKey::new(&mut secp256k1::rand::thread_rng()))
        }
        pub fn secp256k1_raw_key<K: AsRef<[u8]>>(key: K) -> Result<SecioKeyPair, error::SecioError> {
            secp256k1::SecretKey::from_slice(key.as_ref()).map(SecioKeyPair).map_err(|_| error::SecioError::SecretKeyError)
        }
        pub fn public_key(&self) -> PublicKey {
            PublicKey::from_raw_key(self.0.public_key(&secp256k1::Secp256k1::signing_only()).serialize().to_vec())
        }
        pub fn peer_id(&self) -> PeerId {
            self.public_key().peer_id()
        }
    }

    pub trait KeyProvider: Clone + Send + Sync + 'static {
        fn pubkey(&self) -> Vec<u8>;
    }

    impl KeyProvider for SecioKeyPair {
        fn pubkey(&self) -> Vec<u8> {
            self.public_key().inner()
        }
    }
}

pub mod error {
    use super::secio::error::SecioError;
    use super::SessionId;
    use std::fmt;

    #[derive(Debug)]
    pub enum TransportErrorKind {
        Io(std::io::Error),
    }

    #[derive(Debug)]
    pub enum HandshakeErrorKind {
        SecioError(SecioError),
        Timeout(String),
    }

    #[derive(Debug)]
    pub enum DialerErrorKind {
        HandshakeError(HandshakeErrorKind),
        IoError(std::io::Error),
        PeerIdNotMatch,
        RepeatedConnection(SessionId),
    }

    #[derive(Debug)]
    pub enum ListenErrorKind {
        IoError(std::io::Error),
    }

    #[derive(Debug)]
    pub enum ProtocolHandleErrorKind {
        AbnormallyClosed(Option<SessionId>),
    }

    #[derive(Debug)]
    pub enum SendErrorKind {
        BrokenPipe,
    }

    macro_rules! display {
        ($($t:ty)*) => {$(
            impl fmt::Display for $t {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    fmt::Debug::fmt(self, f)
                }
            }

            impl std::error::Error for $t {}
        )*};
    }

    display! { TransportErrorKind HandshakeErrorKind DialerErrorKind ListenErrorKind ProtocolHandleErrorKind SendErrorKind }
}

pub mod service {
    use std::os::fd::{AsRawFd, RawFd};
    use std::sync::Arc;
    use std::time::Duration;

    use bytes::Bytes;

    use super::context::SessionContext;
    use super::error::{DialerErrorKind, ListenErrorKind, ProtocolHandleErrorKind, SendErrorKind, TransportErrorKind};
    use super::multiaddr::Multiaddr;
    use super::sim::{Command, Commands};
    use super::traits::{Codec, ServiceProtocol};
    use super::{ProtocolId, SessionId};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum SessionType {
        Outbound,
        Inbound,
    }

    impl SessionType {
        pub fn is_outbound(self) -> bool {
            self == SessionType::Outbound
        }
        pub fn is_inbound(self) -> bool {
            self == SessionType::Inbound
        }
    }

    pub enum TargetSession {
        Single(SessionId),
        Multi(Box<dyn Iterator<Item = SessionId> + Send + 'static>),
        Filter(Box<dyn FnMut(&SessionId) -> bool + Send + 'static>),
        All,
    }

    pub enum TargetProtocol {
        All,
        Single(ProtocolId),
        Filter(Box<dyn Fn(&ProtocolId) -> bool + Sync + Send + 'static>),
    }

    pub enum HandshakeType<T> {
        Secio(T),
        Noop,
    }

    pub enum ProtocolHandle<T> {
        Callback(T),
        None,
    }

    type Result = std::result::Result<(), SendErrorKind>;

    #[derive(Clone)]
    pub struct ServiceAsyncControl(pub(crate) Commands);

    impl ServiceAsyncControl {
        fn put(&self, c: Command) -> Result {
            self.0.lock().unwrap().push_back(c);
            Ok(())
        }
        pub async fn dial(&self, address: Multiaddr, target: TargetProtocol) -> Result {
            self.put(Command::Dial { address, target })
        }
        pub async fn disconnect(&self, session_id: SessionId) -> Result {
            self.put(Command::Disconnect(session_id))
        }
        pub async fn send_message_to(&self, session_id: SessionId, proto_id: ProtocolId, data: Bytes) -> Result {
            self.put(Command::Send { target: TargetSession::Single(session_id), proto_id, data })
        }
        pub async fn quick_send_message_to(&self, session_id: SessionId, proto_id: ProtocolId, data: Bytes) -> Result {
            self.send_message_to(session_id, proto_id, data).await
        }
        pub async fn filter_broadcast(&self, target: TargetSession, proto_id: ProtocolId, data: Bytes) -> Result {
            self.put(Command::Send { target, proto_id, data })
        }
        pub async fn quick_filter_broadcast(&self, target: TargetSession, proto_id: ProtocolId, data: Bytes) -> Result {
            self.filter_broadcast(target, proto_id, data).await
        }
        pub async fn open_protocols(&self, session_id: SessionId, target: TargetProtocol) -> Result {
            self.put(Command::Open { session_id, target })
        }
        pub async fn set_service_notify(&self, proto_id: ProtocolId, interval: Duration, token: u64) -> Result {
            self.put(Command::Notify { proto_id, interval, token })
        }
        pub async fn shutdown(&self) -> Result {
            self.put(Command::Shutdown)
        }
    }

    pub struct ProtocolMeta {
        pub id: ProtocolId,
        pub name: String,
        pub versions: Vec<String>,
        pub before_send: Box<dyn Fn(Bytes) -> Bytes + Send + 'static>,
        pub before_receive: Box<dyn Fn() -> Option<Box<dyn Fn(bytes::BytesMut) -> std::result::Result<Bytes, std::io::Error> + Send + 'static>> + Send + 'static>,
        pub codec: Box<dyn Fn() -> Box<dyn Codec + Send + 'static> + Send + 'static>,
        pub handle: Option<Box<dyn ServiceProtocol + Send + 'static + Unpin>>,
    }

    pub enum ServiceError {
        DialerError { address: Multiaddr, error: DialerErrorKind },
        ListenError { address: Multiaddr, error: ListenErrorKind },
        ProtocolSelectError { proto_name: Option<String>, session_context: Arc<SessionContext> },
        ProtocolError { id: SessionId, proto_id: ProtocolId, error: std::io::Error },
        SessionTimeout { session_context: Arc<SessionContext> },
        MuxerError { session_context: Arc<SessionContext>, error: std::io::Error },
        SessionBlocked { session_context: Arc<SessionContext> },
        ProtocolHandleError { proto_id: ProtocolId, error: ProtocolHandleErrorKind },
    }

    pub enum ServiceEvent {
        ListenClose { address: Multiaddr },
        ListenStarted { address: Multiaddr },
        SessionClose { session_context: Arc<SessionContext> },
        SessionOpen { session_context: Arc<SessionContext> },
    }

    pub struct TcpSocket(RawFd);

    impl AsRawFd for TcpSocket {
        fn as_raw_fd(&self) -> RawFd {
            self.0
        }
    }

    pub struct Service<T, K> {
        pub(crate) control: ServiceAsyncControl,
        pub(crate) kinds: std::marker::PhantomData<fn() -> (T, K)>,
    }

    impl<T, K> Service<T, K> {
        pub fn control(&self) -> &ServiceAsyncControl {
            &self.control
        }
        pub async fn listen(&mut self, address: Multiaddr) -> std::result::Result<Multiaddr, TransportErrorKind> {
            self.control.put(Command::Listen(address.clone())).unwrap();
            Ok(address)
        }
        pub async fn run(&mut self) {
            futures::future::pending::<()>().await
        }
    }
}

pub mod context {
    use std::ops::{Deref, DerefMut};
    use std::sync::Arc;
    use std::time::Duration;

    use bytes::Bytes;

    use super::error::SendErrorKind;
    use super::multiaddr::Multiaddr;
    use super::secio::PublicKey;
    use super::service::{ServiceAsyncControl, SessionType, TargetProtocol, TargetSession};
    use super::{ProtocolId, SessionId};

    #[derive(Clone, Debug)]
    pub struct SessionContext {
        pub id: SessionId,
        pub address: Multiaddr,
        pub ty: SessionType,
        pub remote_pubkey: Option<PublicKey>,
    }

    type Result = std::result::Result<(), SendErrorKind>;

    pub struct ServiceContext {
        listens: Vec<Multiaddr>,
        inner: ServiceAsyncControl,
    }

    impl ServiceContext {
        pub(crate) fn new(inner: ServiceAsyncControl, listens: Vec<Multiaddr>) -> Self {
            ServiceContext { listens, inner }
        }
        pub fn control(&self) -> &ServiceAsyncControl {
            &self.inner
        }
        pub fn listens(&self) -> &Vec<Multiaddr> {
            &self.listens
        }
        pub async fn dial(&self, address: Multiaddr, target: TargetProtocol) -> Result {
            self.inner.dial(address, target).await
        }
        pub async fn disconnect(&self, session_id: SessionId) -> Result {
            self.inner.disconnect(session_id).await
        }
        pub async fn send_message_to(&self, session_id: SessionId, proto_id: ProtocolId, data: Bytes) -> Result {
            self.inner.send_message_to(session_id, proto_id, data).await
        }
        pub async fn quick_send_message_to(&self, session_id: SessionId, proto_id: ProtocolId, data: Bytes) -> Result {
            self.inner.quick_send_message_to(session_id, proto_id, data).await
        }
        pub async fn filter_broadcast(&self, target: TargetSession, proto_id: ProtocolId, data: Bytes) -> Result {
            self.inner.filter_broadcast(target, proto_id, data).await
        }
        pub async fn quick_filter_broadcast(&self, target: TargetSession, proto_id: ProtocolId, data: Bytes) -> Result {
            self.inner.quick_filter_broadcast(target, proto_id, data).await
        }
        pub async fn open_protocols(&self, session_id: SessionId, target: TargetProtocol) -> Result {
            self.inner.open_protocols(session_id, target).await
        }
        pub async fn set_service_notify(&self, proto_id: ProtocolId, interval: Duration, token: u64) -> Result {
            self.inner.set_service_notify(proto_id, interval, token).await
        }
    }

    pub struct ProtocolContext {
        inner: ServiceContext,
        pub proto_id: ProtocolId,
    }

    impl ProtocolContext {
        pub(crate) fn new(inner: ServiceContext, proto_id: ProtocolId) -> Self {
            ProtocolContext { inner, proto_id }
        }
        pub(crate) fn of<'a>(&'a mut self, session: &'a Arc<SessionContext>) -> ProtocolContextMutRef<'a> {
            ProtocolContextMutRef { inner: self, session }
        }
    }

    impl Deref for ProtocolContext {
        type Target = ServiceContext;

        fn deref(&self) -> &ServiceContext {
            &self.inner
        }
    }

    impl DerefMut for ProtocolContext {
        fn deref_mut(&mut self) -> &mut ServiceContext {
            &mut self.inner
        }
    }

    pub struct ProtocolContextMutRef<'a> {
        inner: &'a mut ProtocolContext,
        pub session: &'a SessionContext,
    }

    impl<'a> ProtocolContextMutRef<'a> {
        pub async fn send_message(&self, data: Bytes) -> Result {
            self.inner.send_message_to(self.session.id, self.inner.proto_id, data).await
        }
        pub async fn quick_send_message(&self, data: Bytes) -> Result {
            self.send_message(data).await
        }
        pub fn proto_id(&self) -> ProtocolId {
            self.inner.proto_id
        }
    }

    impl<'a> Deref for ProtocolContextMutRef<'a> {
        type Target = ProtocolContext;

        fn deref(&self) -> &ProtocolContext {
            self.inner
        }
    }

    impl<'a> DerefMut for ProtocolContextMutRef<'a> {
        fn deref_mut(&mut self) -> &mut ProtocolContext {
            self.inner
        }
    }
}

pub mod traits {
    use std::io;

    use bytes::{Bytes, BytesMut};
    use tokio_util::codec::{Decoder, Encoder};

    use super::context::{ProtocolContext, ProtocolContextMutRef, ServiceContext};
    use super::service::{ServiceError, ServiceEvent};

    pub trait Codec: Decoder<Item = BytesMut, Error = io::Error> + Encoder<Bytes, Error = io::Error> {}

    impl<T: Decoder<Item = BytesMut, Error = io::Error> + Encoder<Bytes, Error = io::Error>> Codec for T {}

    #[async_trait::async_trait]
    pub trait ServiceHandle: Send {
        async fn handle_error(&mut self, _control: &mut ServiceContext, _error: ServiceError) {}
        async fn handle_event(&mut self, _control: &mut ServiceContext, _event: ServiceEvent) {}
    }

    #[async_trait::async_trait]
    pub trait ServiceProtocol: Send {
        async fn init(&mut self, context: &mut ProtocolContext);
        async fn connected(&mut self, _context: ProtocolContextMutRef<'_>, _version: &str) {}
        async fn disconnected(&mut self, _context: ProtocolContextMutRef<'_>) {}
        async fn received(&mut self, _context: ProtocolContextMutRef<'_>, _data: Bytes) {}
        async fn notify(&mut self, _context: &mut ProtocolContext, _token: u64) {}
    }
}

pub mod builder {
    use std::io;
    use std::marker::PhantomData;
    use std::time::Duration;

    use bytes::{Bytes, BytesMut};

    use super::secio::KeyProvider;
    use super::service::{HandshakeType, ProtocolHandle, ProtocolMeta, Service, ServiceAsyncControl, TcpSocket};
    use super::sim::{self, Parts};
    use super::traits::{Codec, ServiceHandle, ServiceProtocol};
    use super::yamux::Config;
    use super::ProtocolId;

    pub struct MetaBuilder {
        id: ProtocolId,
        name: Box<dyn Fn(ProtocolId) -> String>,
        meta: ProtocolMeta,
    }

    impl Default for MetaBuilder {
        fn default() -> Self {
            MetaBuilder {
                id: 0.into(),
                name: Box::new(|id| format!("/p2p/{}", id.value())),
                meta: ProtocolMeta {
                    id: 0.into(),
                    name: String::new(),
                    versions: vec!["0.0.1".to_owned()],
                    before_send: Box::new(|d| d),
                    before_receive: Box::new(|| None),
                    codec: Box::new(|| Box::new(tokio_util::codec::LengthDelimitedCodec::new())),
                    handle: None,
                },
            }
        }
    }

    impl MetaBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn id(mut self, id: ProtocolId) -> Self {
            self.id = id;
            self
        }
        pub fn name<T: Fn(ProtocolId) -> String + 'static + Send>(mut self, name: T) -> Self {
            self.name = Box::new(name);
            self
        }
        pub fn support_versions<T: Into<Vec<String>>>(mut self, versions: T) -> Self {
            self.meta.versions = versions.into();
            self
        }
        pub fn codec<T: Fn() -> Box<dyn Codec + Send + 'static> + 'static + Send>(mut self, codec: T) -> Self {
            self.meta.codec = Box::new(codec);
            self
        }
        pub fn before_send<T: Fn(Bytes) -> Bytes + Send + 'static>(mut self, f: T) -> Self {
            self.meta.before_send = Box::new(f);
            self
        }
        pub fn before_receive<T>(mut self, f: T) -> Self
        where
            T: Fn() -> Option<Box<dyn Fn(BytesMut) -> Result<Bytes, io::Error> + Send + 'static>> + Send + 'static,
        {
            self.meta.before_receive = Box::new(f);
            self
        }
        pub fn service_handle<T>(mut self, f: T) -> Self
        where
            T: FnOnce() -> ProtocolHandle<Box<dyn ServiceProtocol + Send + 'static + Unpin>>,
        {
            self.meta.handle = match f() {
                ProtocolHandle::Callback(h) => Some(h),
                ProtocolHandle::None => None,
            };
            self
        }
        pub fn build(mut self) -> ProtocolMeta {
            self.meta.id = self.id;
            self.meta.name = (self.name)(self.id);
            self.meta
        }
    }

    pub struct ServiceBuilder<K> {
        metas: Vec<ProtocolMeta>,
        max_connections: usize,
        kinds: PhantomData<fn() -> K>,
    }

    impl<K: KeyProvider> Default for ServiceBuilder<K> {
        fn default() -> Self {
            Self::new()
        }
    }

    impl<K: KeyProvider> ServiceBuilder<K> {
        pub fn new() -> Self {
            ServiceBuilder { metas: vec![], max_connections: 65535, kinds: PhantomData }
        }
        pub fn insert_protocol(mut self, meta: ProtocolMeta) -> Self {
            self.metas.retain(|m| m.name != meta.name);
            self.metas.push(meta);
            self
        }
        pub fn handshake_type(self, _: HandshakeType<K>) -> Self {
            self
        }
        pub fn yamux_config(self, _: Config) -> Self {
            self
        }
        pub fn forever(self, _: bool) -> Self {
            self
        }
        pub fn max_connection_number(mut self, n: usize) -> Self {
            self.max_connections = n;
            self
        }
        pub fn set_send_buffer_size(self, _: usize) -> Self {
            self
        }
        pub fn set_recv_buffer_size(self, _: usize) -> Self {
            self
        }
        pub fn set_channel_size(self, _: usize) -> Self {
            self
        }
        pub fn timeout(self, _: Duration) -> Self {
            self
        }
        pub fn tcp_config<F>(self, _: F) -> Self
        where
            F: Fn(TcpSocket) -> Result<TcpSocket, io::Error> + Send + Sync + 'static,
        {
            self
        }
        pub fn build<H: ServiceHandle + 'static>(self, handle: H) -> Service<H, K> {
            let control = ServiceAsyncControl(Default::default());
            sim::LAST.with(|l| {
                *l.borrow_mut() = Some(Parts {
                    control: control.clone(),
                    metas: self.metas,
                    handle: Box::new(handle) as Box<dyn sim::AnyHandle>,
                    max_connections: self.max_connections,
                })
            });
            Service { control, kinds: PhantomData }
        }
    }
}

pub mod yamux {
    #[derive(Clone, Default)]
    pub struct Config {
        pub max_stream_count: usize,
        pub max_stream_window_size: u32,
        pub accept_backlog: u32,
    }
}

pub mod runtime {
    use futures::FutureExt;
    use std::future::Future;
    use std::panic::AssertUnwindSafe;

    /// Spawns a task. A panic of the task, which would end the node, is kept for the check.
    pub fn spawn<F>(f: F) -> tokio::task::JoinHandle<()>
    where
        F: Future<Output = ()> + Send + 'static,
    {
        tokio::spawn(async move {
            if let Err(e) = AssertUnwindSafe(f).catch_unwind().await {
                let text = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                super::sim::PANICS.with(|p| p.borrow_mut().push(text.unwrap_or_default()));
            }
        })
    }
}

pub mod utils {
    use std::net::{IpAddr, SocketAddr};

    use super::multiaddr::{Multiaddr, Protocol};
    use super::secio::PeerId;

    /// The first IP address directly followed by a TCP port.
    pub fn multiaddr_to_socketaddr(addr: &Multiaddr) -> Option<SocketAddr> {
        let mut iter = addr.iter().peekable();
        while let Some(p) = iter.next() {
            let ip = match p {
                Protocol::Ip4(ip) => IpAddr::V4(ip),
                Protocol::Ip6(ip) => IpAddr::V6(ip),
                _ => continue,
            };
            match iter.peek() {
                Some(Protocol::Tcp(port)) => return Some(SocketAddr::new(ip, *port)),
                _ => continue,
            }
        }
        None
    }

    pub fn extract_peer_id(addr: &Multiaddr) -> Option<PeerId> {
        addr.iter().find_map(|p| match p {
            Protocol::P2P(id) => PeerId::from_bytes(id.into_owned()).ok(),
            _ => None,
        })
    }

    pub fn is_reachable(ip: IpAddr) -> bool {
        match ip {
            IpAddr::V4(ip) => {
                !ip.is_private() && !ip.is_loopback() && !ip.is_link_local() && !ip.is_broadcast() && !ip.is_documentation() && !ip.is_unspecified()
            }
            IpAddr::V6(ip) => {
                let first = ip.segments()[0];
                !(ip.is_loopback() || ip.is_unspecified() || ip.is_multicast() || first & 0xfe00 == 0xfc00 || first & 0xffc0 == 0xfe80)
            }
        }
    }

    pub mod dns {
        use super::Multiaddr;
        use std::future::Future;
        use std::pin::Pin;
        use std::task::{Context, Poll};

        pub struct DnsResolver;

        impl DnsResolver {
            pub fn new(_: Multiaddr) -> Option<DnsResolver> {
                None
            }
        }

        impl Future for DnsResolver {
            type Output = Result<Multiaddr, (Multiaddr, std::io::Error)>;

            fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
                Poll::Pending
            }
        }
    }
}

/// What a check uses to be the network.
pub mod sim {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::sync::{Arc, Mutex};
    use std::time::Duration;

    use bytes::{Bytes, BytesMut};

    use super::context::{ProtocolContext, ServiceContext, SessionContext};
    use super::multiaddr::Multiaddr;
    use super::service::{ProtocolMeta, ServiceAsyncControl, ServiceError, ServiceEvent, TargetProtocol, TargetSession};
    use super::traits::ServiceHandle;
    use super::{ProtocolId, SessionId};

    pub enum Command {
        Dial { address: Multiaddr, target: TargetProtocol },
        Disconnect(SessionId),
        Send { target: TargetSession, proto_id: ProtocolId, data: Bytes },
        Open { session_id: SessionId, target: TargetProtocol },
        Notify { proto_id: ProtocolId, interval: Duration, token: u64 },
        Listen(Multiaddr),
        Shutdown,
    }

    pub(crate) type Commands = Arc<Mutex<VecDeque<Command>>>;

    pub trait AnyHandle: ServiceHandle {
        fn as_any(&self) -> &dyn std::any::Any;
    }

    impl<T: ServiceHandle + 'static> AnyHandle for T {
        fn as_any(&self) -> &dyn std::any::Any {
            self
        }
    }

    /// What a node handed to the transport when it was built.
    pub struct Parts {
        pub control: ServiceAsyncControl,
        pub metas: Vec<ProtocolMeta>,
        pub handle: Box<dyn AnyHandle>,
        pub max_connections: usize,
    }

    thread_local! {
        pub(crate) static LAST: RefCell<Option<Parts>> = RefCell::new(None);
        pub static PANICS: RefCell<Vec<String>> = RefCell::new(vec![]);
    }

    /// The parts of the node this thread built last.
    pub fn take() -> Option<Parts> {
        LAST.with(|l| l.borrow_mut().take())
    }

    impl Parts {
        pub fn next_command(&self) -> Option<Command> {
            self.control.0.lock().unwrap().pop_front()
        }

        pub fn service_context(&self, listens: Vec<Multiaddr>) -> ServiceContext {
            ServiceContext::new(self.control.clone(), listens)
        }

        fn meta(&mut self, proto: ProtocolId) -> Option<&mut ProtocolMeta> {
            self.metas.iter_mut().find(|m| m.id == proto)
        }

        pub fn matching(&self, target: &TargetProtocol) -> Vec<ProtocolId> {
            self.metas
                .iter()
                .map(|m| m.id)
                .filter(|id| match target {
                    TargetProtocol::All => true,
                    TargetProtocol::Single(p) => p == id,
                    TargetProtocol::Filter(f) => f(id),
                })
                .collect()
        }

        /// The bytes that go onto the stream.
        pub fn frame(&mut self, proto: ProtocolId, data: Bytes) -> std::io::Result<BytesMut> {
            let meta = self.meta(proto).expect("protocol");
            let data = (meta.before_send)(data);
            let mut out = BytesMut::new();
            (meta.codec)().encode(data, &mut out)?;
            Ok(out)
        }

        /// The message in the bytes that came from the stream.
        pub fn unframe(&mut self, proto: ProtocolId, mut frame: BytesMut) -> std::io::Result<Option<Bytes>> {
            let meta = self.meta(proto).expect("protocol");
            match (meta.codec)().decode(&mut frame)? {
                None => Ok(None),
                Some(data) => match (meta.before_receive)() {
                    Some(f) => f(data).map(Some),
                    None => Ok(Some(data.freeze())),
                },
            }
        }

        fn context(&self, proto: ProtocolId, listens: &[Multiaddr]) -> ProtocolContext {
            ProtocolContext::new(self.service_context(listens.to_vec()), proto)
        }

        pub async fn init(&mut self, listens: &[Multiaddr]) {
            for i in 0..self.metas.len() {
                let mut cx = self.context(self.metas[i].id, listens);
                if let Some(h) = self.metas[i].handle.as_mut() {
                    h.init(&mut cx).await
                }
            }
        }

        pub async fn connected(&mut self, proto: ProtocolId, listens: &[Multiaddr], session: &Arc<SessionContext>) {
            let mut cx = self.context(proto, listens);
            let meta = self.meta(proto).expect("protocol");
            let version = meta.versions[0].clone();
            if let Some(h) = meta.handle.as_mut() {
                h.connected(cx.of(session), &version).await
            }
        }

        pub async fn disconnected(&mut self, proto: ProtocolId, listens: &[Multiaddr], session: &Arc<SessionContext>) {
            let mut cx = self.context(proto, listens);
            if let Some(h) = self.meta(proto).expect("protocol").handle.as_mut() {
                h.disconnected(cx.of(session)).await
            }
        }

        pub async fn received(&mut self, proto: ProtocolId, listens: &[Multiaddr], session: &Arc<SessionContext>, data: Bytes) {
            let mut cx = self.context(proto, listens);
            if let Some(h) = self.meta(proto).expect("protocol").handle.as_mut() {
                h.received(cx.of(session), data).await
            }
        }

        pub async fn notify(&mut self, proto: ProtocolId, listens: &[Multiaddr], token: u64) {
            let mut cx = self.context(proto, listens);
            if let Some(h) = self.meta(proto).expect("protocol").handle.as_mut() {
                h.notify(&mut cx, token).await
            }
        }

        pub async fn event(&mut self, listens: &[Multiaddr], event: ServiceEvent) {
            let mut cx = self.service_context(listens.to_vec());
            (*self.handle).handle_event(&mut cx, event).await
        }

        pub async fn error(&mut self, listens: &[Multiaddr], error: ServiceError) {
            let mut cx = self.service_context(listens.to_vec());
            (*self.handle).handle_error(&mut cx, error).await
        }
    }
}
