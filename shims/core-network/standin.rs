//! Stands in for core/network (its transport, tentacle, is not available offline) under the crates
//! that only need its context and its peer identities.
use protocol::traits::Context;
use protocol::types::{Bytes, Hasher};
use protocol::{Display, ProtocolError, ProtocolErrorKind};

#[derive(Debug, Display)]
pub enum NetworkError {
    #[display(fmt = "cannot decode peer id")]
    InvalidPeerId,
    #[display(fmt = "session id not found in context")]
    NoSessionId,
    #[display(fmt = "no rpc id in context")]
    NoRpcId,
    #[display(fmt = "remote response {}", _0)]
    RemoteResponse(String),
    #[display(fmt = "rpc timeout")]
    Timeout,
}

impl std::error::Error for NetworkError {}

impl From<NetworkError> for ProtocolError {
    fn from(err: NetworkError) -> ProtocolError {
        ProtocolError::new(ProtocolErrorKind::Network, Box::new(err))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct SessionId(usize);

impl SessionId {
    pub fn new(v: usize) -> SessionId {
        SessionId(v)
    }
    pub fn value(self) -> usize {
        self.0
    }
}

impl From<usize> for SessionId {
    fn from(v: usize) -> SessionId {
        SessionId(v)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PeerId(Vec<u8>);

pub trait PeerIdExt {
    fn from_pubkey_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> {
        Ok(PeerId(Hasher::digest(bytes.as_ref()).0.to_vec()))
    }
    fn from_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> {
        Ok(PeerId(bytes.as_ref().to_vec()))
    }
    fn into_bytes_ext(self) -> Bytes;
}

impl PeerIdExt for PeerId {
    fn into_bytes_ext(self) -> Bytes {
        Bytes::from(self.0)
    }
}

pub trait NetworkContext: Sized {
    fn session_id(&self) -> Result<SessionId, NetworkError>;
    fn set_session_id(&mut self, sid: SessionId) -> Self;
}

impl NetworkContext for Context {
    fn session_id(&self) -> Result<SessionId, NetworkError> {
        self.get::<usize>("session_id").map(|v| SessionId(*v)).ok_or(NetworkError::NoSessionId)
    }
    fn set_session_id(&mut self, sid: SessionId) -> Self {
        self.with_value::<usize>("session_id", sid.value())
    }
}

#[cfg(feature = "service")]
mod service;
#[cfg(feature = "service")]
pub use service::*;
