//! Stand-in for jsonrpsee 0.20's server half (its core and server crates are not available offline).
//!
//! Requests are answered without a transport: [`standin::started`] gives the methods of the servers
//! started on this thread. The macros and the types (parameters, errors) are the real ones.
pub use jsonrpsee_types as types;
pub use tracing;
pub use tokio;

pub mod proc_macros {
    pub use jsonrpsee_proc_macros::rpc;
}

pub mod core {
    pub type RpcResult<T> = Result<T, jsonrpsee_types::ErrorObjectOwned>;
    pub mod __reexports {
        pub use async_trait::async_trait;
        pub use serde;
    }
    pub mod server {
        pub use crate::server::*;
    }
}

pub use server::*;

pub mod server {
    use std::collections::HashMap;
    use std::future::Future;
    use std::net::{SocketAddr, ToSocketAddrs};
    use std::ops::{Deref, DerefMut};
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::{Arc, Mutex};

    use futures::future::BoxFuture;
    use jsonrpsee_types::{ErrorObjectOwned, Params, ResponsePayload, SubscriptionId};
    use serde::Serialize;
    use tokio::sync::mpsc;

    /// A result as JSON text, or an error.
    pub type Answer = Result<String, ErrorObjectOwned>;

    pub trait IntoResponse {
        type Output: Serialize + Clone + 'static;

        fn into_response(self) -> ResponsePayload<'static, Self::Output>;
    }

    impl<T: Serialize + Clone + 'static, E: Into<ErrorObjectOwned>> IntoResponse for Result<T, E> {
        type Output = T;

        fn into_response(self) -> ResponsePayload<'static, T> {
            match self {
                Ok(v) => ResponsePayload::result(v),
                Err(e) => ResponsePayload::Error(e.into()),
            }
        }
    }

    impl<T: Serialize + Clone + 'static> IntoResponse for ResponsePayload<'static, T> {
        type Output = T;

        fn into_response(self) -> ResponsePayload<'static, T> {
            self
        }
    }

    fn answer<R: IntoResponse>(r: R) -> Answer {
        match r.into_response() {
            ResponsePayload::Result(v) => Ok(serde_json::to_string(&*v).expect("JSON")),
            ResponsePayload::Error(e) => Err(e),
        }
    }

    #[derive(Debug)]
    pub struct RegisterMethodError(pub String);

    pub trait IdProvider: Send + Sync + std::fmt::Debug {
        fn next_id(&self) -> SubscriptionId<'static>;
    }

    /// What a connection keeps: its outgoing notifications and its subscriptions.
    #[derive(Clone)]
    pub struct Connection {
        pub out: mpsc::Sender<String>,
        pub ids: Arc<dyn IdProvider>,
        pub subs: Arc<Mutex<HashMap<String, Arc<AtomicBool>>>>,
    }

    type Call = Arc<dyn Fn(Params<'static>, Option<Connection>) -> BoxFuture<'static, Answer> + Send + Sync>;

    #[derive(Clone, Default)]
    pub struct Methods {
        map: HashMap<&'static str, Call>,
    }

    impl Methods {
        pub fn merge(&mut self, other: impl Into<Methods>) -> Result<(), RegisterMethodError> {
            let other = other.into();
            for n in other.map.keys() {
                if self.map.contains_key(n) {
                    return Err(RegisterMethodError(n.to_string()));
                }
            }
            self.map.extend(other.map);
            Ok(())
        }

        pub fn method_names(&self) -> impl Iterator<Item = &'static str> + '_ {
            self.map.keys().copied()
        }

        /// Answers one request; `params` is JSON text.
        pub fn call(&self, method: &str, params: Option<&str>, conn: Option<Connection>) -> BoxFuture<'static, Answer> {
            match self.map.get(method) {
                Some(c) => c(Params::new(params).into_owned(), conn),
                None => Box::pin(async { Err(jsonrpsee_types::error::ErrorCode::MethodNotFound.into()) }),
            }
        }

        fn put(&mut self, name: &'static str, c: Call) -> Result<(), RegisterMethodError> {
            if self.map.insert(name, c).is_some() {
                return Err(RegisterMethodError(name.to_string()));
            }
            Ok(())
        }
    }

    pub struct RpcModule<C> {
        ctx: Arc<C>,
        methods: Methods,
    }

    impl<C> Clone for RpcModule<C> {
        fn clone(&self) -> Self {
            RpcModule { ctx: Arc::clone(&self.ctx), methods: self.methods.clone() }
        }
    }

    impl<C> Deref for RpcModule<C> {
        type Target = Methods;

        fn deref(&self) -> &Methods {
            &self.methods
        }
    }

    impl<C> DerefMut for RpcModule<C> {
        fn deref_mut(&mut self) -> &mut Methods {
            &mut self.methods
        }
    }

    impl<C> From<RpcModule<C>> for Methods {
        fn from(m: RpcModule<C>) -> Methods {
            m.methods
        }
    }

    impl<C: Send + Sync + 'static> RpcModule<C> {
        pub fn new(ctx: C) -> Self {
            RpcModule { ctx: Arc::new(ctx), methods: Methods::default() }
        }

        pub fn register_method<R, F>(&mut self, name: &'static str, f: F) -> Result<(), RegisterMethodError>
        where
            R: IntoResponse + 'static,
            F: Fn(Params, &C) -> R + Send + Sync + 'static,
        {
            let ctx = Arc::clone(&self.ctx);
            self.methods.put(
                name,
                Arc::new(move |p, _| {
                    let r = answer(f(p, &ctx));
                    Box::pin(async move { r })
                }),
            )
        }

        pub fn register_blocking_method<R, F>(&mut self, name: &'static str, f: F) -> Result<(), RegisterMethodError>
        where
            R: IntoResponse + 'static,
            F: Fn(Params, Arc<C>) -> R + Send + Sync + 'static,
        {
            let ctx = Arc::clone(&self.ctx);
            self.methods.put(
                name,
                Arc::new(move |p, _| {
                    let r = answer(f(p, Arc::clone(&ctx)));
                    Box::pin(async move { r })
                }),
            )
        }

        pub fn register_async_method<R, Fut, F>(&mut self, name: &'static str, f: F) -> Result<(), RegisterMethodError>
        where
            R: IntoResponse + 'static,
            Fut: Future<Output = R> + Send,
            F: Fn(Params<'static>, Arc<C>) -> Fut + Clone + Send + Sync + 'static,
        {
            let ctx = Arc::clone(&self.ctx);
            self.methods.put(
                name,
                Arc::new(move |p, _| {
                    let f = f.clone();
                    let ctx = Arc::clone(&ctx);
                    Box::pin(async move { answer(f(p, ctx).await) })
                }),
            )
        }

        pub fn register_alias(&mut self, alias: &'static str, name: &'static str) -> Result<(), RegisterMethodError> {
            match self.methods.map.get(name).cloned() {
                Some(c) => self.methods.put(alias, c),
                None => Err(RegisterMethodError(name.to_string())),
            }
        }

        pub fn register_subscription<R, F, Fut>(&mut self, subscribe: &'static str, notif: &'static str, unsubscribe: &'static str, f: F) -> Result<(), RegisterMethodError>
        where
            F: Fn(Params<'static>, PendingSubscriptionSink, Arc<C>) -> Fut + Send + Sync + Clone + 'static,
            Fut: Future<Output = R> + Send + 'static,
            R: IntoSubscriptionCloseResponse + Send,
        {
            let ctx = Arc::clone(&self.ctx);
            self.methods.put(
                subscribe,
                Arc::new(move |p, conn| {
                    let f = f.clone();
                    let ctx = Arc::clone(&ctx);
                    Box::pin(async move {
                        let Some(conn) = conn else {
                            return Err(jsonrpsee_types::error::ErrorCode::InternalError.into());
                        };
                        let (tx, rx) = tokio::sync::oneshot::channel();
                        let id = conn.ids.next_id();
                        let pending = PendingSubscriptionSink { conn, id, notif, tx };
                        f(p, pending, ctx).await;
                        rx.await.unwrap_or_else(|_| Err(jsonrpsee_types::error::ErrorCode::InternalError.into()))
                    })
                }),
            )?;
            self.methods.put(
                unsubscribe,
                Arc::new(move |p, conn| {
                    Box::pin(async move {
                        let Some(conn) = conn else {
                            return Err(jsonrpsee_types::error::ErrorCode::InternalError.into());
                        };
                        let id: SubscriptionId<'_> = p.one()?;
                        let was = conn.subs.lock().unwrap().remove(&serde_json::to_string(&id).unwrap());
                        if let Some(open) = &was {
                            open.store(false, SeqCst);
                        }
                        Ok(was.is_some().to_string())
                    })
                }),
            )
        }
    }

    pub enum SubscriptionCloseResponse {
        None,
        Notif(SubscriptionMessage),
        NotifErr(SubscriptionMessage),
    }

    pub trait IntoSubscriptionCloseResponse {
        fn into_response(self) -> SubscriptionCloseResponse;
    }

    #[derive(Debug)]
    pub struct StringError(pub String);

    impl<T: ToString> From<T> for StringError {
        fn from(v: T) -> Self {
            StringError(v.to_string())
        }
    }

    impl IntoSubscriptionCloseResponse for Result<(), StringError> {
        fn into_response(self) -> SubscriptionCloseResponse {
            SubscriptionCloseResponse::None
        }
    }

    #[derive(Debug, Clone)]
    pub struct SubscriptionMessage(pub String);

    impl SubscriptionMessage {
        pub fn from_json(v: &impl Serialize) -> Result<Self, serde_json::Error> {
            serde_json::to_string(v).map(SubscriptionMessage)
        }
    }

    #[derive(Debug)]
    pub struct PendingSubscriptionAcceptError;

    impl std::fmt::Display for PendingSubscriptionAcceptError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("the remote peer closed the connection")
        }
    }

    pub struct PendingSubscriptionSink {
        conn: Connection,
        id: SubscriptionId<'static>,
        notif: &'static str,
        tx: tokio::sync::oneshot::Sender<Answer>,
    }

    impl PendingSubscriptionSink {
        pub async fn reject(self, e: impl Into<ErrorObjectOwned>) {
            let _ = self.tx.send(Err(e.into()));
        }

        pub async fn accept(self) -> Result<SubscriptionSink, PendingSubscriptionAcceptError> {
            let id = serde_json::to_string(&self.id).unwrap();
            let open = Arc::new(AtomicBool::new(true));
            self.conn.subs.lock().unwrap().insert(id.clone(), Arc::clone(&open));
            self.tx.send(Ok(id.clone())).map_err(|_| PendingSubscriptionAcceptError)?;
            Ok(SubscriptionSink { out: self.conn.out, id, notif: self.notif, open })
        }
    }

    #[derive(Debug)]
    pub struct DisconnectError(pub SubscriptionMessage);

    #[derive(Debug)]
    pub enum TrySendError {
        Closed(SubscriptionMessage),
        Full(SubscriptionMessage),
    }

    pub struct SubscriptionSink {
        out: mpsc::Sender<String>,
        id: String,
        notif: &'static str,
        open: Arc<AtomicBool>,
    }

    impl SubscriptionSink {
        fn json(&self, m: &SubscriptionMessage) -> String {
            format!(r#"{{"jsonrpc":"2.0","method":"{}","params":{{"subscription":{},"result":{}}}}}"#, self.notif, self.id, m.0)
        }

        /// Like the real one, does nothing until it is awaited.
        pub async fn send(&self, m: SubscriptionMessage) -> Result<(), DisconnectError> {
            if self.is_closed() {
                return Err(DisconnectError(m));
            }
            self.out.send(self.json(&m)).await.map_err(|_| DisconnectError(m))
        }

        pub fn try_send(&mut self, m: SubscriptionMessage) -> Result<(), TrySendError> {
            if self.is_closed() {
                return Err(TrySendError::Closed(m));
            }
            self.out.try_send(self.json(&m)).map_err(|e| match e {
                mpsc::error::TrySendError::Full(_) => TrySendError::Full(m),
                mpsc::error::TrySendError::Closed(_) => TrySendError::Closed(m),
            })
        }

        pub fn is_closed(&self) -> bool {
            self.out.is_closed() || !self.open.load(SeqCst)
        }

        pub async fn closed(&self) {
            self.out.closed().await
        }
    }

    #[derive(Clone)]
    pub struct ServerHandle;

    /// A server that was started.
    #[derive(Clone)]
    pub struct Started {
        pub addr: SocketAddr,
        pub http: bool,
        pub ws: bool,
        pub methods: Methods,
        pub ids: Arc<dyn IdProvider>,
    }

    #[derive(Debug)]
    struct Counter(std::sync::atomic::AtomicU64);

    impl IdProvider for Counter {
        fn next_id(&self) -> SubscriptionId<'static> {
            SubscriptionId::Num(self.0.fetch_add(1, SeqCst))
        }
    }

    pub struct ServerBuilder {
        http: bool,
        ws: bool,
        ids: Arc<dyn IdProvider>,
    }

    impl Default for ServerBuilder {
        fn default() -> Self {
            Self::new()
        }
    }

    impl ServerBuilder {
        pub fn new() -> Self {
            ServerBuilder { http: true, ws: true, ids: Arc::new(Counter(Default::default())) }
        }

        pub fn http_only(mut self) -> Self {
            self.ws = false;
            self
        }

        pub fn ws_only(mut self) -> Self {
            self.http = false;
            self
        }

        pub fn max_request_body_size(self, _: u32) -> Self {
            self
        }

        pub fn max_response_body_size(self, _: u32) -> Self {
            self
        }

        pub fn max_connections(self, _: u32) -> Self {
            self
        }

        pub fn set_middleware<T>(self, _: T) -> Self {
            self
        }

        pub fn set_id_provider<I: IdProvider + 'static>(mut self, i: I) -> Self {
            self.ids = Arc::new(i);
            self
        }

        pub async fn build(self, addr: impl ToSocketAddrs) -> Result<Server, std::io::Error> {
            let addr = addr.to_socket_addrs()?.next().expect("an address");
            Ok(Server { addr, b: self })
        }
    }

    pub struct Server {
        addr: SocketAddr,
        b: ServerBuilder,
    }

    impl Server {
        pub fn start(self, methods: impl Into<Methods>) -> ServerHandle {
            let s = Started { addr: self.addr, http: self.b.http, ws: self.b.ws, methods: methods.into(), ids: self.b.ids };
            if let Some(f) = super::standin::ON_START.lock().unwrap().as_ref() {
                f(s.clone());
            }
            super::standin::STARTED.with(|v| v.borrow_mut().push(s));
            ServerHandle
        }
    }
}

/// The way in for tests.
pub mod standin {
    use std::cell::RefCell;

    thread_local! {
        pub(crate) static STARTED: RefCell<Vec<super::server::Started>> = RefCell::new(vec![]);
    }

    type OnStart = Box<dyn Fn(super::server::Started) + Send>;

    /// Called for every server started, on whatever thread.
    pub static ON_START: std::sync::Mutex<Option<OnStart>> = std::sync::Mutex::new(None);

    /// The servers started on this thread since this was last asked.
    pub fn started() -> Vec<super::server::Started> {
        STARTED.with(|s| std::mem::take(&mut *s.borrow_mut()))
    }
}
