//! Stands in for common/apm (metrics, tracing), whose dependencies are not available offline. It
//! records nothing and decides nothing: only the names the rest of the code uses are here.
pub use common_apm_derive::{metrics_rpc, trace_span};
pub use std::time::Instant;
pub use tracing::TraceId;

pub mod metrics {
    use std::time::Duration;

    pub fn duration_to_sec(d: Duration) -> f64 {
        d.as_secs_f64()
    }

    #[derive(Default)]
    pub struct Nop;

    impl Nop {
        pub fn inc(&self) {}
        pub fn dec(&self) {}
        pub fn inc_by<T>(&self, _: T) {}
        pub fn set<T>(&self, _: T) {}
        pub fn observe<T>(&self, _: T) {}
        pub fn with_label_values(&self, _: &[&str]) -> &Nop {
            self
        }
    }

    macro_rules! vecs {
        ($($name:ident { $($f:ident),* $(,)? })*) => {$(
            #[derive(Default)]
            pub struct $name { $(pub $f: crate::metrics::Nop),* }
        )*};
    }
    macro_rules! statics {
        ($($name:ident: $t:ty),* $(,)?) => { lazy_static::lazy_static! { $(pub static ref $name: $t = Default::default();)* } };
    }

    #[allow(non_snake_case)]
    pub mod api {
        use super::Nop;
        #[derive(Default)]
        pub struct Outcome {
            pub success: Nop,
            pub failure: Nop,
        }
        macro_rules! kinds {
            ($($f:ident)*) => {
                #[derive(Default)]
                pub struct Results { $(pub $f: Outcome),* }
                #[derive(Default)]
                pub struct Times { $(pub $f: Nop),* }
            };
        }
        kinds! {
            eth_sendRawTransaction
            eth_getTransactionByHash
            eth_getBlockByNumber
            eth_blockNumber
            eth_getBlockByHash
            eth_getTransactionCount
            eth_getBlockTransactionCountByNumber
            eth_getBalance
            eth_call
            eth_estimateGas
            eth_chainId
            net_version
            eth_getCode
            eth_getTransactionReceipt
            net_peerCount
            net_listening
            eth_gasPrice
            eth_syncing
            eth_getLogs
            get_block
            eth_mining
            eth_feeHistory
            web3_clientVersion
            eth_accounts
            web3_sha3
            eth_getBlockTransactionCountByHash
            eth_getTransactionByBlockHashAndIndex
            eth_getTransactionByBlockNumberAndIndex
            eth_getStorageAt
            eth_protocolVersion
            eth_getUncleByBlockHashAndIndex
            eth_getUncleByBlockNumberAndIndex
            eth_getUncleCountByBlockHash
            eth_getUncleCountByBlockNumber
            eth_getProof
        }
        statics! {
            API_REQUEST_RESULT_COUNTER_VEC_STATIC: Results,
            API_REQUEST_TIME_HISTOGRAM_STATIC: Times,
        }
    }

    pub mod consensus {
        use super::Nop;
        vecs! {
            Check { check_block_cost, get_txs_cost, write_wal_cost }
            Time { commit, exec, block }
            Outcome { success, failure }
        }
        #[derive(Default)]
        pub struct Results {
            pub get_block_from_remote: Outcome,
        }
        statics! {
            CONSENSUS_RESULT_COUNTER_VEC_STATIC: Results,
            CONSENSUS_TIME_HISTOGRAM_VEC_STATIC: Time,
            CONSENSUS_CHECK_BLOCK_HISTOGRAM_VEC_STATIC: Check,
            ENGINE_ROUND_GAUGE: Nop,
            ENGINE_HEIGHT_GAUGE: Nop,
            ENGINE_EXECUTING_BLOCK_GAUGE: Nop,
            ENGINE_COMMITTED_TX_COUNTER: Nop,
            ENGINE_ORDER_TX_GAUGE: Nop,
            ENGINE_SYNC_TX_GAUGE: Nop,
            ENGINE_SYNC_BLOCK_COUNTER: Nop,
            ENGINE_SYNC_BLOCK_HISTOGRAM: Nop,
            ENGINE_CONSENSUS_COST_TIME: Nop,
        }
    }

    pub mod mempool {
        use super::Nop;
        vecs! {
            Kinds { insert_tx_from_p2p, package, current_size }
            Outcome { success, failure }
        }
        #[derive(Default)]
        pub struct Results {
            pub insert_tx_from_p2p: Outcome,
            pub package:            Outcome,
            pub current_size:       Outcome,
        }
        statics! {
            MEMPOOL_COUNTER_STATIC: Kinds,
            MEMPOOL_RESULT_COUNTER_STATIC: Results,
            MEMPOOL_TIME_STATIC: Kinds,
            MEMPOOL_PACKAGE_SIZE_VEC_STATIC: Kinds,
            MEMPOOL_CURRENT_SIZE_VEC_STATIC: Kinds,
            MEMPOOL_LEN_GAUGE: Nop,
            MEMPOOL_CO_QUEUE_LEN: Nop,
        }
    }

    pub mod storage {
        use protocol::traits::StorageCategory;
        use std::time::Duration;
        pub fn on_storage_get_state(_: Duration, _: f64) {}
        pub fn on_storage_put_state(_: Duration, _: f64) {}
        pub fn on_storage_get_cf(_: StorageCategory, _: Duration, _: f64) {}
        pub fn on_storage_put_cf(_: StorageCategory, _: Duration, _: f64) {}
    }

    pub mod network {
        use super::Nop;
        vecs! {
            Outcome { success, timeout }
            Kinds { rpc }
        }
        statics! {
            NETWORK_MESSAGE_SIZE_COUNT_VEC: Nop,
            NETWORK_RPC_RESULT_COUNT_VEC_STATIC: Outcome,
            NETWORK_PROTOCOL_TIME_HISTOGRAM_VEC_STATIC: Kinds,
            NETWORK_CONNECTED_PEERS: Nop,
            NETWORK_SAVED_PEER_COUNT: Nop,
            NETWORK_CONNECTED_CONSENSUS_PEERS: Nop,
            NETWORK_TAGGED_CONSENSUS_PEERS: Nop,
            NETWORK_PEER_ID_DISCONNECTED_COUNT_VEC: Nop,
            NETWORK_RECEIVED_MESSAGE_IN_PROCESSING_GUAGE: Nop,
            NETWORK_RECEIVED_PEER_ID_MESSAGE_IN_PROCESSING_GUAGE_VEC: Nop,
        }
        pub fn on_network_message_received(_: &str) {}
        pub fn on_network_message_sent_all_target(_: &str) {}
        pub fn on_network_message_sent_multi_target(_: &str, _: f64) {}
        pub fn on_network_message_sent(_: &str) {}
    }
}

pub mod tracing {
    pub fn global_tracer_register(_: &str, _: std::net::SocketAddr, _: usize) {}

    use std::sync::Arc;

    use arc_swap::ArcSwap;
    use protocol::traits::Context;

    lazy_static::lazy_static! {
        pub static ref TRACER: ArcSwap<AxonTracer> = ArcSwap::new(Arc::new(AxonTracer::default()));
    }

    pub struct Tag;

    impl Tag {
        pub fn new<N, V>(_: N, _: V) -> Tag {
            Tag
        }
    }

    pub struct LogField;

    impl LogField {
        pub fn new<N, V>(_: N, _: V) -> LogField {
            LogField
        }
    }

    #[derive(Clone, Debug)]
    pub struct SpanContextState {
        trace_id: TraceId,
        span_id: u64,
    }

    impl SpanContextState {
        pub fn trace_id(&self) -> TraceId {
            self.trace_id
        }
        pub fn span_id(&self) -> u64 {
            self.span_id
        }
    }

    #[derive(Clone, Debug)]
    pub struct SpanContext(SpanContextState);

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct TraceId {
        pub high: u64,
        pub low:  u64,
    }

    impl std::fmt::Display for TraceId {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            if self.high == 0 {
                write!(f, "{:x}", self.low)
            } else {
                write!(f, "{:x}{:016x}", self.high, self.low)
            }
        }
    }

    pub struct Log;

    impl Log {
        pub fn field<T>(&mut self, _: T) -> &mut Log {
            self
        }
        pub fn time<T>(&mut self, _: T) -> &mut Log {
            self
        }
    }

    pub struct Span;

    impl Span {
        pub fn set_tag<F: FnOnce() -> T, T>(&mut self, _: F) {}
        pub fn log<F: FnOnce(&mut Log)>(&mut self, f: F) {
            f(&mut Log)
        }
        pub fn context(&self) -> Option<&SpanContext> {
            None
        }
    }

    #[derive(Default)]
    pub struct AxonTracer;

    impl AxonTracer {
        pub fn child_of_span<N>(&self, _: N, _: SpanContext, _: Vec<Tag>) -> Option<Span> {
            Some(Span)
        }
        pub fn span<N>(&self, _: N, _: Vec<Tag>) -> Option<Span> {
            Some(Span)
        }
        pub fn inject(_: Context) {}
        pub fn new_state(trace_id: TraceId, span_id: u64) -> SpanContextState {
            SpanContextState { trace_id, span_id }
        }
        pub fn span_state(ctx: &Context) -> Option<SpanContextState> {
            match ctx.get::<Option<SpanContext>>("parent_span_ctx") {
                Some(Some(parent)) => Some(parent.0.clone()),
                _ => None,
            }
        }
        pub fn inject_span_state(ctx: Context, state: SpanContextState) -> Context {
            ctx.with_value::<Option<SpanContext>>("parent_span_ctx", Some(SpanContext(state)))
        }
        /// As the original: hexadecimal digits, the last 16 of them the low half; it panics on more
        /// than 32.
        pub fn str_to_trace(s: &str) -> Result<TraceId, String> {
            let parse = |s: &str| u64::from_str_radix(s, 16).map_err(|e| e.to_string());
            if s.len() <= 16 {
                Ok(TraceId { high: 0, low: parse(s)? })
            } else if s.len() <= 32 {
                let (high, low) = s.as_bytes().split_at(s.len() - 16);
                let high = parse(std::str::from_utf8(high).map_err(|e| e.to_string())?)?;
                let low = parse(std::str::from_utf8(low).map_err(|e| e.to_string())?)?;
                Ok(TraceId { high, low })
            } else {
                panic!("s={:?}", s)
            }
        }
    }
}

pub mod server {
    pub async fn run_prometheus_server(_: std::net::SocketAddr) {}
}
