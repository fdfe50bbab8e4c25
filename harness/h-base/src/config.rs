//! P11 configuration files, P12 chain specifications.
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

use clap::builder::{TypedValueParser, ValueParserFactory};
use common_config_parser::types::spec::{ChainSpec, HardforkInput, HardforkName, PrivateKey};
use common_config_parser::types::{Config, JsonValueParser};
use common_config_parser::{parse_file, parse_json, parse_reader};
use common_crypto::PrivateKey as _;
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use protocol::types::{HardforkInfoInner, H160};
use refs::{hex, keccak};

use crate::gens;

/// A folder of this case's own, removed at the end.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let d = PathBuf::from(base).join(format!("d{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn parse<P: ValueParserFactory>(path: &Path) -> Result<<P::Parser as TypedValueParser>::Value, String>
where
    P::Parser: TypedValueParser,
{
    P::value_parser().parse_ref(&clap::Command::new("x"), None, path.as_os_str()).map_err(|e| e.to_string())
}

/// A TOML string.
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}
fn lit(g: &mut Gen, s: &str) -> String {
    if g.below(4) == 0 && !s.contains('\'') && s.chars().all(|c| c >= ' ' && c != '\u{7f}') {
        format!("'{}'", s)
    } else {
        q(s)
    }
}
fn num(g: &mut Gen, v: u64) -> String {
    match g.below(5) {
        0 => format!("{:#x}", v),
        1 => {
            let s = v.to_string();
            let mut o = String::new();
            for (i, c) in s.chars().enumerate() {
                if i > 0 && (s.len() - i) % 3 == 0 {
                    o.push('_');
                }
                o.push(c);
            }
            o
        }
        _ => v.to_string(),
    }
}
fn int(g: &mut Gen, max: u64) -> u64 {
    let v = g.u64();
    if v > max {
        match g.below(3) {
            0 => max,
            1 => v % (max / 2 + 1),
            _ => v & max,
        }
    } else {
        v
    }
}
fn name(g: &mut Gen) -> String {
    let s = g.ascii(12);
    let s: String = s.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '.').collect();
    format!("f{}", s)
}
fn text(g: &mut Gen) -> String {
    if g.below(4) == 0 {
        g.text(10)
    } else {
        g.ascii(12)
    }
}
fn addr(g: &mut Gen) -> String {
    if g.below(5) == 0 {
        format!("[::{:x}]:{}", g.below(0xffff) + 1, g.below(65536))
    } else {
        format!("{}.{}.{}.{}:{}", g.byte(), g.byte(), g.byte(), g.byte(), g.below(65536))
    }
}
fn multi(g: &mut Gen) -> String {
    format!("/ip4/{}.{}.{}.{}/tcp/{}", g.byte(), g.byte(), g.byte(), g.byte(), g.below(65536))
}

#[derive(Clone)]
struct Key {
    sec:  &'static str,
    key:  &'static str,
    text: String,
    req:  bool,
}
struct Doc {
    keys: Vec<Key>,
    want: BTreeMap<String, String>,
}
impl Doc {
    fn put(&mut self, g: &mut Gen, sec: &'static str, key: &'static str, req: bool, dflt: &str, v: impl FnOnce(&mut Gen) -> (String, String)) {
        let id = format!("{}.{}", sec, key);
        if !req && g.below(3) == 0 {
            self.want.insert(id, dflt.into());
            return;
        }
        let (text, want) = v(g);
        // what the default is, and what an option with a value looks like, say the accessors below
        self.want.insert(id, if dflt == "None" { format!("Some({})", want) } else { want });
        self.keys.push(Key { sec, key, text, req });
    }
    fn int(&mut self, g: &mut Gen, sec: &'static str, key: &'static str, req: bool, dflt: &str, max: u64) {
        self.put(g, sec, key, req, dflt, |g| {
            let v = int(g, max);
            (num(g, v), v.to_string())
        })
    }
    fn str(&mut self, g: &mut Gen, sec: &'static str, key: &'static str, req: bool, dflt: &str, v: impl FnOnce(&mut Gen) -> String) {
        self.put(g, sec, key, req, dflt, |g| {
            let s = v(g);
            (lit(g, &s), format!("{:?}", s))
        })
    }
    fn bool(&mut self, g: &mut Gen, sec: &'static str, key: &'static str, req: bool, dflt: &str) {
        self.put(g, sec, key, req, dflt, |g| {
            let b = g.bool();
            (b.to_string(), b.to_string())
        })
    }
    fn absent(&mut self, xs: &[(&str, &str)]) {
        for (k, v) in xs {
            self.want.insert(k.to_string(), v.to_string());
        }
    }
}

const I: u64 = i64::MAX as u64;

/// A valid configuration: its keys, and what the loaded one must say.
fn doc(g: &mut Gen, net: &str, bls: &str, secs: &mut Vec<&'static str>) -> Doc {
    let mut d = Doc { keys: vec![], want: BTreeMap::new() };
    let d_ = &mut d;
    d_.str(g, "", "net_privkey_file", true, "", |_| net.to_string());
    d_.str(g, "", "bls_privkey_file", true, "", |_| bls.to_string());
    d_.str(g, "", "data_path", true, "", |g| format!("{}/{}", ["/tmp/x", "./devtools/chain", "d", ".."][g.below(4) as usize], name(g)));
    d_.put(g, "", "ibc_contract_address", false, &format!("{:?}", H160::zero()), |g| {
        let a = gens::h160(g);
        (q(&format!("{:?}", a)), format!("{:?}", a))
    });
    d_.put(g, "rpc", "http_listening_address", false, "None", |g| {
        let a = addr(g);
        (q(&a), a.parse::<std::net::SocketAddr>().unwrap().to_string())
    });
    d_.put(g, "rpc", "ws_listening_address", false, "None", |g| {
        let a = addr(g);
        (q(&a), a.parse::<std::net::SocketAddr>().unwrap().to_string())
    });
    d_.int(g, "rpc", "maxconn", true, "", u32::MAX as u64);
    d_.int(g, "rpc", "max_payload_size", true, "", u32::MAX as u64);
    d_.bool(g, "rpc", "enable_dump_profile", false, "None");
    secs.push("web3");
    d_.int(g, "web3", "log_filter_max_block_range", false, "10000", I);
    d_.int(g, "web3", "max_gas_cap", false, "25000000", I);
    d_.str(g, "network", "listening_address", true, "", multi);
    d_.put(g, "network", "allowlist", false, "None", |g| {
        let v = g.vec(3, |g| text(g));
        (format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ")), format!("{:?}", v))
    });
    d_.bool(g, "network", "allowlist_only", false, "None");
    for k in ["max_connected_peers", "inbound_conn_limit", "rpc_timeout", "send_buffer_size", "recv_buffer_size", "max_frame_length", "ping_interval"] {
        d_.int(g, "network", k, false, "None", I);
    }
    secs.push("synchronization");
    d_.int(g, "synchronization", "sync_txs_chunk_size", false, "5000", I);
    d_.int(g, "mempool", "pool_size", true, "", I);
    d_.int(g, "mempool", "timeout_gap", true, "", I);
    d_.int(g, "mempool", "broadcast_txs_size", false, "200", I);
    d_.int(g, "mempool", "broadcast_txs_interval", false, "200", I);
    d_.int(g, "executor", "triedb_cache_size", true, "", I);
    if g.below(3) > 0 {
        d_.str(g, "logger", "filter", true, "", |g| g.pick(&["info", "off", "trace", "strange"]).to_string());
        for k in ["log_to_console", "console_show_file_and_line", "log_to_file", "metrics"] {
            d_.bool(g, "logger", k, true, "");
        }
        d_.str(g, "logger", "log_path", true, "", |g| name(g));
        d_.int(g, "logger", "file_size_limit", true, "", I);
        d_.put(g, "logger", "modules_level", false, "{}", |g| {
            let mut m = BTreeMap::new();
            for _ in 0..g.below(3) {
                m.insert(name(g).replace('.', ""), g.pick(&["info", "debug"]).to_string());
            }
            (format!("{{ {} }}", m.iter().map(|(k, v)| format!("{} = {}", q(k), q(v))).collect::<Vec<_>>().join(", ")), format!("{:?}", m))
        });
    } else {
        d_.absent(&[
            ("logger.filter", "\"info\""),
            ("logger.log_to_console", "true"),
            ("logger.console_show_file_and_line", "false"),
            ("logger.log_to_file", "true"),
            ("logger.metrics", "true"),
            ("logger.log_path", "\"logs/\""),
            ("logger.file_size_limit", "1073741824"),
            ("logger.modules_level", "{}"),
        ]);
    }
    if g.below(3) > 0 {
        secs.push("rocksdb");
        d_.int(g, "rocksdb", "max_open_files", true, "", i32::MAX as u64);
        d_.int(g, "rocksdb", "cache_size", false, "100", I);
        d_.str(g, "rocksdb", "options_file", false, "None", |g| if g.below(4) == 0 { format!("/abs/{}", name(g)) } else { name(g) });
    } else {
        d_.absent(&[("rocksdb.max_open_files", "64"), ("rocksdb.cache_size", "100"), ("rocksdb.options_file", "None")]);
    }
    if g.bool() {
        secs.push("jaeger");
        d_.str(g, "jaeger", "service_name", false, "None", text);
        d_.put(g, "jaeger", "tracing_address", false, "None", |g| {
            let a = addr(g);
            (q(&a), a.parse::<std::net::SocketAddr>().unwrap().to_string())
        });
        d_.int(g, "jaeger", "tracing_batch_size", false, "None", I);
    } else {
        d_.absent(&[("jaeger", "absent")]);
    }
    if g.bool() {
        secs.push("prometheus");
        d_.put(g, "prometheus", "listening_address", false, "None", |g| {
            let a = addr(g);
            (q(&a), a.parse::<std::net::SocketAddr>().unwrap().to_string())
        });
    } else {
        d_.absent(&[("prometheus", "absent")]);
    }
    d
}

/// The TOML text of keys and sections, in some order.
fn toml(g: &mut Gen, keys: &[Key], secs: &[&'static str], boots: &[String]) -> String {
    let mut top: Vec<&Key> = keys.iter().filter(|k| k.sec.is_empty()).collect();
    g.shuffle(&mut top);
    let mut o = String::new();
    for k in top {
        o += &format!("{} = {}\n", k.key, k.text);
    }
    let mut names: Vec<&str> = keys.iter().map(|k| k.sec).chain(secs.iter().copied()).filter(|s| !s.is_empty()).collect();
    names.sort_unstable();
    names.dedup();
    g.shuffle(&mut names);
    for s in names {
        o += &format!("\n[{}]{}\n", s, if g.below(6) == 0 { " # comment" } else { "" });
        let mut ks: Vec<&Key> = keys.iter().filter(|k| k.sec == s).collect();
        g.shuffle(&mut ks);
        for k in ks {
            o += &format!("{} = {}\n", k.key, k.text);
        }
    }
    for b in boots {
        o += &format!("\n[[network.bootstraps]]\nmulti_address = {}\n", q(b));
    }
    o
}

fn so<T: ToString>(x: &Option<T>) -> String {
    x.as_ref().map(|v| format!("Some({})", v.to_string())).unwrap_or("None".into())
}
fn said(c: &Config) -> BTreeMap<String, String> {
    let p = |p: &PathBuf| format!("{:?}", p.to_str().unwrap());
    let mut m = BTreeMap::new();
    let mut put = |k: &str, v: String| {
        m.insert(k.to_string(), v);
    };
    put(".net_privkey_file", p(&c.net_privkey_file));
    put(".bls_privkey_file", p(&c.bls_privkey_file));
    put(".data_path", p(&c.data_path));
    put(".ibc_contract_address", format!("{:?}", c.ibc_contract_address));
    put("rpc.http_listening_address", so(&c.rpc.http_listening_address));
    put("rpc.ws_listening_address", so(&c.rpc.ws_listening_address));
    put("rpc.maxconn", c.rpc.maxconn.to_string());
    put("rpc.max_payload_size", c.rpc.max_payload_size.to_string());
    put("rpc.enable_dump_profile", so(&c.rpc.enable_dump_profile));
    put("web3.log_filter_max_block_range", c.web3.log_filter_max_block_range.to_string());
    put("web3.max_gas_cap", c.web3.max_gas_cap.to_string());
    let n = &c.network;
    put("network.listening_address", format!("{:?}", n.listening_address.to_string()));
    put("network.allowlist", n.allowlist.as_ref().map(|v| format!("Some({:?})", v)).unwrap_or("None".into()));
    put("network.allowlist_only", so(&n.allowlist_only));
    put("network.max_connected_peers", so(&n.max_connected_peers));
    put("network.inbound_conn_limit", so(&n.inbound_conn_limit));
    put("network.rpc_timeout", so(&n.rpc_timeout));
    put("network.send_buffer_size", so(&n.send_buffer_size));
    put("network.recv_buffer_size", so(&n.recv_buffer_size));
    put("network.max_frame_length", so(&n.max_frame_length));
    put("network.ping_interval", so(&n.ping_interval));
    put("synchronization.sync_txs_chunk_size", c.sync.sync_txs_chunk_size.to_string());
    put("mempool.pool_size", c.mempool.pool_size.to_string());
    put("mempool.timeout_gap", c.mempool.timeout_gap.to_string());
    put("mempool.broadcast_txs_size", c.mempool.broadcast_txs_size.to_string());
    put("mempool.broadcast_txs_interval", c.mempool.broadcast_txs_interval.to_string());
    put("executor.triedb_cache_size", c.executor.triedb_cache_size.to_string());
    let l = &c.logger;
    put("logger.filter", format!("{:?}", l.filter));
    put("logger.log_to_console", l.log_to_console.to_string());
    put("logger.console_show_file_and_line", l.console_show_file_and_line.to_string());
    put("logger.log_to_file", l.log_to_file.to_string());
    put("logger.metrics", l.metrics.to_string());
    put("logger.log_path", p(&l.log_path));
    put("logger.file_size_limit", l.file_size_limit.to_string());
    put("logger.modules_level", format!("{:?}", l.modules_level.iter().collect::<BTreeMap<_, _>>()));
    put("rocksdb.max_open_files", c.rocksdb.max_open_files.to_string());
    put("rocksdb.cache_size", c.rocksdb.cache_size.to_string());
    put("rocksdb.options_file", c.rocksdb.options_file.as_ref().map(|x| format!("Some({})", p(x))).unwrap_or("None".into()));
    match &c.jaeger {
        Some(j) => {
            put("jaeger.service_name", j.service_name.as_ref().map(|s| format!("Some({:?})", s)).unwrap_or("None".into()));
            put("jaeger.tracing_address", so(&j.tracing_address));
            put("jaeger.tracing_batch_size", so(&j.tracing_batch_size));
        }
        None => put("jaeger", "absent".into()),
    }
    match &c.prometheus {
        Some(x) => put("prometheus.listening_address", so(&x.listening_address)),
        None => put("prometheus", "absent".into()),
    }
    m
}

fn config(g: &mut Gen) -> Res {
    let dir = Dir::new();
    let cfg = if g.bool() { dir.0.join("nodes") } else { dir.0.clone() };
    fs::create_dir_all(&cfg).unwrap();
    let (net, bls) = if g.bool() { ("net.key".to_string(), "bls.key".to_string()) } else { ("k/net.key".into(), dir.0.join("abs.key").to_str().unwrap().to_string()) };
    fs::create_dir_all(cfg.join("k")).unwrap();
    // a private key may contain anything: line ends, zeros, text that looks like hex
    let mut key = |g: &mut Gen| -> Vec<u8> {
        match g.below(4) {
            0 => {
                let mut k = g.entropy(32);
                k[31] = b'\n';
                k
            }
            1 => g.ascii(40).bytes().chain(std::iter::repeat(b'a')).take(32).collect(),
            _ => g.entropy(32),
        }
    };
    let (nk, bk) = (key(g), key(g));
    let mut secs = vec!["rpc"];
    let mut d = doc(g, &net, &bls, &mut secs);
    let boots: Option<Vec<String>> = if g.bool() { Some((0..1 + g.below(3)).map(|_| multi(g)).collect()) } else { None };
    // what is wrong with it
    let bad = g.below(8);
    let mut broken = None;
    let (mut fnk, mut fbk) = (Some(nk.clone()), Some(bk.clone()));
    match bad {
        0 => {
            let req: Vec<usize> = (0..d.keys.len()).filter(|&i| d.keys[i].req).collect();
            let i = *g.pick(&req);
            broken = Some(format!("{}.{} is missing", d.keys[i].sec, d.keys[i].key));
            d.keys.remove(i);
        }
        1 => {
            let i = g.below(d.keys.len() as u64) as usize;
            let t = d.keys[i].text.clone();
            let string = t.starts_with('"') || t.starts_with('\'');
            d.keys[i].text = if string {
                "7".into()
            } else if t == "true" || t == "false" {
                "\"true\"".into()
            } else if t.starts_with('[') || t.starts_with('{') {
                "\"\"".into()
            } else {
                g.pick(&["-1", "\"1\"", "1.5", "[1]", "99999999999999999999"]).to_string()
            };
            // a negative number of open files means no limit
            if !(d.keys[i].key == "max_open_files" && d.keys[i].text == "-1") {
                broken = Some(format!("{}.{} = {}", d.keys[i].sec, d.keys[i].key, d.keys[i].text));
            } else {
                d.want.insert("rocksdb.max_open_files".into(), "-1".into());
            }
        }
        2 => {
            let f = if g.bool() { &mut fnk } else { &mut fbk };
            *f = match g.below(4) {
                0 => None,
                1 => Some(g.entropy(32).into_iter().chain([b'\n']).collect()),
                2 => Some(hex(&g.entropy(32)).into_bytes()),
                _ => {
                    let n = *g.pick(&[0usize, 1, 31, 33, 64]);
                    Some(g.entropy(n))
                }
            };
            broken = Some(format!("a private key file of {:?} bytes", f.as_ref().map(|v| v.len())));
        }
        _ => {}
    }
    let t = toml(g, &d.keys, &secs, boots.as_deref().unwrap_or(&[]));
    let path = cfg.join("config.toml");
    fs::write(&path, &t).unwrap();
    if let Some(k) = &fnk {
        fs::write(cfg.join(&net), k).unwrap();
    }
    if let Some(k) = &fbk {
        fs::write(cfg.join(&bls), k).unwrap();
    }
    if g.below(20) == 0 {
        let p = dir.0.join("nothing.toml");
        check!(no_panic(|| parse::<Config>(&p)).map_err(|p| fail("config-panic", p))?.is_err(), "config", "a configuration is loaded from a file that does not exist");
    }
    g.hit();
    g.label(if broken.is_some() { "rejected" } else { "accepted" });
    g.note(|| t.clone());
    let r = no_panic(|| parse::<Config>(&path)).map_err(|p| fail("config-panic", p))?;
    if let Some(b) = broken {
        check!(r.is_err(), "config-accepted", "a configuration is loaded though {}:\n{}", b, t);
        return Ok(());
    }
    let c = r.map_err(|e| fail("config-rejected", format!("{}\n{}", e, t)))?;
    let opt = d.want.get("rocksdb.options_file").unwrap().clone();
    if let Some(f) = opt.strip_prefix("Some(\"").and_then(|s| s.strip_suffix("\")")) {
        let full = if f.starts_with('/') { PathBuf::from(f) } else { cfg.join(f) };
        d.want.insert("rocksdb.options_file".into(), format!("Some({:?})", full.to_str().unwrap()));
    }
    let got = said(&c);
    for (k, v) in &d.want {
        check_eq!(got.get(k), Some(v), "config-value", "{} of\n{}", k, t);
    }
    check_eq!(got.len(), d.want.len(), "config-value", "number of settings");
    check_eq!(c.network.bootstraps.as_ref().map(|b| b.iter().map(|x| x.multi_address.to_string()).collect::<Vec<_>>()), boots, "config-value", "bootstraps");
    check_eq!(hex(c.net_privkey.as_ref()), hex(&nk), "config-key", "network key");
    check_eq!(hex(c.bls_privkey.as_ref()), hex(&bk), "config-key", "consensus key");
    let dp = &c.data_path;
    check_eq!(
        vec![c.data_path_for_rocksdb(), c.data_path_for_txs_wal(), c.data_path_for_consensus_wal(), c.data_path_for_version()],
        vec![dp.join("rocksdb"), dp.join("txs_wal"), dp.join("consensus_wal"), dp.join("axon.ver")],
        "config-path",
        "places of data"
    );
    // without clap, the file is the same, and keys are not loaded
    let c2: Config = parse_file(&path, false).map_err(|e| fail("config-rejected", e.to_string()))?;
    let c3: Config = parse_reader(&mut t.as_bytes()).map_err(|e| fail("config-rejected", e.to_string()))?;
    check_eq!(said(&c2), said(&c3), "config-value", "a file and its text");
    Ok(())
}

fn junk(g: &mut Gen) -> Res {
    let dir = Dir::new();
    let d = {
        let mut secs = vec![];
        let d = doc(g, "a", "b", &mut secs);
        toml(g, &d.keys, &secs, &[])
    };
    let mut b = d.into_bytes();
    for _ in 0..1 + g.below(3) {
        b = g.mutate(&b);
    }
    let p = dir.0.join("c");
    fs::write(&p, &b).unwrap();
    let k = g.entropy(32);
    fs::write(dir.0.join("a"), &k).unwrap();
    fs::write(dir.0.join("b"), &k).unwrap();
    g.note(|| String::from_utf8_lossy(&b).into());
    let r = no_panic(|| parse::<Config>(&p).is_ok()).map_err(|p| fail("config-panic", p))?;
    g.label_if(r, "accepted");
    no_panic(|| parse::<ChainSpec>(&p).is_ok()).map_err(|p| fail("spec-panic", p))?;
    no_panic(|| JsonValueParser::<HardforkInput>::default().parse_ref(&clap::Command::new("x"), None, p.as_os_str()).is_ok()).map_err(|p| fail("json-panic", p))?;
    g.hit();
    Ok(())
}

fn spec(g: &mut Gen) -> Res {
    let dir = Dir::new();
    let m = gens::metadata(g);
    let cc = m.consensus_config.clone();
    let (ts, chain) = (int(g, I), int(g, I));
    let fee = g.u64();
    let hf = g.vec(3, |g| *g.pick(&[HardforkName::None, HardforkName::Andromeda]));
    let accounts = g.vec(4, |g| (gens::h160(g), gens::u256(g)));
    let mut t = format!(
        "[genesis]\ntimestamp = {}\nbase_fee_per_gas = \"{:#x}\"\nchain_id = {}\nhardforks = [{}]\n",
        num(g, ts),
        fee,
        num(g, chain),
        hf.iter().map(|h| format!("\"{:?}\"", h)).collect::<Vec<_>>().join(", ")
    );
    let mut broken: Option<String> = None;
    for (a, b) in &accounts {
        let s = refs::eip55(&a.0);
        let bal = match g.below(3) {
            0 => format!("{:x}", b),
            1 => format!("{:#x}", b),
            _ => format!("{:0>64x}", b),
        };
        t += &format!("\n[[accounts]]\naddress = {}\nbalance = {}\n", q(&s), q(&bal));
    }
    if accounts.is_empty() {
        t = format!("accounts = []\n{}", t);
    }
    let nums: Vec<(&str, u64)> = vec![
        ("propose_ratio", cc.propose_ratio), ("prevote_ratio", cc.prevote_ratio), ("precommit_ratio", cc.precommit_ratio), ("brake_ratio", cc.brake_ratio),
        ("tx_num_limit", cc.tx_num_limit), ("max_tx_size", cc.max_tx_size), ("gas_limit", cc.gas_limit), ("interval", cc.interval), ("max_contract_limit", cc.max_contract_limit),
    ];
    let nums: Vec<(&str, u64)> = nums.into_iter().map(|(k, v)| (k, v.min(I))).collect();
    let (epoch, start, end) = (m.epoch.min(I), m.version.start.min(I), m.version.end.min(I));
    t += &format!("\n[params]\nepoch = {}\n[params.version]\nstart = {}\nend = {}\n[params.consensus_config]\n", num(g, epoch), num(g, start), num(g, end));
    let mut dropped = usize::MAX;
    let no_limit = g.below(3) == 0;
    if g.below(6) == 0 {
        dropped = g.below(8) as usize;
        broken = Some(format!("{} is missing", nums[dropped].0));
    }
    let mut order: Vec<usize> = (0..9).collect();
    g.shuffle(&mut order);
    for i in order {
        if i == dropped || (i == 8 && no_limit) {
            continue;
        }
        t += &format!("{} = {}\n", nums[i].0, num(g, nums[i].1));
    }
    let vs: Vec<_> = m.verifier_list.iter().map(|v| (v.bls_pub_key.clone(), v.pub_key.clone(), v.propose_weight, v.vote_weight)).collect();
    for (b, p, w, v) in &vs {
        t += &format!("\n[[params.verifier_list]]\nbls_pub_key = {}\npub_key = {}\npropose_weight = {}\nvote_weight = {}\n", q(&b.as_string()), q(&p.as_string()), w, v);
    }
    if vs.is_empty() {
        t = t.replace("[params]\n", "[params]\nverifier_list = []\n");
    }
    if broken.is_none() {
        let (from, to, what) = match g.below(16) {
            0 => ("timestamp = ", "timestamp = -", "timestamp"),
            1 => ("base_fee_per_gas = \"", "base_fee_per_gas = \"z", "base fee"),
            2 => ("hardforks = [", "hardforks = [\"Nebula\", ", "hard fork"),
            3 => ("\naddress = \"0x", "\naddress = \"0xz", "account address"),
            4 => ("\naddress = \"0x", "\naddress = \"0x00", "account address"),
            5 => ("\nbalance = \"", "\nbalance = \"-", "balance"),
            6 => ("[params.version]\n", "[params.versions]\n", "version"),
            7 => ("[genesis]\n", "[genesis]\nxx = \n", "syntax"),
            _ => ("", "", ""),
        };
        if !what.is_empty() && t.contains(from) && !(what == "timestamp" && ts == 0) && !(what == "timestamp" && t.contains("timestamp = 0x")) {
            t = t.replacen(from, to, 1);
            broken = Some(format!("its {} is malformed", what));
        }
    }
    let p = dir.0.join("spec.toml");
    fs::write(&p, &t).unwrap();
    g.hit();
    g.label(if broken.is_some() { "rejected" } else { "accepted" });
    g.note(|| t.clone());
    let r = no_panic(|| parse::<ChainSpec>(&p)).map_err(|p| fail("spec-panic", p))?;
    if let Some(b) = broken {
        check!(r.is_err(), "spec-accepted", "a chain specification is loaded though {}:\n{}", b, t);
        return Ok(());
    }
    let s = r.map_err(|e| fail("spec-rejected", format!("{}\n{}", e, t)))?;
    check_eq!((s.genesis.timestamp, s.genesis.base_fee_per_gas.low_u64(), s.genesis.chain_id, s.genesis.hardforks.clone()), (ts, fee, chain, hf.clone()), "spec-value", "genesis");
    check_eq!(s.accounts.iter().map(|a| (a.address, a.balance)).collect::<Vec<_>>(), accounts, "spec-value", "accounts");
    let c = &s.params.consensus_config;
    let got = vec![c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio, c.tx_num_limit, c.max_tx_size, c.gas_limit, c.interval, c.max_contract_limit];
    let mut want: Vec<u64> = nums.iter().map(|x| x.1).collect();
    if no_limit {
        want[8] = 0x6000;
    }
    check_eq!(got, want, "spec-value", "consensus parameters");
    check_eq!((s.params.epoch, s.params.version.start, s.params.version.end), (epoch, start, end), "spec-value", "epoch and version");
    check_eq!(s.params.verifier_list.iter().map(|v| (v.bls_pub_key.clone(), v.pub_key.clone(), v.propose_weight, v.vote_weight)).collect::<Vec<_>>(), vs, "spec-value", "validators");
    check!(s.params.propose_counter.is_empty(), "spec-value", "the specification counts proposals");
    // the genesis header
    let h = s.genesis.build_header();
    let mut w = protocol::types::Header::default();
    w.transactions_root.0 = keccak(&[0x80]);
    w.signed_txs_hash.0 = keccak(&[0xc0]);
    w.timestamp = ts;
    w.base_fee_per_gas = fee.into();
    w.chain_id = chain;
    check_eq!(h, w, "genesis-header", "genesis header");
    check_eq!(h.number, 0, "genesis-header", "number of genesis");
    let i = s.genesis.generate_hardfork_info();
    check_eq!(i, info(&hf, 0), "hardfork-info", "hard forks {:?} active in genesis", hf);
    Ok(())
}

/// No names: all hard forks; otherwise those named. Flags are little-endian in the last 8 bytes.
fn info(hf: &[HardforkName], n: u64) -> HardforkInfoInner {
    let mut f = [0u8; 32];
    if hf.is_empty() || hf.contains(&HardforkName::Andromeda) {
        f[24] = 1;
    }
    HardforkInfoInner { block_number: n, flags: f.into() }
}

#[derive(clap::Parser, Debug)]
struct KeyArg {
    #[command(flatten)]
    key: PrivateKey,
}

fn inputs(g: &mut Gen) -> Res {
    use clap::Parser;
    let dir = Dir::new();
    g.hit();
    if g.bool() {
        let hf = g.vec(3, |g| *g.pick(&[HardforkName::None, HardforkName::Andromeda]));
        let n = g.u64();
        let t = format!("{{\"hardforks\": [{}], \"block_number\": {}}}", hf.iter().map(|h| format!("\"{:?}\"", h)).collect::<Vec<_>>().join(","), n);
        g.note(|| t.clone());
        let p = dir.0.join("h.json");
        fs::write(&p, &t).unwrap();
        let pr = JsonValueParser::<HardforkInput>::default();
        let i = no_panic(|| pr.parse_ref(&clap::Command::new("x"), None, p.as_os_str())).map_err(|p| fail("json-panic", p))?.map_err(|e| fail("hardfork-input", e.to_string()))?;
        check_eq!((i.block_number, i.hardforks.clone()), (n, hf.clone()), "hardfork-input", "hard fork input");
        check_eq!(HardforkInfoInner::from(i), info(&hf, n), "hardfork-info", "hard forks {:?} from {}", hf, n);
        let j: serde_json::Value = parse_json(&mut t.as_bytes()).map_err(|e| fail("json", e.to_string()))?;
        let k: serde_json::Value = parse_file(&p, true).map_err(|e| fail("json", e.to_string()))?;
        check_eq!(j, k, "json", "a JSON file and its text");
        fs::write(&p, t.trim_end_matches('}')).unwrap();
        check!(pr.parse_ref(&clap::Command::new("x"), None, p.as_os_str()).is_err(), "json", "truncated JSON is accepted");
        check!(pr.parse_ref(&clap::Command::new("x"), None, OsStr::new("/nonexistent/x")).is_err(), "json", "a missing file is accepted");
        return Ok(());
    }
    let key = gens::secret(g);
    let p = dir.0.join("key");
    let mut content = key.to_vec();
    let text = match g.below(5) {
        0 => hex(&key),
        1 => format!("0x{}", hex(&key)).replace('a', "A"),
        2 => format!("0x{}", hex(&key)),
        3 => format!("0x{}", &hex(&key)[2..]),
        _ => format!("0x{}00", hex(&key)),
    };
    let mode = g.below(4);
    let short = g.bool();
    let mut ok = true;
    let args: Vec<String> = match mode {
        0 => {
            ok = text.len() == 66 && text.starts_with("0x");
            vec![if short { "-k".into() } else { "--key".into() }, text]
        }
        1 => {
            match g.below(4) {
                0 => content = hex(&key).into_bytes(),
                1 => content.push(b'\n'),
                2 => content.truncate(31),
                _ => {}
            }
            ok = content.len() == 32;
            vec!["--key-file".into(), p.to_str().unwrap().into()]
        }
        2 => {
            ok = false;
            vec!["--key-file".into(), p.to_str().unwrap().into(), "--key".into(), format!("0x{}", hex(&key))]
        }
        _ => {
            ok = false;
            vec![]
        }
    };
    fs::write(&p, &content).unwrap();
    g.note(|| format!("{:?}", args));
    let r = no_panic(|| KeyArg::try_parse_from(std::iter::once("x".to_string()).chain(args.clone()))).map_err(|p| fail("key-panic", p))?;
    check_eq!(r.is_ok(), ok, "key-arg", "the private key arguments {:?}, file of {} bytes", args, content.len());
    if let Ok(a) = r {
        check!(!format!("{:?}", a).contains(&hex(&key)), "config-secret", "the printed arguments contain the private key");
        let k = a.key.data().map_err(|e| fail("key-arg", e))?;
        check_eq!(hex(&k.to_bytes()), hex(&key), "key-arg", "the private key");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P11",
            rule: "a generated configuration file with optional sections and keys present or absent, in any order and notation, and key files; or one with one thing wrong; or a mutated text. Every case is non-trivial",
            assume: vec![],
            facets: vec![Facet::new("load", 30_000, config), Facet::new("mutated", 20_000, junk)],
        },
        Prop {
            id: "P12",
            rule: "a generated chain specification, hard fork input or private key argument, or one with one thing wrong. Every case is non-trivial",
            assume: vec!["refs::keccak is Keccak-256"],
            facets: vec![Facet::new("spec", 30_000, spec), Facet::new("inputs", 15_000, inputs)],
        },
    ]
}
