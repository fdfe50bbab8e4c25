//! P19: the client of CKB, Mercury and indexer nodes, against a server of the harness on the loopback network.
use std::collections::{BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

use ckb_types::H256;
use core_rpc_client::RpcClient;
use pbt::{check, check_eq, fail, Facet, Gen, Prop, Res};
use protocol::traits::{CkbClient, Context};
use protocol::types::{CrossChainTransferPayload, Hex, Identity, SubmitCheckpointPayload};
use refs::hex;
use serde_json::{json, Value};

// ---- the server

#[derive(Debug, Clone)]
struct Req {
    path: String,
    line: String,
    ty:   String,
    body: Vec<u8>,
}
struct Answer {
    status: u16,
    body:   Vec<u8>,
    delay:  u64,
}
type Handler = Arc<dyn Fn(&Req) -> Answer + Send + Sync>;

struct Server {
    port:  u16,
    cases: Mutex<HashMap<String, Handler>>,
    rt:    tokio::runtime::Runtime,
}

fn serve(s: TcpStream, srv: &'static Server) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(Duration::from_secs(120)))?;
    let mut w = s.try_clone()?;
    let mut r = BufReader::new(s);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let (mut len, mut ty) = (0usize, String::new());
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 {
                return Ok(());
            }
            let h = h.trim();
            if h.is_empty() {
                break;
            }
            let (k, v) = h.split_once(':').unwrap_or((h, ""));
            match k.to_ascii_lowercase().as_str() {
                "content-length" => len = v.trim().parse().unwrap_or(0),
                "content-type" => ty = v.trim().to_string(),
                _ => {}
            }
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body)?;
        let path = line.split(' ').nth(1).unwrap_or("").to_string();
        let case = path.split('/').nth(1).unwrap_or("").to_string();
        let h = srv.cases.lock().unwrap().get(&case).cloned();
        let a = match h {
            Some(h) => h(&Req { path, line: line.trim().into(), ty, body }),
            None => Answer { status: 404, body: vec![], delay: 0 },
        };
        if a.delay > 0 {
            std::thread::sleep(Duration::from_millis(a.delay));
        }
        let mut out = format!("HTTP/1.1 {} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", a.status, a.body.len()).into_bytes();
        out.extend(&a.body);
        w.write_all(&out)?;
    }
}

fn server() -> &'static Server {
    static S: OnceLock<&'static Server> = OnceLock::new();
    S.get_or_init(|| {
        for k in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
            std::env::remove_var(k);
        }
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback network");
        let srv: &'static Server = Box::leak(Box::new(Server {
            port:  l.local_addr().unwrap().port(),
            cases: Mutex::new(HashMap::new()),
            rt:    tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap(),
        }));
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let _ = serve(s, srv);
                });
            }
        });
        srv
    })
}

// ---- CKB values, in the JSON form of the CKB RPC

fn q(n: u128) -> Value {
    json!(format!("0x{:x}", n))
}
fn qv(g: &mut Gen, bits: u32) -> Value {
    let v = g.u64();
    q(if bits >= 64 { v as u128 } else { (v & ((1 << bits) - 1)) as u128 })
}
fn data(g: &mut Gen, max: usize) -> Value {
    let n = g.len(max);
    json!(format!("0x{}", hex(&g.bytes_n(n))))
}
fn h32(g: &mut Gen) -> Value {
    json!(format!("0x{}", hex(&g.bytes_n(32))))
}
fn list(g: &mut Gen, max: u64, f: impl Fn(&mut Gen) -> Value) -> Value {
    let n = g.below(max + 1);
    Value::Array((0..n).map(|_| f(g)).collect())
}
fn script(g: &mut Gen) -> Value {
    json!({"code_hash": h32(g), "hash_type": g.pick(&["data", "type", "data1"]), "args": data(g, 40)})
}
fn out_point(g: &mut Gen) -> Value {
    json!({"tx_hash": h32(g), "index": qv(g, 32)})
}
fn output(g: &mut Gen) -> Value {
    let t = if g.bool() { script(g) } else { Value::Null };
    json!({"capacity": qv(g, 64), "lock": script(g), "type": t})
}
fn tx(g: &mut Gen) -> Value {
    json!({
        "version": qv(g, 32),
        "cell_deps": list(g, 2, |g| json!({"out_point": out_point(g), "dep_type": g.pick(&["code", "dep_group"])})),
        "header_deps": list(g, 2, h32),
        "inputs": list(g, 2, |g| json!({"since": qv(g, 64), "previous_output": out_point(g)})),
        "outputs": list(g, 2, output),
        "outputs_data": list(g, 2, |g| data(g, 60)),
        "witnesses": list(g, 3, |g| data(g, 120)),
    })
}
fn with(mut v: Value, k: &str, x: Value) -> Value {
    v.as_object_mut().unwrap().insert(k.into(), x);
    v
}
fn tx_view(g: &mut Gen) -> Value {
    let t = tx(g);
    let h = h32(g);
    with(t, "hash", h)
}
fn header_view(g: &mut Gen) -> Value {
    let nonce = ((g.u64() as u128) << 64) | g.u64() as u128;
    json!({
        "version": qv(g, 32), "compact_target": qv(g, 32), "timestamp": qv(g, 64), "number": qv(g, 64), "epoch": qv(g, 64),
        "parent_hash": h32(g), "transactions_root": h32(g), "proposals_hash": h32(g), "extra_hash": h32(g), "dao": h32(g),
        "nonce": q(nonce), "hash": h32(g),
    })
}
fn short_id(g: &mut Gen) -> Value {
    json!(format!("0x{}", hex(&g.bytes_n(10))))
}
fn block_view(g: &mut Gen) -> Value {
    let b = json!({
        "header": header_view(g),
        "uncles": list(g, 2, |g| json!({"header": header_view(g), "proposals": list(g, 2, short_id)})),
        "transactions": list(g, 2, tx_view),
        "proposals": list(g, 2, short_id),
    });
    if g.bool() {
        let x = data(g, 100);
        return with(b, "extension", x);
    }
    b
}
fn completion(g: &mut Gen) -> Value {
    json!({
        "tx_view": tx_view(g),
        "signature_actions": list(g, 2, |g| json!({
            "signature_location": {"index": g.below(5), "offset": g.below(100)},
            "signature_info": {"algorithm": "Secp256k1", "address": g.text(20)},
            "hash_algorithm": "Blake2b",
            "other_indexes_in_group": list(g, 3, |g| json!(g.below(9))),
        })),
    })
}
fn search_key(g: &mut Gen) -> Value {
    let range = |g: &mut Gen| if g.bool() { json!([qv(g, 64), qv(g, 64)]) } else { Value::Null };
    let opt = |g: &mut Gen| match g.below(3) {
        0 => Value::Null,
        n => json!(n == 1),
    };
    let filter = if g.bool() {
        let s = if g.bool() { script(g) } else { Value::Null };
        json!({"script": s, "script_len_range": range(g), "output_data_len_range": range(g), "output_capacity_range": range(g), "block_range": range(g)})
    } else {
        Value::Null
    };
    let mode = match g.below(3) {
        0 => Value::Null,
        1 => json!("prefix"),
        _ => json!("exact"),
    };
    json!({"script": script(g), "script_type": g.pick(&["lock", "type"]), "script_search_mode": mode, "filter": filter, "with_data": opt(g), "group_by_transaction": opt(g)})
}
fn cells(g: &mut Gen) -> Value {
    json!({
        "objects": list(g, 3, |g| {
            let d = if g.bool() { data(g, 50) } else { Value::Null };
            json!({"output": output(g), "output_data": d, "out_point": out_point(g), "block_number": qv(g, 64), "tx_index": qv(g, 32)})
        }),
        "last_cursor": data(g, 40),
    })
}

// ---- the calls

const METHODS: [&str; 8] = [
    "get_block_by_number",
    "get_tip_header",
    "get_transaction",
    "send_transaction",
    "get_txs_by_hashes",
    "build_cross_chain_transfer_transaction",
    "build_submit_checkpoint_transaction",
    "get_cells",
];

fn tx_response(g: &mut Gen) -> (Value, Value) {
    let t = if g.below(3) == 0 { Value::Null } else { tx_view(g) };
    let status = *g.pick(&["pending", "proposed", "committed", "unknown", "rejected"]);
    let bh = if status == "committed" { h32(g) } else { Value::Null };
    let mut r = json!({"transaction": t.clone(), "tx_status": {"status": status, "block_hash": bh, "reason": if status == "rejected" { json!("{\"type\":\"x\"}") } else { Value::Null }}});
    if g.bool() {
        // what newer nodes add
        r = with(r, "cycles", q(5));
        r = with(r, "time_added_to_pool", Value::Null);
    }
    (r, t)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Failure,
    NoJson,
    Mistyped,
    Truncated,
    Http,
}

/// What the server says to a request that asks for `result`.
fn respond(g: &mut Gen, fault: Fault, result: &Value) -> (u16, Box<dyn Fn(&Value) -> Vec<u8> + Send + Sync>) {
    let result = result.clone();
    let code = *g.pick(&[-32700i64, -32600, -32601, -32602, -32603, -301, -1107, 7]);
    let msg = g.text(30);
    match fault {
        Fault::None => (200, Box::new(move |id| json!({"jsonrpc": "2.0", "id": id, "result": result}).to_string().into_bytes())),
        Fault::Failure => (200, Box::new(move |id| json!({"jsonrpc": "2.0", "id": id, "error": {"code": code, "message": msg, "data": "x"}}).to_string().into_bytes())),
        Fault::NoJson => {
            let b = g.bytes(40);
            (200, Box::new(move |_| [b"x", &b[..]].concat()))
        }
        Fault::Mistyped => {
            // a value of no type that any call returns
            let wrong = match g.below(7) {
                0 => json!(true),
                1 => json!(7),
                2 => json!("0x12"),
                3 => json!([1]),
                4 => json!({"transaction": 5, "header": [], "objects": {}}),
                5 => json!({}),
                _ => json!(""),
            };
            (200, Box::new(move |id| json!({"jsonrpc": "2.0", "id": id, "result": wrong}).to_string().into_bytes()))
        }
        Fault::Truncated => {
            let cut = g.raw_u64();
            (200, Box::new(move |id| {
                let b = json!({"jsonrpc": "2.0", "id": id, "result": result}).to_string().into_bytes();
                let n = (cut % b.len() as u64) as usize;
                b[..n].to_vec()
            }))
        }
        Fault::Http => {
            let st = *g.pick(&[400u16, 404, 429, 500, 502, 503]);
            (st, Box::new(|_| b"<html>error</html>".to_vec()))
        }
    }
}

fn de<T: serde::de::DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).expect("harness value")
}
fn ser<T: serde::Serialize, E: std::fmt::Display>(r: Result<T, E>) -> Result<Value, String> {
    r.map(|v| serde_json::to_value(v).unwrap()).map_err(|e| e.to_string())
}

/// A client and what it has sent: making one is slow, so that it is kept for another case.
struct Session {
    case:   String,
    roles:  [&'static str; 3],
    client: RpcClient,
    ids:    BTreeSet<u64>,
}
impl Session {
    fn new(srv: &'static Server, same: bool) -> Session {
        static CASE: AtomicU64 = AtomicU64::new(0);
        let case = format!("c{}", CASE.fetch_add(1, Ordering::Relaxed));
        let roles = if same { ["node", "node", "node"] } else { ["ckb", "mercury", "indexer"] };
        let uri = |r: &str| format!("http://127.0.0.1:{}/{}/{}", srv.port, case, r);
        Session { client: RpcClient::new(&uri(roles[0]), &uri(roles[1]), &uri(roles[2])), case, roles, ids: BTreeSet::new() }
    }
}
impl Drop for Session {
    fn drop(&mut self) {
        server().cases.lock().unwrap().remove(&self.case);
    }
}

fn calls(g: &mut Gen) -> Res {
    static KEEP: Mutex<[Vec<Session>; 2]> = Mutex::new([vec![], vec![]]);
    let srv = server();
    // the three nodes may be one server; often each has a path of its own
    let same = g.below(6) == 0;
    let mut s = KEEP.lock().unwrap()[same as usize].pop().unwrap_or_else(|| Session::new(srv, same));
    let n = 1 + g.below(5);
    for _ in 0..n {
        let client = s.client.clone();
        let clean = one(g, srv, &s.case, &client, &s.roles, &mut s.ids)?;
        if !clean {
            // requests of the call that failed may still be on their way
            return Ok(());
        }
    }
    KEEP.lock().unwrap()[same as usize].push(s);
    Ok(())
}

fn one(g: &mut Gen, srv: &'static Server, case: &str, client: &RpcClient, roles: &[&'static str; 3], ids: &mut BTreeSet<u64>) -> Result<bool, pbt::Stop> {
    let method = *g.pick(&METHODS);
    g.label(method);
    let fault = match g.below(12) {
        0 => Fault::Failure,
        1 => Fault::NoJson,
        2 => Fault::Mistyped,
        3 => Fault::Truncated,
        4 => Fault::Http,
        _ => Fault::None,
    };
    g.label_if(fault != Fault::None, "fault");
    // what is asked for each request: (method, params, result to send, status, body)
    let mut script_: Vec<(String, Value)> = vec![];
    let mut results: Vec<Value> = vec![];
    let want: Value;
    let mut hashes: Vec<Value> = vec![];
    let mut key = Value::Null;
    let mut cursor = Value::Null;
    let mut limit = 0u32;
    let mut number = 0u64;
    let mut body_tx = Value::Null;
    let mut validator = Value::Null;
    let mut transfer = Value::Null;
    let mut check_pt = Value::Null;
    let mut bin = vec![];
    let role = match method {
        "build_cross_chain_transfer_transaction" | "build_submit_checkpoint_transaction" => roles[1],
        "get_cells" => roles[2],
        _ => roles[0],
    };
    match method {
        "get_block_by_number" => {
            number = g.u64();
            want = block_view(g);
            script_.push((method.into(), json!([q(number as u128)])));
            results.push(want.clone());
        }
        "get_tip_header" => {
            want = header_view(g);
            script_.push((method.into(), Value::Null));
            results.push(want.clone());
        }
        "get_transaction" | "get_txs_by_hashes" => {
            let k = if method == "get_transaction" { 1 } else { g.below(6) };
            let mut w = vec![];
            for i in 0..k as usize {
                // sometimes the same one again
                let h = if i > 0 && g.below(5) == 0 { hashes[g.below(i as u64) as usize].clone() } else { h32(g) };
                if let Some(j) = hashes.iter().position(|x| *x == h) {
                    results.push(results[j].clone());
                    w.push(Value::clone(&w[j]));
                    script_.push(("get_transaction".into(), json!([h])));
                    hashes.push(h);
                    continue;
                }
                let (r, t) = tx_response(g);
                script_.push(("get_transaction".into(), json!([h])));
                hashes.push(h);
                results.push(r);
                w.push(t);
            }
            want = if method == "get_transaction" { w.pop().unwrap() } else { Value::Array(w) };
        }
        "send_transaction" => {
            body_tx = tx(g);
            validator = match g.below(3) {
                0 => Value::Null,
                1 => json!("well_known_scripts_only"),
                _ => json!("passthrough"),
            };
            want = h32(g);
            script_.push((method.into(), json!([body_tx, validator])));
            results.push(want.clone());
        }
        "build_cross_chain_transfer_transaction" => {
            transfer = json!({"sender": g.text(30), "receiver": g.text(30), "udt_hash": h32(g), "amount": g.u64().to_string(), "direction": g.byte(), "memo": format!("0x{}", hex(&g.bytes_n(20)))});
            want = completion(g);
            script_.push((method.into(), json!([transfer])));
            results.push(want.clone());
        }
        "build_submit_checkpoint_transaction" => {
            bin = g.bytes(40);
            check_pt = json!({
                "node_id": {"flag": g.byte(), "content": data(g, 20)}, "admin_id": {"flag": g.byte(), "content": data(g, 20)},
                "period_number": g.u64(), "checkpoint": bin, "selection_lock_hash": h32(g), "checkpoint_type_hash": h32(g),
            });
            want = completion(g);
            script_.push((method.into(), json!([check_pt])));
            results.push(want.clone());
        }
        _ => {
            key = search_key(g);
            limit = g.u64() as u32;
            cursor = if g.bool() { data(g, 30) } else { Value::Null };
            want = cells(g);
            script_.push((method.into(), json!([key, "asc", q(limit as u128), cursor])));
            results.push(want.clone());
        }
    }
    g.note(|| format!("{} {:?} {}", method, fault, script_.iter().map(|s| s.1.to_string()).collect::<Vec<_>>().join(" ")));
    // a fault hits one of the requests
    let hit = if script_.is_empty() { usize::MAX } else { g.below(script_.len() as u64) as usize };
    let mut answers = vec![];
    for (i, r) in results.iter().enumerate() {
        let f = if hit < usize::MAX && script_[i].1 == script_[hit].1 { fault } else { Fault::None };
        let delay = if results.len() > 1 && g.below(3) == 0 { g.below(8) } else { 0 };
        let (st, b) = respond(g, f, r);
        answers.push((st, b, delay));
    }
    let log: Arc<Mutex<Vec<Req>>> = Arc::new(Mutex::new(vec![]));
    let log2 = log.clone();
    let plan: Vec<Value> = script_.iter().map(|s| s.1.clone()).collect();
    let handler: Handler = Arc::new(move |r: &Req| {
        log2.lock().unwrap().push(r.clone());
        let body: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
        // the request this answers (by its parameters, where several are under way)
        let k = (0..plan.len()).find(|&i| plan.len() == 1 || body["params"] == plan[i]);
        match k {
            Some(i) => {
                let (st, b, delay) = &answers[i];
                Answer { status: *st, body: b(&body["id"]), delay: *delay }
            }
            None => Answer { status: 500, body: b"unexpected".to_vec(), delay: 0 },
        }
    });
    srv.cases.lock().unwrap().insert(case.into(), handler);

    let ctx = Context::new();
    let c = client.clone();
    let (h2, m2) = (hashes.clone(), method);
    let fut = async move {
        let d = Duration::from_secs(60);
        let r = async {
            match m2 {
                "get_block_by_number" => ser(c.get_block_by_number(ctx, number.into()).await),
                "get_tip_header" => ser(c.get_tip_header(ctx).await),
                "get_transaction" => ser(CkbClient::get_transaction(&c, ctx, &de::<H256>(&h2[0])).await),
                "get_txs_by_hashes" => ser(c.get_txs_by_hashes(ctx, h2.iter().map(de::<H256>).collect()).await),
                "send_transaction" => ser(c.send_transaction(ctx, &de(&body_tx), if validator.is_null() { None } else { Some(de(&validator)) }).await),
                "build_cross_chain_transfer_transaction" => {
                    let s = |k: &str| transfer[k].as_str().unwrap().to_string();
                    let p = CrossChainTransferPayload { sender: s("sender"), receiver: s("receiver"), udt_hash: de(&transfer["udt_hash"]), amount: s("amount"), direction: transfer["direction"].as_u64().unwrap() as u8, memo: de(&transfer["memo"]) };
                    ser(c.build_cross_chain_transfer_transaction(ctx, p).await)
                }
                "build_submit_checkpoint_transaction" => {
                    let id = |k: &str| Identity { flag: check_pt[k]["flag"].as_u64().unwrap() as u8, content: check_pt[k]["content"].as_str().unwrap().parse::<Hex>().unwrap() };
                    let p = SubmitCheckpointPayload { node_id: id("node_id"), admin_id: id("admin_id"), period_number: check_pt["period_number"].as_u64().unwrap(), checkpoint: bin.into(), selection_lock_hash: de(&check_pt["selection_lock_hash"]), checkpoint_type_hash: de(&check_pt["checkpoint_type_hash"]) };
                    ser(c.build_submit_checkpoint_transaction(ctx, p).await)
                }
                _ => ser(c.fetch_live_cells(ctx, de(&key), limit, if cursor.is_null() { None } else { Some(de(&cursor)) }).await),
            }
        };
        tokio::time::timeout(d, r).await
    };
    // a panic of the call is the failure of its task
    let got = match srv.rt.block_on(async { srv.rt.spawn(fut).await }) {
        Ok(Ok(r)) => r,
        Ok(Err(_)) => panic!("harness: no answer within 60 s"),
        Err(e) => return Err(fail("rpc-panic", format!("{} panics when the node answers with {:?}: {}", method, fault, e))),
    };
    // (a call that failed may leave others of its requests under way)
    let reqs = log.lock().unwrap().clone();
    let failed = fault != Fault::None && hit < usize::MAX;
    if failed {
        check!(got.is_err(), "rpc-error", "{} reports success when the node answers with {:?}: {:?}", method, fault, got);
    } else {
        g.hit();
        check_eq!(got.clone().map_err(|e| e), Ok(want), "rpc-result", "result of {}", method);
        // (the same transaction need not be asked for twice)
        let asked = script_.iter().map(|s| s.1.to_string()).collect::<BTreeSet<_>>().len();
        check!(asked <= reqs.len() && reqs.len() <= script_.len(), "rpc-requests", "{} requests for {}", reqs.len(), method);
    }
    let mut left: Vec<&Value> = script_.iter().map(|s| &s.1).collect();
    for r in &reqs {
        let name = if method == "get_txs_by_hashes" { "get_transaction" } else { method };
        check_eq!(r.path.clone(), format!("/{}/{}", case, role), "rpc-target", "node that {} goes to", method);
        check!(r.line.starts_with("POST ") && r.ty.starts_with("application/json"), "rpc-http", "{} is sent as {} with type {}", method, r.line, r.ty);
        let b: Value = serde_json::from_slice(&r.body).map_err(|e| fail("rpc-request", format!("request of {}: {}", method, e)))?;
        check_eq!(b["jsonrpc"], json!("2.0"), "rpc-request", "version in the request of {}", method);
        check_eq!(b["method"], json!(name), "rpc-request", "method in the request of {}", method);
        let id = b["id"].as_u64().ok_or_else(|| fail("rpc-id", format!("id in the request of {}: {}", method, b["id"])))?;
        check!(ids.insert(id), "rpc-id", "id {} of {} was used before", id, method);
        let params = &b["params"];
        let k = left.iter().position(|p| *p == params || (p.is_null() && (params == &json!([]) || b.get("params").is_none())));
        match k {
            Some(k) => {
                left.remove(k);
            }
            None => return Err(fail("rpc-params", format!("parameters of {}: {} where {} was asked", method, params, left.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" or ")))),
        }
    }
    Ok(!(failed && script_.len() > 1))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id:     "P19",
        rule:   "cases with at least one call that gets an answer",
        assume: vec!["the JSON forms of ckb-jsonrpc-types and ckb-sdk are those of the CKB RPC"],
        facets: vec![Facet::new("calls", 2_500, calls)],
    }]
}
