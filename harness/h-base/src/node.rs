//! P13 versions, P14 logs, P20 forks and metadata versions, P22 tracing and metrics macros.
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::str::FromStr;

use common_version::Version;
use pbt::{check, check_eq, fail, no_panic, Facet, Gen, Prop, Res};
use protocol::traits::Context;
use protocol::types::{HardforkInfo, HardforkInfoInner, MetadataVersion, H256};

use crate::config::Dir;
use crate::gens;

// ---- P13

#[derive(Debug, Clone, PartialEq)]
enum Pre {
    Num(u64),
    Alpha(String),
}
#[derive(Debug, Clone)]
struct Ver {
    n:     [u64; 3],
    pre:   Vec<Pre>,
    build: String,
}
fn ident_ok(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')
}
fn num_ok(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
        return None;
    }
    s.parse().ok()
}
/// Semantic Versioning 2.0.0 (numbers that fit 64 bits).
fn semver(s: &str) -> Option<Ver> {
    let (rest, build) = match s.split_once('+') {
        Some((a, b)) => {
            if !b.split('.').all(ident_ok) {
                return None;
            }
            (a, b.to_string())
        }
        None => (s, String::new()),
    };
    let (core, pre) = match rest.split_once('-') {
        Some((a, b)) => {
            let mut v = vec![];
            for p in b.split('.') {
                if !ident_ok(p) {
                    return None;
                }
                if p.bytes().all(|b| b.is_ascii_digit()) {
                    // numeric identifiers have no leading zero; long ones are compared as numbers
                    if p.len() > 1 && p.starts_with('0') {
                        return None;
                    }
                    v.push(Pre::Num(p.parse().ok()?));
                } else {
                    v.push(Pre::Alpha(p.into()));
                }
            }
            (a, v)
        }
        None => (rest, vec![]),
    };
    let c: Vec<&str> = core.split('.').collect();
    if c.len() != 3 {
        return None;
    }
    Some(Ver { n: [num_ok(c[0])?, num_ok(c[1])?, num_ok(c[2])?], pre, build })
}
fn precedence(a: &Ver, b: &Ver) -> Ordering {
    a.n.cmp(&b.n).then_with(|| match (a.pre.is_empty(), b.pre.is_empty()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => {
            for (x, y) in a.pre.iter().zip(&b.pre) {
                let o = match (x, y) {
                    (Pre::Num(x), Pre::Num(y)) => x.cmp(y),
                    (Pre::Num(_), _) => Ordering::Less,
                    (_, Pre::Num(_)) => Ordering::Greater,
                    (Pre::Alpha(x), Pre::Alpha(y)) => x.cmp(y),
                };
                if o != Ordering::Equal {
                    return o;
                }
            }
            a.pre.len().cmp(&b.pre.len())
        }
    })
}
fn ver_text(g: &mut Gen) -> String {
    let n = |g: &mut Gen| match g.below(4) {
        0 => g.below(3),
        1 => g.below(100),
        2 => 9 + g.below(3),
        _ => g.u64() >> 1,
    };
    let mut s = format!("{}.{}.{}", if g.bool() { 0 } else { n(g) }, n(g), n(g));
    if g.below(2) == 0 {
        let p: Vec<String> = (0..1 + g.below(3))
            .map(|_| match g.below(4) {
                0 => n(g).to_string(),
                1 => g.pick(&["alpha", "beta", "rc", "-", "a-b", "0a", "Z"]).to_string(),
                2 => format!("beta{}", g.below(20)),
                _ => g.below(20).to_string(),
            })
            .collect();
        s += &format!("-{}", p.join("."));
    }
    if g.below(4) == 0 {
        s += &format!("+{}", g.pick(&["abcdef0", "unknown", "001", "A.B", "x-y"]));
    }
    if g.below(5) == 0 {
        let b = g.mutate(s.as_bytes());
        s = String::from_utf8_lossy(&b).into_owned();
    }
    s
}
fn version(g: &mut Gen) -> Res {
    let (s, t) = (ver_text(g), ver_text(g));
    let (a, b) = (semver(&s), semver(&t));
    g.note(|| format!("{} {}", s, t));
    let va = no_panic(|| Version::from_str(&s).ok()).map_err(|p| fail("version-panic", p))?;
    // the longest numeric identifiers are beyond this reference
    let big = s.split(|c: char| !c.is_ascii_digit()).any(|d| d.len() > 19) || t.split(|c: char| !c.is_ascii_digit()).any(|d| d.len() > 19);
    if big {
        return Ok(());
    }
    check_eq!(va.is_some(), a.is_some(), "version-parse", "{:?} is a version", s);
    let Some(a) = a else { return Ok(()) };
    let va = va.unwrap();
    check_eq!(va.to_string(), s, "version-print", "printed version");
    let n = Version::new(&s);
    check_eq!(n.commit_id(), "unknown", "version-commit", "commit of a version without one");
    let base = s.split('+').next().unwrap();
    check_eq!(n.to_string(), format!("{}+unknown", base), "version-print", "printed version without commit");
    let commit: String = match g.below(3) {
        0 => g.pick(&["abc", "DEAD", "0", "00", "a.b", "v1-2-gabc"]).to_string(),
        1 => refs::hex(&g.entropy(4)),
        _ => "unknown".into(),
    };
    let w = Version::new_with_commit_id(&s, &commit);
    check_eq!(w.commit_id(), commit.to_ascii_lowercase(), "version-commit", "commit");
    check_eq!(w.to_string(), format!("{}+{}", base, commit), "version-print", "printed version with commit");
    check_eq!(Version::from_str(&w.to_string()).ok(), Some(w.clone()), "version-roundtrip", "version read back");
    let Some(b) = b else { return Ok(()) };
    g.hit();
    // compatibility compares versions whatever their commits
    let m = Version::new(&t);
    let want = precedence(&a, &b);
    check_eq!(n.cmp(&m), want, "version-order", "order of {} and {}", s, t);
    check_eq!((n < m, n == m, n > m), (want == Ordering::Less, want == Ordering::Equal, want == Ordering::Greater), "version-order", "order of {} and {}", s, t);
    if want != Ordering::Equal {
        check_eq!(w.cmp(&m), want, "version-order", "order of {} and {} with commits", w, m);
    }
    g.label_if(want == Ordering::Equal, "equal");
    let _ = &b.build;
    Ok(())
}

// ---- P14

/// What a logging process does: its settings and the records it writes.
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
struct Plan {
    filter:   String,
    console:  bool,
    lines:    bool,
    file:     bool,
    metrics:  bool,
    dir:      String,
    limit:    u64,
    modules:  BTreeMap<String, String>,
    records:  Vec<Record>,
    /// Record k is written by thread k % threads.
    threads:  usize,
}
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
struct Record {
    /// "log", "metrics"
    kind:   String,
    level:  String,
    module: String,
    event:  String,
    text:   String,
    seq:    usize,
    span:   Option<(u64, u64, u64)>,
}

/// The logging process (see main).
pub fn log_child() {
    use common_logger::object;
    let p: Plan = serde_json::from_reader(std::io::stdin()).unwrap();
    common_logger::init(p.filter, p.console, p.lines, p.file, p.metrics, p.dir.into(), p.limit, p.modules.into_iter().collect::<std::collections::HashMap<_, _>>());
    let write = |r: Record| {
        let body = object! { "seq" => r.seq, "text" => r.text };
        if r.kind == "metrics" {
            common_logger::metrics(&r.event, body);
            return;
        }
        let level: log::Level = r.level.parse().unwrap();
        let mut ctx = Context::new();
        if let Some((hi, lo, id)) = r.span {
            let st = rustracing_jaeger::span::SpanContextStateBuilder::new().trace_id(rustracing_jaeger::span::TraceId { high: hi, low: lo }).span_id(id).finish();
            ctx = ctx.with_value("parent_span_ctx", Some(rustracing_jaeger::span::SpanContext::new(st, vec![])));
        }
        common_logger::log(level, &r.module, &r.event, &ctx, body);
    };
    if p.threads < 2 {
        p.records.into_iter().for_each(write);
    } else {
        std::thread::scope(|s| {
            for k in 0..p.threads {
                let mine: Vec<_> = p.records.iter().filter(|r| r.seq % p.threads == k).cloned().collect();
                s.spawn(move || mine.into_iter().for_each(write));
            }
        });
    }
    log::logger().flush();
}

fn rank(l: &str) -> usize {
    ["off", "error", "warn", "info", "debug", "trace"].iter().position(|x| *x == l).unwrap_or(3)
}

fn logs(g: &mut Gen) -> Res {
    let dir = Dir::new();
    let root = dir.0.join("logs");
    let mods = ["network", "consensus", "mempool", "core_run", "cli"];
    let mut modules = BTreeMap::new();
    for m in mods.iter().take(3) {
        if g.below(3) == 0 {
            modules.insert(m.to_string(), g.pick(&["off", "error", "warn", "info", "debug", "trace", "odd"]).to_string());
        }
    }
    let n = g.usize(0, 60);
    let records: Vec<Record> = (0..n)
        .map(|seq| Record {
            kind:   if g.below(4) == 0 { "metrics".into() } else { "log".into() },
            level:  g.pick(&["error", "warn", "info", "debug", "trace"]).to_string(),
            module: {
                let m = *g.pick(&mods);
                if g.below(5) == 0 { format!("{}::inner", m) } else { m.to_string() }
            },
            event:  format!("ev{}", g.below(100)),
            text:   if g.bool() { g.text(60) } else { g.ascii(200) },
            seq,
            span:   if g.below(3) == 0 { Some((if g.bool() { 0 } else { g.u64() }, g.u64(), g.u64())) } else { None },
        })
        .collect();
    let p = Plan {
        filter: g.pick(&["off", "error", "warn", "info", "debug", "trace", "other"]).to_string(),
        console: g.below(4) == 0,
        lines: g.bool(),
        file: g.below(5) > 0,
        metrics: g.below(4) > 0,
        dir: root.to_str().unwrap().into(),
        limit: *g.pick(&[1u64, 200, 600, 2000, 1 << 30]),
        modules,
        records,
        threads: if g.below(4) == 0 { 1 + g.usize(1, 4) } else { 1 },
    };
    // the process may end and start again, with the same folder
    let mut cuts: Vec<usize> = (0..g.below(3)).map(|_| g.usize(0, n)).collect();
    cuts.sort();
    g.label_if(!cuts.is_empty(), "processes started again");
    g.label_if(p.threads > 1, "several threads");
    g.note(|| format!("filter {}, file {}, metrics {}, limit {}, {} records, modules {:?}", p.filter, p.file, p.metrics, p.limit, n, p.modules));
    let mut stdout = String::new();
    let mut from = 0;
    for to in cuts.into_iter().chain([n]) {
        let part = Plan { records: p.records[from..to].to_vec(), limit: if from > 0 && g.below(4) == 0 { *g.pick(&[1u64, 200, 600, 2000]) } else { p.limit }, ..p.clone() };
        from = to;
        let mut c = Command::new(std::env::current_exe().unwrap())
            .env("H_BASE_LOG_CHILD", "1")
            .current_dir(&dir.0)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|_| pbt::Stop::Discard)?;
        serde_json::to_writer(c.stdin.take().unwrap(), &part).unwrap();
        let out = c.wait_with_output().map_err(|_| pbt::Stop::Discard)?;
        check!(out.status.success(), "log-panic", "logging fails: {}", String::from_utf8_lossy(&out.stderr));
        stdout += &String::from_utf8_lossy(&out.stdout);
    }
    // what went where: (archive before the current file, in order of time and index)
    let read = |kind: &str| -> Result<Vec<serde_json::Value>, pbt::Stop> {
        let mut files: Vec<(i64, u64, std::path::PathBuf)> = vec![];
        for e in std::fs::read_dir(&root).map_err(|e| fail("log-files", e.to_string()))? {
            let p = e.unwrap().path();
            let name = p.file_name().unwrap().to_str().unwrap().to_string();
            if name == format!("{}.log", kind) {
                files.push((i64::MAX, 0, p));
            } else if let Some((date, rest)) = name.split_once(&format!(".{}.", kind)) {
                let st = rest.strip_suffix(".log").ok_or_else(|| fail("log-files", format!("an archive is called {}", name)))?;
                let (ts, k) = st.split_once('-').unwrap_or((st, "0"));
                check!(date.len() == 10 && date.as_bytes()[4] == b'-', "log-files", "an archive is called {}", name);
                match (ts.parse(), k.parse()) {
                    (Ok(ts), Ok(k)) => files.push((ts, k, p)),
                    _ => return Err(fail("log-files", format!("an archive is called {}", name))),
                }
            }
        }
        files.sort();
        let mut v = vec![];
        for (ts, _, p) in files {
            let s = std::fs::read_to_string(&p).map_err(|e| fail("log-files", e.to_string()))?;
            if ts != i64::MAX {
                check!(s.len() as u64 > 0, "log-files", "an empty archive {:?}", p);
            }
            for l in s.lines() {
                v.push(serde_json::from_str(l).map_err(|e| fail("log-line", format!("{:?} in {:?}: {}", l, p, e)))?);
            }
        }
        Ok(v)
    };
    let line = |r: &Record| -> (String, String, BTreeMap<String, String>) {
        let mut m = BTreeMap::new();
        m.insert("seq".into(), r.seq.to_string());
        m.insert("text".into(), format!("{:?}", r.text));
        if r.kind == "metrics" {
            m.insert("name".into(), format!("{:?}", r.event));
            return ("metrics".into(), "TRACE".into(), m);
        }
        m.insert("event".into(), format!("{:?}", r.event));
        if let Some((hi, lo, id)) = r.span {
            let t = if hi == 0 { format!("{:x}", lo) } else { format!("{:x}{:016x}", hi, lo) };
            m.insert("trace_id".into(), format!("{:?}", t));
            m.insert("span_id".into(), id.to_string());
        }
        (r.module.clone(), r.level.to_uppercase(), m)
    };
    let show = |j: &serde_json::Value| -> (String, String, BTreeMap<String, String>) {
        let msg: serde_json::Value = serde_json::from_str(j["message"].as_str().unwrap_or("")).unwrap_or_default();
        let m = msg.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().map(|s| format!("{:?}", s)).unwrap_or(v.to_string()))).collect()).unwrap_or_default();
        (j["target"].as_str().unwrap_or("").into(), j["level"].as_str().unwrap_or("").into(), m)
    };
    let own = |m: &str| p.modules.get(m.split("::").next().unwrap());
    let cli = |r: &Record| r.module.split("::").next() == Some("cli");
    let main: Vec<_> = p
        .records
        .iter()
        .filter(|r| r.kind == "log" && !cli(r))
        .filter(|r| match own(&r.module) {
            Some(l) => rank(&r.level) <= rank(l),
            None => p.file && rank(&r.level) <= rank(&p.filter),
        })
        .map(line)
        .collect();
    let met: Vec<_> = p.records.iter().filter(|r| r.kind == "metrics" && p.metrics).map(line).collect();
    // records of several threads are in each thread's order
    let in_order = |got: Vec<(String, String, BTreeMap<String, String>)>| -> Result<Vec<(String, String, BTreeMap<String, String>)>, pbt::Stop> {
        if p.threads < 2 {
            return Ok(got);
        }
        let seq = |x: &(String, String, BTreeMap<String, String>)| x.2.get("seq").and_then(|s| s.parse::<usize>().ok()).unwrap_or(usize::MAX);
        for k in 0..p.threads {
            let mine: Vec<_> = got.iter().map(seq).filter(|s| s % p.threads == k).collect();
            check!(mine.windows(2).all(|w| w[0] < w[1]), "log-order", "the order of a thread's records is {:?}", mine);
        }
        let mut v = got;
        v.sort_by_key(seq);
        Ok(v)
    };
    let got = in_order(read("axon")?.iter().map(show).collect())?;
    if p.limit < 1 << 30 && main.len() > 3 {
        g.hit();
    }
    check_eq!(got.len(), main.len(), "log-records", "number of records in the log and its archives");
    check_eq!(got, main, "log-records", "records in the log and its archives");
    let got = in_order(read("metrics")?.iter().map(show).collect())?;
    check_eq!(got, met, "log-metrics", "records in the metrics log and its archives");
    let cmd: Vec<_> = p.records.iter().filter(|r| r.kind == "log" && cli(r)).map(line).collect();
    let got = in_order(read("cli")?.iter().map(show).collect())?;
    check_eq!(got, cmd, "log-cli", "records of the command line in its log");
    // the console
    for r in p.records.iter().filter(|r| r.kind == "log" && cli(r)) {
        let n = stdout.matches(&format!("\"seq\":{},", r.seq)).count();
        check_eq!(n, 1, "log-console", "times the command line's record {} is on the console", r.seq);
    }
    if p.console {
        for r in p.records.iter().filter(|r| r.kind == "log" && !cli(r) && own(&r.module).is_none()) {
            let there = stdout.contains(&format!("\"seq\":{},", r.seq));
            check_eq!(there, rank(&r.level) <= rank(&p.filter), "log-console", "record {} on the console", r.seq);
        }
    }
    Ok(())
}

// ---- P20

fn forks(g: &mut Gen) -> Res {
    let mut h = HardforkInfo::default();
    // the reference: which flags were activated when, and what is in force at a height
    let mut acts: Vec<(u64, [u8; 32])> = vec![];
    let mut last = 0u64;
    let n = g.usize(0, 8);
    let mut rejected = 0;
    for _ in 0..n {
        let num = match g.below(5) {
            0 => last,
            1 => g.below(last.saturating_add(1)),
            2 => g.u64(),
            _ => last.saturating_add(1 + g.below(5)),
        };
        let mut f = [0u8; 32];
        for _ in 0..g.below(3) {
            f[g.pick(&[0usize, 7, 24, 31]).to_owned()] |= 1 << g.below(8);
        }
        if g.below(8) == 0 {
            f = g.arr();
        }
        let before = h.clone();
        no_panic(|| h.push(HardforkInfoInner { block_number: num, flags: H256(f) })).map_err(|p| fail("fork-panic", p))?;
        let cur = acts.last().map(|a| a.1);
        let late = acts.last().map(|a| num < a.0).unwrap_or(false);
        let union: [u8; 32] = std::array::from_fn(|i| f[i] | cur.map(|c| c[i]).unwrap_or(0));
        if late || cur == Some(union) {
            check_eq!(h, before, "fork-push", "the list after activating nothing new, or in the past");
            rejected += 1;
            continue;
        }
        match acts.last_mut() {
            Some(a) if a.0 == num => a.1 = union,
            _ => acts.push((num, union)),
        }
        last = num;
        check_eq!(h.inner.iter().map(|x| (x.block_number, x.flags.0)).collect::<Vec<_>>(), acts, "fork-push", "list of hard forks");
    }
    for w in h.inner.windows(2) {
        check!(w[0].block_number < w[1].block_number, "fork-order", "hard forks out of order: {:?}", h);
        check!(w[0].flags | w[1].flags == w[1].flags && w[0].flags != w[1].flags, "fork-flags", "a hard fork deactivates something: {:?}", h);
    }
    if acts.len() > 1 && rejected > 0 {
        g.hit();
    }
    g.note(|| format!("{:?}", h));
    Ok(())
}

fn versions(g: &mut Gen) -> Res {
    let (a, b) = (g.u64(), g.u64());
    let v = MetadataVersion::new(a, b);
    check_eq!((v.start, v.end), (a, b), "metadata-version", "bounds");
    let n = match g.below(6) {
        0 => a,
        1 => b,
        2 => a.wrapping_sub(1),
        3 => b.wrapping_add(1),
        4 => a.wrapping_add(1),
        _ => g.u64(),
    };
    check_eq!(v.contains(n), (a as u128..b as u128 + 1).contains(&(n as u128)), "metadata-version", "{} in {}..={}", n, a, b);
    // the metadata of a chain: consecutive versions, each block in exactly one
    let mut at = g.u64() >> 2;
    let mut vs = vec![];
    for _ in 0..1 + g.below(4) {
        let end = at + g.below(1 << 20);
        vs.push(MetadataVersion::new(at, end));
        at = end + 1;
    }
    let k = vs[0].start + g.below(at - vs[0].start);
    check_eq!(vs.iter().filter(|v| v.contains(k)).count(), 1, "metadata-version", "versions that contain {}", k);
    g.hit();
    let m = gens::metadata(g);
    let (i, c) = m.clone().into_part();
    check_eq!((i.version, i.epoch, &i.verifier_list, &i.propose_counter), (m.version, m.epoch, &m.verifier_list, &m.propose_counter), "metadata-parts", "metadata in parts");
    check_eq!(c, m.consensus_config, "metadata-parts", "consensus configuration");
    Ok(())
}

// ---- P22

/// Stand-ins for what the macros' expansion uses, which record what they are told.
mod common_apm {
    use std::cell::RefCell;
    #[derive(Default, Debug, Clone, PartialEq)]
    pub struct Rec {
        pub on:       bool,
        pub spans:    Vec<Span>,
        pub counters: Vec<String>,
        pub observed: Vec<(String, bool)>,
    }
    #[derive(Default, Debug, Clone, PartialEq)]
    pub struct Span {
        pub name:   String,
        pub parent: Option<u64>,
        pub tags:   Vec<(String, String)>,
        pub logs:   Vec<(String, String)>,
        pub ended:  bool,
    }
    thread_local! { pub static REC: RefCell<Rec> = RefCell::new(Rec::default()); }

    #[derive(Clone, Copy)]
    pub struct Instant(std::time::Instant);
    impl Instant {
        pub fn now() -> Self {
            Instant(std::time::Instant::now())
        }
        pub fn elapsed(&self) -> std::time::Duration {
            self.0.elapsed()
        }
    }

    pub mod tracing {
        use super::{Span as S, REC};
        pub struct LogField(pub String, pub String);
        impl LogField {
            pub fn new(k: &str, v: impl ToString) -> Self {
                LogField(k.into(), v.to_string())
            }
        }
        pub struct Tag(pub String, pub String);
        impl Tag {
            pub fn new(k: &str, v: impl ToString) -> Self {
                Tag(k.into(), v.to_string())
            }
        }
        #[derive(Clone, Debug, PartialEq)]
        pub struct SpanContext(pub u64);
        pub struct Span(pub usize, SpanContext);
        impl Span {
            pub fn set_tag(&mut self, f: impl FnOnce() -> Tag) {
                let t = f();
                REC.with(|r| r.borrow_mut().spans[self.0].tags.push((t.0, t.1)));
            }
            pub fn log(&mut self, f: impl FnOnce(&mut Log)) {
                let mut l = Log(vec![]);
                f(&mut l);
                REC.with(|r| r.borrow_mut().spans[self.0].logs.extend(l.0));
            }
            pub fn context(&self) -> Option<&SpanContext> {
                Some(&self.1)
            }
        }
        impl Drop for Span {
            fn drop(&mut self) {
                REC.with(|r| r.borrow_mut().spans[self.0].ended = true);
            }
        }
        pub struct Log(Vec<(String, String)>);
        impl Log {
            pub fn field(&mut self, f: LogField) {
                self.0.push((f.0, f.1));
            }
        }
        pub struct Tracer;
        impl Tracer {
            pub fn load(&self) -> &Tracer {
                self
            }
            fn open(&self, name: String, parent: Option<u64>, tags: Vec<Tag>) -> Option<Span> {
                REC.with(|r| {
                    let mut r = r.borrow_mut();
                    if !r.on {
                        return None;
                    }
                    let id = r.spans.len();
                    r.spans.push(S { name, parent, tags: tags.into_iter().map(|t| (t.0, t.1)).collect(), ..S::default() });
                    Some(Span(id, SpanContext(1000 + id as u64)))
                })
            }
            pub fn span(&self, name: impl Into<String>, tags: Vec<Tag>) -> Option<Span> {
                self.open(name.into(), None, tags)
            }
            pub fn child_of_span(&self, name: impl Into<String>, p: SpanContext, tags: Vec<Tag>) -> Option<Span> {
                self.open(name.into(), Some(p.0), tags)
            }
        }
        pub static TRACER: Tracer = Tracer;
    }

    pub mod metrics {
        pub fn duration_to_sec(d: std::time::Duration) -> f64 {
            d.as_secs_f64()
        }
        pub mod api {
            use super::super::REC;
            pub struct Counter(&'static str);
            impl Counter {
                pub fn inc(&self) {
                    REC.with(|r| r.borrow_mut().counters.push(self.0.into()));
                }
            }
            pub struct Histogram(&'static str);
            impl Histogram {
                pub fn observe(&self, s: f64) {
                    REC.with(|r| r.borrow_mut().observed.push((self.0.into(), (0.0..60.0).contains(&s))));
                }
            }
            pub struct Outcome {
                pub success: Counter,
                pub failure: Counter,
            }
            #[allow(non_snake_case)]
            pub struct Counters {
                pub eth_call:    Outcome,
                pub net_version: Outcome,
            }
            #[allow(non_snake_case)]
            pub struct Times {
                pub eth_call:    Histogram,
                pub net_version: Histogram,
            }
            pub static API_REQUEST_RESULT_COUNTER_VEC_STATIC: Counters = Counters {
                eth_call:    Outcome { success: Counter("eth_call ok"), failure: Counter("eth_call failed") },
                net_version: Outcome { success: Counter("net_version ok"), failure: Counter("net_version failed") },
            };
            pub static API_REQUEST_TIME_HISTOGRAM_STATIC: Times = Times { eth_call: Histogram("eth_call"), net_version: Histogram("net_version") };
        }
    }
}

mod traced {
    use super::common_apm;
    use common_apm_derive::{metrics_rpc, trace_span};
    use protocol::{async_trait, traits::Context};
    use std::cell::Cell;
    thread_local! {
        pub static RUNS: Cell<u32> = const { Cell::new(0) };
        pub static SEEN: Cell<Option<Option<u64>>> = const { Cell::new(None) };
    }
    fn see(ctx: &Context) {
        RUNS.with(|r| r.set(r.get() + 1));
        SEEN.with(|s| s.set(ctx.get::<Option<common_apm::tracing::SpanContext>>("parent_span_ctx").map(|c| c.as_ref().map(|c| c.0))));
    }
    pub fn plain(x: u64, s: &str) -> Result<String, String> {
        if x % 3 == 0 {
            Err(format!("e{}{}", x, s))
        } else {
            Ok(format!("{}{}", s, x))
        }
    }
    #[async_trait]
    pub trait T {
        async fn a_result(&self, ctx: Context, x: u64, s: String) -> Result<String, String>;
        async fn a_plain(&self, ctx: Context, x: u64, s: String) -> u64;
        fn s_result(&self, ctx: Context, x: u64, s: String) -> Result<String, String>;
        fn s_plain(&self, ctx: Context, x: u64, s: String) -> u64;
        async fn a_early(&self, ctx: Context, x: u64, s: String) -> Result<String, String>;
    }
    pub struct I(pub u64);
    #[async_trait]
    impl T for I {
        #[trace_span(kind = "k.async", logs = "{len: s.len(), next: x as u128 + 1, word: hello world}", tags = "{ kind: k, twice: x as u128 * 2 }")]
        async fn a_result(&self, ctx: Context, x: u64, s: String) -> Result<String, String> {
            see(&ctx);
            let r = plain(x, &s)?;
            Ok(format!("{}!{}", r, self.0))
        }

        #[trace_span(kind = "k", name = "other")]
        async fn a_plain(&self, ctx: Context, x: u64, s: String) -> u64 {
            see(&ctx);
            x ^ s.len() as u64 ^ self.0
        }

        #[trace_span(kind = "k", logs = "{len: s.len()}")]
        fn s_result(&self, ctx: Context, x: u64, s: String) -> Result<String, String> {
            see(&ctx);
            plain(x ^ self.0, &s)
        }

        #[trace_span(kind = "k")]
        fn s_plain(&self, ctx: Context, x: u64, s: String) -> u64 {
            see(&ctx);
            x ^ s.len() as u64 ^ self.0
        }

        #[trace_span(kind = "k")]
        async fn a_early(&self, ctx: Context, x: u64, s: String) -> Result<String, String> {
            see(&ctx);
            if x % 2 == 0 {
                return Err("even".into());
            }
            tokio::task::yield_now().await;
            plain(x, &s)
        }
    }
    #[async_trait]
    pub trait R {
        async fn call(&self, x: u64, s: String) -> Result<String, String>;
        fn version(&self) -> Result<u64, String>;
    }
    #[async_trait]
    impl R for I {
        #[metrics_rpc("eth_call")]
        async fn call(&self, x: u64, s: String) -> Result<String, String> {
            RUNS.with(|r| r.set(r.get() + 1));
            let r = plain(x, &s)?;
            Ok(format!("{}!{}", r, self.0))
        }

        #[metrics_rpc("net_version")]
        fn version(&self) -> Result<u64, String> {
            RUNS.with(|r| r.set(r.get() + 1));
            if self.0 % 2 == 0 {
                Ok(self.0)
            } else {
                Err(self.0.to_string())
            }
        }
    }
}

fn macros(g: &mut Gen) -> Res {
    use common_apm::tracing::SpanContext;
    use traced::*;
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let (x, s, own) = (g.u64(), g.ascii(10), g.u64());
    let on = g.below(4) > 0;
    let parent = if g.bool() { Some(g.u64()) } else { None };
    let mut ctx = Context::new().with_value::<u64>("x", 7);
    let given = match (parent, g.bool()) {
        (Some(p), _) => {
            ctx = ctx.with_value("parent_span_ctx", Some(SpanContext(p)));
            Some(Some(p))
        }
        (None, true) => {
            ctx = ctx.with_value::<Option<SpanContext>>("parent_span_ctx", None);
            Some(None)
        }
        _ => None,
    };
    common_apm::REC.with(|r| *r.borrow_mut() = common_apm::Rec { on, ..Default::default() });
    RUNS.with(|r| r.set(0));
    SEEN.with(|r| r.set(None));
    let i = I(own);
    let kind = g.below(7);
    g.note(|| format!("function {} with {} {:?} {}, tracing {}, parent {:?}", kind, x, s, own, on, given));
    g.hit();
    let ev = |r: Result<String, String>| match r {
        Ok(s) => (true, s),
        Err(e) => (false, e),
    };
    let sp = |v: u64| (true, v.to_string());
    // what it returned, what it should have
    let (got, want, name): ((bool, String), (bool, String), &str) = match kind {
        0 => (ev(rt.block_on(i.a_result(ctx, x, s.clone()))), ev(plain(x, &s).map(|r| format!("{}!{}", r, own))), "k.async.a_result"),
        1 => (sp(rt.block_on(i.a_plain(ctx, x, s.clone()))), sp(x ^ s.len() as u64 ^ own), "k.other"),
        2 => (ev(i.s_result(ctx, x, s.clone())), ev(plain(x ^ own, &s)), "k.s_result"),
        3 => (sp(i.s_plain(ctx, x, s.clone())), sp(x ^ s.len() as u64 ^ own), "k.s_plain"),
        4 => (ev(rt.block_on(i.a_early(ctx, x, s.clone()))), if x % 2 == 0 { (false, "even".into()) } else { ev(plain(x, &s)) }, "k.a_early"),
        5 => (ev(rt.block_on(i.call(x, s.clone()))), ev(plain(x, &s).map(|r| format!("{}!{}", r, own))), "eth_call"),
        _ => (ev(i.version().map(|v| v.to_string())), (own % 2 == 0, own.to_string()), "net_version"),
    };
    check_eq!(got, want, "macro-result", "result of the annotated function {}", name);
    check_eq!(RUNS.with(|r| r.get()), 1, "macro-runs", "times the body of {} ran", name);
    let rec = common_apm::REC.with(|r| r.borrow().clone());
    if kind >= 5 {
        check_eq!(rec.counters, vec![format!("{} {}", name, if want.0 { "ok" } else { "failed" })], "macro-metrics", "counters of {}", name);
        check_eq!(rec.observed, if want.0 { vec![(name.to_string(), true)] } else { vec![] }, "macro-metrics", "times of {}", name);
        return Ok(());
    }
    check_eq!(rec.spans.len(), on as usize, "macro-span", "spans of {}", name);
    let seen = SEEN.with(|s| s.get());
    check_eq!(seen, if on { Some(Some(1000)) } else { given }, "macro-context", "parent span seen by the body of {}", name);
    if !on {
        return Ok(());
    }
    let sp = &rec.spans[0];
    check_eq!((sp.name.as_str(), sp.parent, sp.ended), (name, parent, true), "macro-span", "span of {}", name);
    let p = |k: &str, v: String| (k.to_string(), v);
    let mut tags = vec![];
    let mut logs = vec![];
    if kind == 0 {
        tags.push(p("kind", "k".into()));
        tags.push(p("twice", (x as u128 * 2).to_string()));
        logs.extend([p("len", s.len().to_string()), p("next", (x as u128 + 1).to_string()), p("word", "hello world".into())]);
    }
    if kind == 2 {
        logs.push(p("len", s.len().to_string()));
    }
    if kind == 0 || kind == 2 || kind == 4 {
        tags.push(p("error", (!want.0).to_string()));
        if !want.0 {
            logs.push(p("error_msg", want.1.clone()));
        }
    }
    let (mut t, mut l) = (sp.tags.clone(), sp.logs.clone());
    for v in [&mut t, &mut l, &mut tags, &mut logs] {
        v.sort();
    }
    check_eq!((t, l), (tags, logs), "macro-span", "tags and logs of {}", name);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P13", rule: "two valid versions are compared", assume: vec!["identifiers of more than 19 digits are not compared"], facets: vec![Facet::new("version", 300_000, version)] },
        Prop { id: "P14", rule: "a process that logs to small files, with more than three records", assume: vec!["a module with a level of its own logs to the file whatever log_to_file says"], facets: vec![Facet::new("records", 1_500, logs).deep(5)] },
        Prop { id: "P20", rule: "two or more activations and one that is ignored; any metadata version", assume: vec![], facets: vec![Facet::new("hardforks", 300_000, forks), Facet::new("versions", 200_000, versions)] },
        Prop { id: "P22", rule: "every case", assume: vec!["the tracer and the counters are stand-ins that record"], facets: vec![Facet::new("macros", 60_000, macros)] },
    ]
}
