use crate::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

type CaseFn = Box<dyn Fn(&mut Gen) -> Res + Sync + Send>;

pub struct Facet {
    pub name:   &'static str,
    pub quick:  u64,
    pub deep:   u64,
    pub serial: bool,
    pub f:      CaseFn,
}

impl Facet {
    /// `quick` cases in the quick tier, 40 times as many in the thorough one.
    pub fn new(name: &'static str, quick: u64, f: impl Fn(&mut Gen) -> Res + Sync + Send + 'static) -> Facet {
        Facet { name, quick, deep: quick * 40, serial: false, f: Box::new(f) }
    }

    pub fn deep(mut self, n: u64) -> Facet {
        self.deep = n;
        self
    }

    /// The code under test has process-global state: cases run one at a time.
    pub fn serial(mut self) -> Facet {
        self.serial = true;
        self
    }
}

pub struct Prop {
    pub id:     &'static str,
    pub rule:   &'static str,
    pub assume: Vec<&'static str>,
    pub facets: Vec<Facet>,
}

#[derive(Default)]
struct Stats {
    evals:      u64,
    discards:   u64,
    nontrivial: u64,
    distinct:   HashSet<u64>,
    labels:     BTreeMap<String, u64>,
    samples:    Vec<String>,
    excluded:   BTreeMap<String, u64>,
}

struct Failure {
    facet:   String,
    sig:     String,
    msg:     String,
    choices: Vec<u64>,
    notes:   Vec<String>,
    case:    String,
    reruns:  u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn words(v: &[u64]) -> u64 {
    let mut b = Vec::with_capacity(v.len() * 8);
    for x in v {
        b.extend_from_slice(&x.to_le_bytes());
    }
    hash64(&b)
}

fn case_rng(seed: u64, facet: &str, i: u64) -> Rng {
    Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash64(facet.as_bytes()).rotate_left(17) ^ i.wrapping_mul(0xD1B54A32D192ED03))
}

fn exec(f: &CaseFn, prefix: Vec<u64>, rng: Option<Rng>, verbose: bool, allow: &[String]) -> (Gen, Res) {
    let mut g = Gen::new(prefix, rng, verbose, allow);
    let r = run_case(&**f, &mut g);
    let r = g.known(r);
    (g, r)
}

/// Integrated shrinking: deletes, zeroes and lowers choices while the same failure kind remains.
fn shrink(f: &CaseFn, start: Vec<u64>, sig: &str, allow: &[String], max_runs: u64, max_s: f64) -> (Vec<u64>, u64) {
    let mut best = start;
    let mut runs = 0u64;
    let t0 = Instant::now();
    let mut tried: HashSet<u64> = HashSet::new();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, runs: &mut u64| -> bool {
        if *runs >= max_runs || t0.elapsed().as_secs_f64() > max_s || !tried.insert(words(&cand)) {
            return false;
        }
        *runs += 1;
        let (g, r) = exec(f, cand, None, false, allow);
        match r {
            Err(Stop::Fail { sig: s, .. }) if s == sig => {
                let mut c = g.rec;
                while c.last() == Some(&0) {
                    c.pop();
                }
                let better = c.len() < best.len() || (c.len() == best.len() && c < *best);
                if better {
                    *best = c;
                }
                better
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1).min(512);
        loop {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                if i <= best.len() {
                    let mut c = best.clone();
                    c.drain(lo..i);
                    if attempt(c, &mut best, &mut runs) {
                        i = i.min(best.len());
                        continue;
                    }
                    // deletion with the preceding count lowered
                    if lo > 0 && lo <= best.len() && best[lo - 1] > 0 && k <= 16 {
                        let mut c = best.clone();
                        c[lo - 1] -= 1;
                        c.drain(lo..i.min(c.len()));
                        if attempt(c, &mut best, &mut runs) {
                            i = i.min(best.len());
                            continue;
                        }
                    }
                }
                i = lo;
            }
            if k == 1 {
                break;
            }
            k = if k > 8 { k / 2 } else { k - 1 };
        }
        // zero runs
        let mut k = 16usize;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + k).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempt(c, &mut best, &mut runs);
                }
                i = hi;
            }
            k /= 2;
        }
        // lower single values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best, &mut runs) {
                    hi = best.get(i).copied().unwrap_or(0).min(mid);
                } else {
                    lo = mid + 1;
                }
            }
        }
        if best == before || runs >= max_runs || t0.elapsed().as_secs_f64() > max_s {
            return (best, runs);
        }
    }
}

struct Args {
    prop:     String,
    tier:     String,
    seed:     u64,
    evidence: Option<String>,
    replays:  String,
    known:    Option<String>,
    replay:   Option<String>,
    facet:    Option<String>,
    threads:  usize,
    scale:    f64,
    guided_s: f64,
    journal:  Option<String>,
    list:     bool,
}

fn parse() -> Args {
    let mut a = Args { prop: String::new(), tier: "quick".into(), seed: 1, evidence: None, replays: ".".into(), known: None, replay: None, facet: None, threads: 8, scale: 1.0, guided_s: 0.0, journal: None, list: false };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        if k == "--list" {
            a.list = true;
            continue;
        }
        let v = it.next().unwrap_or_default();
        match k.as_str() {
            "--prop" => a.prop = v,
            "--tier" => a.tier = v,
            "--seed" => a.seed = v.parse().unwrap_or_else(|_| hash64(v.as_bytes())),
            "--evidence" => a.evidence = Some(v),
            "--replays" => a.replays = v,
            "--known" => a.known = Some(v),
            "--replay" => a.replay = Some(v),
            "--facet" => a.facet = Some(v),
            "--threads" => a.threads = v.parse().unwrap(),
            "--scale" => a.scale = v.parse().unwrap(),
            "--guided-s" => a.guided_s = v.parse().unwrap(),
            "--journal" => a.journal = Some(v),
            _ => {
                eprintln!("unknown argument {}", k);
                std::process::exit(2)
            }
        }
    }
    a
}

/// Lines `known: property=<id> sig=<sig> <text>`.
fn load_known(path: &Option<String>, id: &str) -> Vec<(String, String)> {
    let Some(p) = path else { return vec![] };
    let text = std::fs::read_to_string(p).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (i, rest) = l.split_once(' ')?;
            if i != id {
                return None;
            }
            let rest = rest.strip_prefix("sig=")?;
            let (sig, what) = rest.split_once(' ').unwrap_or((rest, ""));
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

fn merge(s: &mut Stats, g: &Gen, r: &Res, sample_cap: usize) {
    s.evals += 1;
    for (k, v) in &g.labels {
        *s.labels.entry(k.clone()).or_insert(0) += v;
    }
    for e in &g.excluded {
        *s.excluded.entry(e.clone()).or_insert(0) += 1;
    }
    if matches!(r, Err(Stop::Discard)) {
        s.discards += 1;
        return;
    }
    if g.nontrivial {
        s.nontrivial += 1;
        s.distinct.insert(words(&g.rec));
        if s.samples.len() < sample_cap && !g.notes.is_empty() {
            s.samples.push(g.notes.join("; "));
        }
    }
}

fn run_facet(fc: &Facet, cases: u64, a: &Args, allow: &[String]) -> (Stats, Option<Failure>) {
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Stats::default());
    let found: Mutex<BTreeMap<u64, (String, Vec<u64>)>> = Mutex::new(BTreeMap::new());
    let n = if fc.serial || a.journal.is_some() { 1 } else { a.threads };
    std::thread::scope(|sc| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases || i > stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(j) = &a.journal {
                            let _ = std::fs::write(j, format!("{} {}", fc.name, i));
                        }
                        WATCH.begin();
                        let verbose = i < 400;
                        let (g, r) = exec(&fc.f, vec![], Some(case_rng(a.seed, fc.name, i)), verbose, allow);
                        WATCH.end();
                        merge(&mut st, &g, &r, 2);
                        if let Err(Stop::Fail { sig, .. }) = r {
                            stop_at.fetch_min(i, Ordering::Relaxed);
                            found.lock().unwrap().insert(i, (sig, g.rec));
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.evals += st.evals;
                    t.discards += st.discards;
                    t.nontrivial += st.nontrivial;
                    t.distinct.extend(st.distinct);
                    for (k, v) in st.labels {
                        *t.labels.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.excluded {
                        *t.excluded.entry(k).or_insert(0) += v;
                    }
                    for s in st.samples {
                        if t.samples.len() < 4 {
                            t.samples.push(s)
                        }
                    }
                })
                .expect("thread");
        }
    });
    let st = total.into_inner().unwrap();
    let first = found.into_inner().unwrap().into_iter().next();
    let fail = first.map(|(i, (sig, rec))| finish(fc, sig, rec, format!("case {}", i), allow));
    (st, fail)
}

fn finish(fc: &Facet, sig: String, rec: Vec<u64>, case: String, allow: &[String]) -> Failure {
    // in its own thread with a large stack, as the cases have
    let (small, runs) = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || shrink(&fc.f, rec.clone(), &sig, allow, 6000, std::env::var("PBT_SHRINK_S").ok().and_then(|v| v.parse().ok()).unwrap_or(60.0))).expect("thread").join().expect("shrink")
    });
    let (g, r) = exec(&fc.f, small.clone(), None, true, allow);
    let (choices, g, msg) = match r {
        Err(Stop::Fail { msg, .. }) => (small, g, msg),
        _ => {
            let (g, r) = exec(&fc.f, rec.clone(), None, true, allow);
            let msg = match r {
                Err(Stop::Fail { msg, .. }) => msg,
                _ => "(did not fail again on replay)".into(),
            };
            (rec, g, msg)
        }
    };
    Failure { facet: fc.name.into(), sig, msg, choices, notes: g.notes, case, reruns: runs }
}

/// Coverage-guided search: mutates the choice sequences that reached new edges.
fn run_guided(fc: &Facet, secs: f64, a: &Args, allow: &[String]) -> (Stats, Option<Failure>, usize, usize) {
    let mut st = Stats::default();
    let mut seen: Vec<u8> = vec![];
    let mut pool: Vec<Vec<u64>> = vec![];
    let mut rng = case_rng(a.seed, fc.name, u64::MAX);
    let t0 = Instant::now();
    let mut n = 0u64;
    while t0.elapsed().as_secs_f64() < secs {
        n += 1;
        let (prefix, tail) = if pool.is_empty() || rng.below(6) == 0 {
            (vec![], Some(case_rng(a.seed ^ 0x5eed, fc.name, n)))
        } else {
            // favour recent additions
            let k = pool.len() as u64;
            let i = if rng.below(2) == 0 { k - 1 - rng.below(k.min(32)) } else { rng.below(k) };
            let mut c = pool[i as usize].clone();
            for _ in 0..=rng.below(4) {
                let len = c.len() as u64;
                if len == 0 {
                    break;
                }
                let at = rng.below(len) as usize;
                match rng.below(7) {
                    0 => c[at] = rng.next() >> rng.below(64),
                    1 => c[at] = c[at].wrapping_add(1),
                    2 => c[at] = c[at].wrapping_sub(1),
                    3 => c[at] ^= 1 << rng.below(64),
                    4 => {
                        let l = rng.below(16).min(len - at as u64) as usize;
                        c.drain(at..at + l);
                    }
                    5 => {
                        let o = &pool[rng.below(pool.len() as u64) as usize];
                        if !o.is_empty() {
                            let s = rng.below(o.len() as u64) as usize;
                            let l = (rng.below(32) as usize).min(o.len() - s);
                            let part = o[s..s + l].to_vec();
                            c.splice(at..at, part);
                        }
                    }
                    _ => {
                        c.truncate(at);
                    }
                }
            }
            (c, Some(case_rng(a.seed ^ 0xabcdef, fc.name, n)))
        };
        crate::cov::reset();
        WATCH.begin();
        let (g, r) = exec(&fc.f, prefix, tail, false, allow);
        WATCH.end();
        let fresh = crate::cov::collect(&mut seen);
        merge(&mut st, &g, &r, 0);
        if let Err(Stop::Fail { sig, .. }) = &r {
            let f = finish(fc, sig.clone(), g.rec.clone(), format!("guided case {}", n), allow);
            return (st, Some(f), seen.iter().filter(|x| **x != 0).count(), pool.len());
        }
        if fresh > 0 && g.rec.len() < 20_000 {
            pool.push(g.rec);
        }
    }
    (st, None, seen.iter().filter(|x| **x != 0).count(), pool.len())
}

struct Watch(Mutex<Vec<(std::thread::ThreadId, Instant)>>);
static WATCH: Watch = Watch(Mutex::new(Vec::new()));

impl Watch {
    fn begin(&self) {
        self.0.lock().unwrap().push((std::thread::current().id(), Instant::now()));
    }

    fn end(&self) {
        let id = std::thread::current().id();
        self.0.lock().unwrap().retain(|x| x.0 != id);
    }
}

/// Prints a replay file's case in full and reports whether it still fails.
fn replay(props: &[Prop], a: &Args, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
    let (id, facet) = (get("property:"), get("facet:"));
    let fc = props.iter().find(|p| p.id == id).and_then(|p| p.facets.iter().find(|f| f.name == facet)).expect("facet");
    let (prefix, rng) = match get("index:").parse::<u64>() {
        Ok(i) => (vec![], Some(case_rng(get("seed:").parse().unwrap_or(1), fc.name, i))),
        Err(_) => (get("choices:").split_whitespace().map(|x| x.parse().unwrap()).collect(), None),
    };
    let allow: Vec<String> = load_known(&a.known, &id).into_iter().map(|x| x.0).collect();
    let (g, r) = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || exec(&fc.f, prefix, rng, true, &allow)).unwrap().join().unwrap());
    println!("facet {} labels {:?}", facet, g.labels);
    for n in &g.notes {
        println!("  {}", n);
    }
    match r {
        Err(Stop::Fail { sig, msg }) => {
            println!("FAILS [{}] {}", sig, msg);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        Err(Stop::Discard) => {
            println!("discarded");
            0
        }
        Ok(()) => {
            println!("passes");
            0
        }
    }
}

pub fn main(props: Vec<Prop>) -> ! {
    let a = parse();
    install_panic_hook();
    if a.list {
        for p in &props {
            println!("{}", p.id);
        }
        std::process::exit(0);
    }
    if let Some(p) = a.replay.clone() {
        std::process::exit(replay(&props, &a, &p));
    }
    let Some(prop) = props.iter().find(|p| p.id == a.prop) else {
        eprintln!("no property {}", a.prop);
        std::process::exit(2);
    };
    // A hang is an error of the run, not a verdict.
    static DONE: AtomicBool = AtomicBool::new(false);
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(5));
        if DONE.load(Ordering::Relaxed) {
            return;
        }
        let m = WATCH.0.lock().unwrap();
        if m.iter().any(|t| t.1.elapsed().as_secs() > 240) {
            eprintln!("ERROR: one case has run for more than 240 s; giving up without a verdict");
            std::process::exit(3);
        }
    });
    let known = load_known(&a.known, prop.id);
    let allow: Vec<String> = known.iter().map(|x| x.0.clone()).collect();
    let t0 = Instant::now();
    let thorough = a.tier == "thorough";
    let mut all = Stats::default();
    let mut facets_js = vec![];
    let mut failure: Option<Failure> = None;
    for fc in &prop.facets {
        if let Some(f) = &a.facet {
            if f != fc.name {
                continue;
            }
        }
        let cases = ((if thorough { fc.deep } else { fc.quick }) as f64 * a.scale).ceil() as u64;
        let f0 = Instant::now();
        let (mut st, mut fl) = run_facet(fc, cases, &a, &allow);
        let mut guided = String::new();
        if fl.is_none() && a.guided_s > 0.0 && crate::cov::available() {
            let (s2, f2, edges, pool) = std::thread::scope(|sc| {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || run_guided(fc, a.guided_s, &a, &allow)).unwrap().join().unwrap()
            });
            guided = format!(",\"guided_evaluations\":{},\"guided_edges\":{},\"guided_pool\":{}", s2.evals, edges, pool);
            st.evals += s2.evals;
            st.discards += s2.discards;
            st.nontrivial += s2.nontrivial;
            st.distinct.extend(s2.distinct);
            for (k, v) in s2.excluded {
                *st.excluded.entry(k).or_insert(0) += v;
            }
            fl = f2;
        }
        eprintln!("[{}] {}: {} cases, {} discarded, {} non-trivial, {} distinct, {:.1}s", prop.id, fc.name, st.evals, st.discards, st.nontrivial, st.distinct.len(), f0.elapsed().as_secs_f64());
        for (k, v) in &st.labels {
            eprintln!("      {:>9}  {}", v, k);
        }
        let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        facets_js.push(format!(
            "{{\"facet\":{},\"evaluations\":{},\"discarded\":{},\"nontrivial\":{},\"distinct_nontrivial\":{}{},\"labels\":{{{}}}}}",
            js(fc.name), st.evals, st.discards, st.nontrivial, st.distinct.len(), guided, labels.join(",")
        ));
        all.evals += st.evals;
        all.discards += st.discards;
        let salt = hash64(fc.name.as_bytes());
        all.distinct.extend(st.distinct.iter().map(|x| x ^ salt));
        for s in st.samples.into_iter().take(3) {
            all.samples.push(format!("[{}] {}", fc.name, s));
        }
        for (k, v) in st.excluded {
            *all.excluded.entry(k).or_insert(0) += v;
        }
        if fl.is_some() {
            failure = fl;
            break;
        }
    }
    DONE.store(true, Ordering::Relaxed);
    let reported: BTreeSet<&String> = all.excluded.keys().collect();
    for (sig, what) in &known {
        if reported.contains(sig) {
            println!("KNOWN-FINDING: property={} [{}] {} (seen in {} cases)", prop.id, sig, what, all.excluded[sig]);
        } else {
            println!("KNOWN-FINDING: property={} [{}] {}", prop.id, sig, what);
        }
    }
    let mut viol = 0;
    if let Some(f) = &failure {
        viol = 1;
        let _ = std::fs::create_dir_all(&a.replays);
        let path = format!("{}/{}-{}.replay", a.replays, prop.id, f.facet);
        let mut t = String::new();
        let _ = writeln!(t, "property: {}\nfacet: {}\nseed: {}\nfound-at: {}\nshrink-runs: {}\nsig: {}", prop.id, f.facet, a.seed, f.case, f.reruns, f.sig);
        let _ = writeln!(t, "choices: {}", f.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        let _ = writeln!(t, "---\n{}", f.msg);
        for n in &f.notes {
            let _ = writeln!(t, "note: {}", n);
        }
        std::fs::write(&path, &t).expect("write replay");
        println!("property {} facet {} [{}] ({} choices after shrinking)", prop.id, f.facet, f.sig, f.choices.len());
        println!("{}", f.msg);
        for n in f.notes.iter().take(30) {
            println!("  {}", n);
        }
        println!("VIOLATION property={} replay={}", prop.id, path);
    }
    if let Some(p) = &a.evidence {
        let ex: Vec<String> = all.excluded.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let t = format!(
            "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":\"exploration\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"discarded\":{},\n  \"rule\":{},\n  \"samples\":[{}],\n  \"facets\":[{}],\n  \"known_findings_excluded\":{{{}}}\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{}\n}}\n",
            js(prop.id), js(&a.tier), a.seed, all.evals, all.distinct.len(), all.discards, js(prop.rule),
            all.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "),
            facets_js.join(",\n   "), ex.join(","),
            prop.assume.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            t0.elapsed().as_secs_f64(), viol
        );
        std::fs::write(p, t).expect("write evidence");
    }
    std::process::exit(if viol > 0 { 1 } else { 0 });
}
