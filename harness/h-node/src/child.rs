//! One node: what the command line does once it has read its arguments.
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::UnixStream;

use common_version::Version;
use core_cli::AxonCli;
use jsonrpsee::server::Started;
use serde_json::Value;

/// Answers the requests that come from the check, one a line, on the node's runtime.
fn serve(s: Started) {
    if !s.http {
        return;
    }
    let rt = tokio::runtime::Handle::current();
    std::thread::spawn(move || {
        let Ok(mut c) = UnixStream::connect(std::env::var("AXON_RPC").expect("AXON_RPC")) else { std::process::exit(9) };
        let me = std::env::var("AXON_ME").expect("AXON_ME");
        let _ = writeln!(c, "{}", me);
        let Ok(r) = c.try_clone() else { std::process::exit(9) };
        for line in BufReader::new(r).lines() {
            let Ok(line) = line else { break };
            let q: Value = serde_json::from_str(&line).expect("a request");
            let params = q["params"].to_string();
            let m = s.methods.clone();
            let name = q["method"].as_str().unwrap().to_string();
            let got = rt.block_on(rt.spawn(async move { m.call(&name, Some(&params), None).await }));
            let text = match got {
                Ok(Ok(v)) => format!("{{\"result\":{}}}", v),
                Ok(Err(e)) => format!("{{\"error\":{}}}", serde_json::to_string(&e).unwrap()),
                Err(_) => "{\"error\":\"panicked\"}".to_string(),
            };
            if writeln!(c, "{}", text).is_err() {
                break;
            }
        }
        std::process::exit(9);
    });
}

pub fn main() {
    // SAFETY: plain calls: end with the check, and leave no core files
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
    }
    rocksdb::sim::keep();
    if std::env::var_os("AXON_RPC").is_some() {
        *jsonrpsee::standin::ON_START.lock().unwrap() = Some(Box::new(serve));
    }
    // what the program's own main function does
    let version = Version::new(&std::env::var("AXON_CLI").unwrap());
    if let Err(e) = AxonCli::init(version.clone(), version).start() {
        eprintln!("Error {e}");
        std::process::exit(1);
    }
}
