// Each group of properties is a feature, so that a check builds no more than it needs.
#![cfg_attr(not(feature = "default"), allow(dead_code, unused_imports))]

#[cfg(feature = "pool")]
mod admit;
#[cfg(feature = "api")]
mod api;
#[cfg(feature = "chain")]
mod chain;
#[cfg(feature = "wal")]
mod crash;
#[cfg(feature = "store")]
mod db;
#[cfg(feature = "world")]
mod exec;
#[allow(dead_code)]
#[path = "../../h-base/src/gens.rs"]
mod gens;
#[cfg(feature = "pool")]
mod pool;
#[cfg(feature = "exec")]
mod pre;
#[cfg(feature = "store")]
mod storage;
#[cfg(feature = "world")]
mod sys;
mod util;
#[cfg(feature = "world")]
#[allow(dead_code)]
#[path = "../../h-base/src/vm.rs"]
mod vm;
#[cfg(feature = "wal")]
mod wal;

fn main() {
    let mut p = vec![];
    #[cfg(feature = "store")]
    {
        p.extend(db::props());
        p.extend(storage::props());
    }
    #[cfg(feature = "exec")]
    {
        p.extend(exec::props());
        p.extend(sys::props());
        p.extend(pre::props());
    }
    #[cfg(feature = "pool")]
    {
        p.extend(pool::props());
        p.extend(admit::props());
    }
    #[cfg(feature = "wal")]
    p.extend(wal::props());
    #[cfg(feature = "chain")]
    p.extend(chain::props());
    #[cfg(feature = "api")]
    p.extend(api::props());
    pbt::main(p)
}
