//! Shared by the properties of the node's parts.
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use common_crypto::{PrivateKey, Secp256k1RecoverablePrivateKey, Signature, ToPublicKey, UncompressedPublicKey};
use protocol::types::*;

pub use futures::executor::block_on;

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A path of its own under the scratch folder, removed at the end.
pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Dir {
        let base = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
        let p = PathBuf::from(base).join(format!("core-{}-{}", std::process::id(), NEXT.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }

    pub fn db(&self) -> PathBuf {
        self.0.join("db")
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        rocksdb::sim::forget(self.db());
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn open(path: &PathBuf) -> core_db::RocksAdapter {
    core_db::RocksAdapter::new(path, Default::default()).unwrap()
}

pub fn key(b: &[u8; 32]) -> Secp256k1RecoverablePrivateKey {
    Secp256k1RecoverablePrivateKey::try_from(b.as_slice()).unwrap()
}

pub fn address(b: &[u8; 32]) -> H160 {
    Address::from_pubkey_bytes(key(b).pub_key().to_uncompressed_bytes()).unwrap().0
}

/// Signs a transaction.
pub fn sign(unsigned: UnsignedTransaction, chain: Option<u64>, k: &[u8; 32]) -> SignedTransaction {
    let mut u = UnverifiedTransaction { unsigned, chain_id: chain, signature: None, hash: H256::zero() };
    let s = key(k).sign_message(&common_crypto::HashValue::from_bytes_unchecked(u.signature_hash(true).0)).to_bytes();
    u.signature = Some(SignatureComponents::from(s));
    SignedTransaction::from_unverified(u.calc_hash()).unwrap()
}
