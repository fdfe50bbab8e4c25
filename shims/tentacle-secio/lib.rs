//! Stands in for tentacle-secio: the keys that the command line makes. A peer id is the public key.
use common_crypto::{PublicKey as _, Secp256k1PrivateKey, ToPublicKey};

#[derive(Debug)]
pub struct SecioError(String);

impl std::fmt::Display for SecioError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Clone, Debug)]
pub struct SecioKeyPair(Vec<u8>);

impl SecioKeyPair {
    pub fn secp256k1_raw_key<K: AsRef<[u8]>>(key: K) -> Result<SecioKeyPair, SecioError> {
        let key = Secp256k1PrivateKey::try_from(key.as_ref()).map_err(|e| SecioError(e.to_string()))?;
        Ok(SecioKeyPair(key.pub_key().to_bytes().to_vec()))
    }

    pub fn public_key(&self) -> PublicKey {
        PublicKey(self.0.clone())
    }
}

pub struct PublicKey(Vec<u8>);

impl PublicKey {
    pub fn inner(self) -> Vec<u8> {
        self.0
    }

    pub fn inner_ref(&self) -> &[u8] {
        &self.0
    }

    pub fn peer_id(&self) -> PeerId {
        PeerId(self.0.clone())
    }
}

pub struct PeerId(Vec<u8>);

impl PeerId {
    pub fn to_base58(&self) -> String {
        self.0.iter().map(|b| format!("{:02x}", b)).collect()
    }
}
