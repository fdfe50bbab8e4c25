//! Stands in for ipnetwork (not available offline): the part core/network's ban list uses.
use std::fmt;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::str::FromStr;

use serde::{de, Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ipv4Network(Ipv4Addr, u8);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ipv6Network(Ipv6Addr, u8);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum IpNetwork {
    V4(Ipv4Network),
    V6(Ipv6Network),
}

impl From<Ipv4Addr> for Ipv4Network {
    fn from(a: Ipv4Addr) -> Self {
        Ipv4Network(a, 32)
    }
}

impl From<Ipv6Addr> for Ipv6Network {
    fn from(a: Ipv6Addr) -> Self {
        Ipv6Network(a, 128)
    }
}

impl From<IpAddr> for IpNetwork {
    fn from(a: IpAddr) -> Self {
        match a {
            IpAddr::V4(a) => IpNetwork::V4(a.into()),
            IpAddr::V6(a) => IpNetwork::V6(a.into()),
        }
    }
}

impl IpNetwork {
    pub fn contains(&self, ip: IpAddr) -> bool {
        match (self, ip) {
            (IpNetwork::V4(Ipv4Network(n, p)), IpAddr::V4(ip)) => {
                let mask = u32::MAX.checked_shl(32 - *p as u32).unwrap_or(0);
                u32::from(*n) & mask == u32::from(ip) & mask
            }
            (IpNetwork::V6(Ipv6Network(n, p)), IpAddr::V6(ip)) => {
                let mask = u128::MAX.checked_shl(128 - *p as u32).unwrap_or(0);
                u128::from(*n) & mask == u128::from(ip) & mask
            }
            _ => false,
        }
    }
}

impl fmt::Display for IpNetwork {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            IpNetwork::V4(Ipv4Network(a, p)) => write!(f, "{a}/{p}"),
            IpNetwork::V6(Ipv6Network(a, p)) => write!(f, "{a}/{p}"),
        }
    }
}

impl FromStr for IpNetwork {
    type Err = String;

    fn from_str(s: &str) -> Result<Self, String> {
        let (ip, prefix) = match s.split_once('/') {
            Some((a, p)) => (a, Some(p.parse::<u8>().map_err(|e| e.to_string())?)),
            None => (s, None),
        };
        match ip.parse::<IpAddr>().map_err(|e| e.to_string())? {
            IpAddr::V4(a) => match prefix.unwrap_or(32) {
                p if p <= 32 => Ok(IpNetwork::V4(Ipv4Network(a, p))),
                _ => Err("invalid prefix".into()),
            },
            IpAddr::V6(a) => match prefix.unwrap_or(128) {
                p if p <= 128 => Ok(IpNetwork::V6(Ipv6Network(a, p))),
                _ => Err("invalid prefix".into()),
            },
        }
    }
}

impl Serialize for IpNetwork {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}

impl<'de> Deserialize<'de> for IpNetwork {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(de::Error::custom)
    }
}
