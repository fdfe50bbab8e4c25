//! Stands in for prost (not available offline): protocol buffers' wire format, for the kinds of
//! field core/network's messages have, with prost's rules (unknown fields are skipped, later values
//! win, embedded messages merge, strings are valid UTF-8, at most 100 levels).
use std::fmt;

use bytes::{Buf, BufMut};
pub use prost_derive::{Message, Oneof};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError(&'static str);

impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "failed to decode Protobuf message: {}", self.0)
    }
}

impl std::error::Error for DecodeError {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EncodeError;

impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "failed to encode Protobuf message: insufficient buffer capacity")
    }
}

impl std::error::Error for EncodeError {}

pub trait Message: fmt::Debug + Send + Sync {
    #[doc(hidden)]
    fn put_all(&self, out: &mut Vec<u8>);
    #[doc(hidden)]
    fn merge_one(&mut self, tag: u32, wire: u8, buf: &mut &[u8], depth: u32) -> Result<(), DecodeError>;

    fn encoded_len(&self) -> usize {
        self.encode_to_vec().len()
    }
    fn encode_to_vec(&self) -> Vec<u8> {
        let mut out = vec![];
        self.put_all(&mut out);
        out
    }
    fn encode<B: BufMut>(&self, buf: &mut B) -> Result<(), EncodeError>
    where
        Self: Sized,
    {
        let data = self.encode_to_vec();
        if data.len() > buf.remaining_mut() {
            return Err(EncodeError);
        }
        buf.put_slice(&data);
        Ok(())
    }
    fn decode<B: Buf>(mut buf: B) -> Result<Self, DecodeError>
    where
        Self: Default,
    {
        let data = buf.copy_to_bytes(buf.remaining());
        let mut this = Self::default();
        rt::merge_all(&mut this, &mut &data[..], 100)?;
        Ok(this)
    }
}

#[doc(hidden)]
pub mod rt {
    use super::{DecodeError, Message};

    fn err<T>(m: &'static str) -> Result<T, DecodeError> {
        Err(DecodeError(m))
    }

    pub fn put_varint(mut v: u64, out: &mut Vec<u8>) {
        while v >= 0x80 {
            out.push(v as u8 | 0x80);
            v >>= 7;
        }
        out.push(v as u8);
    }

    pub fn varint(buf: &mut &[u8]) -> Result<u64, DecodeError> {
        let mut v = 0u64;
        for i in 0..10 {
            let (b, rest) = match buf.split_first() {
                Some(x) => x,
                None => return err("invalid varint"),
            };
            *buf = rest;
            if i == 9 && *b > 1 {
                return err("invalid varint");
            }
            v |= ((*b & 0x7f) as u64) << (7 * i);
            if *b < 0x80 {
                return Ok(v);
            }
        }
        err("invalid varint")
    }

    fn put_key(tag: u32, wire: u8, out: &mut Vec<u8>) {
        put_varint(((tag << 3) | wire as u32) as u64, out);
    }

    fn key(buf: &mut &[u8]) -> Result<(u32, u8), DecodeError> {
        let k = varint(buf)?;
        if k > u32::MAX as u64 {
            return err("invalid key value");
        }
        let (tag, wire) = ((k >> 3) as u32, (k & 7) as u8);
        if wire > 5 {
            return err("invalid wire type value");
        }
        if tag == 0 {
            return err("invalid tag value: 0");
        }
        Ok((tag, wire))
    }

    fn take<'a>(n: u64, buf: &mut &'a [u8]) -> Result<&'a [u8], DecodeError> {
        if n > buf.len() as u64 {
            return err("buffer underflow");
        }
        let (a, b) = buf.split_at(n as usize);
        *buf = b;
        Ok(a)
    }

    fn delimited<'a>(buf: &mut &'a [u8]) -> Result<&'a [u8], DecodeError> {
        let n = varint(buf)?;
        take(n, buf)
    }

    fn expect(wire: u8, want: u8) -> Result<(), DecodeError> {
        if wire != want {
            return err("invalid wire type");
        }
        Ok(())
    }

    pub fn skip(tag: u32, wire: u8, buf: &mut &[u8], depth: u32) -> Result<(), DecodeError> {
        if depth == 0 {
            return err("recursion limit reached");
        }
        match wire {
            0 => varint(buf).map(drop),
            1 => take(8, buf).map(drop),
            2 => delimited(buf).map(drop),
            5 => take(4, buf).map(drop),
            3 => loop {
                let (t, w) = key(buf)?;
                if w == 4 {
                    if t != tag {
                        return err("unexpected end group tag");
                    }
                    return Ok(());
                }
                skip(t, w, buf, depth - 1)?;
            },
            _ => err("unexpected end group tag"),
        }
    }

    pub fn merge_all<M: Message + ?Sized>(m: &mut M, buf: &mut &[u8], depth: u32) -> Result<(), DecodeError> {
        while !buf.is_empty() {
            let (tag, wire) = key(buf)?;
            m.merge_one(tag, wire, buf, depth)?;
        }
        Ok(())
    }

    fn put_delimited(tag: u32, v: &[u8], out: &mut Vec<u8>) {
        put_key(tag, 2, out);
        put_varint(v.len() as u64, out);
        out.extend_from_slice(v);
    }

    pub mod string {
        use super::*;
        pub fn put(tag: u32, v: &String, out: &mut Vec<u8>) {
            if !v.is_empty() {
                put_always(tag, v, out)
            }
        }
        pub fn put_always(tag: u32, v: &String, out: &mut Vec<u8>) {
            put_delimited(tag, v.as_bytes(), out)
        }
        pub fn merge(v: &mut String, wire: u8, buf: &mut &[u8], _: u32) -> Result<(), DecodeError> {
            expect(wire, 2)?;
            match std::str::from_utf8(delimited(buf)?) {
                Ok(s) => *v = s.to_owned(),
                Err(_) => return err("invalid string value: data is not UTF-8 encoded"),
            }
            Ok(())
        }
    }

    pub mod bytes {
        use super::*;
        pub fn put(tag: u32, v: &Vec<u8>, out: &mut Vec<u8>) {
            if !v.is_empty() {
                put_always(tag, v, out)
            }
        }
        pub fn put_always(tag: u32, v: &Vec<u8>, out: &mut Vec<u8>) {
            put_delimited(tag, v, out)
        }
        pub fn merge(v: &mut Vec<u8>, wire: u8, buf: &mut &[u8], _: u32) -> Result<(), DecodeError> {
            expect(wire, 2)?;
            *v = delimited(buf)?.to_vec();
            Ok(())
        }
    }

    pub mod uint32 {
        use super::*;
        pub fn put(tag: u32, v: &u32, out: &mut Vec<u8>) {
            if *v != 0 {
                put_always(tag, v, out)
            }
        }
        pub fn put_always(tag: u32, v: &u32, out: &mut Vec<u8>) {
            put_key(tag, 0, out);
            put_varint(*v as u64, out)
        }
        pub fn merge(v: &mut u32, wire: u8, buf: &mut &[u8], _: u32) -> Result<(), DecodeError> {
            expect(wire, 0)?;
            *v = varint(buf)? as u32;
            Ok(())
        }
    }

    pub mod boolean {
        use super::*;
        pub fn put(tag: u32, v: &bool, out: &mut Vec<u8>) {
            if *v {
                put_key(tag, 0, out);
                out.push(1)
            }
        }
        pub fn merge(v: &mut bool, wire: u8, buf: &mut &[u8], _: u32) -> Result<(), DecodeError> {
            expect(wire, 0)?;
            *v = varint(buf)? != 0;
            Ok(())
        }
    }

    pub mod repeated_bytes {
        use super::*;
        pub fn put(tag: u32, v: &Vec<Vec<u8>>, out: &mut Vec<u8>) {
            for b in v {
                put_delimited(tag, b, out)
            }
        }
        pub fn merge(v: &mut Vec<Vec<u8>>, wire: u8, buf: &mut &[u8], _: u32) -> Result<(), DecodeError> {
            expect(wire, 2)?;
            v.push(delimited(buf)?.to_vec());
            Ok(())
        }
    }

    pub mod message {
        use super::*;
        pub fn put<M: Message>(tag: u32, v: &Option<M>, out: &mut Vec<u8>) {
            if let Some(m) = v {
                put_one(tag, m, out)
            }
        }
        pub fn put_one<M: Message>(tag: u32, m: &M, out: &mut Vec<u8>) {
            put_delimited(tag, &m.encode_to_vec(), out)
        }
        pub fn merge<M: Message + Default>(v: &mut Option<M>, wire: u8, buf: &mut &[u8], depth: u32) -> Result<(), DecodeError> {
            merge_one(v.get_or_insert_with(M::default), wire, buf, depth)
        }
        pub fn merge_one<M: Message>(m: &mut M, wire: u8, buf: &mut &[u8], depth: u32) -> Result<(), DecodeError> {
            expect(wire, 2)?;
            if depth == 0 {
                return err("recursion limit reached");
            }
            let mut inner = delimited(buf)?;
            merge_all(m, &mut inner, depth - 1)
        }
    }

    pub mod repeated_message {
        use super::*;
        pub fn put<M: Message>(tag: u32, v: &Vec<M>, out: &mut Vec<u8>) {
            for m in v {
                message::put_one(tag, m, out)
            }
        }
        pub fn merge<M: Message + Default>(v: &mut Vec<M>, wire: u8, buf: &mut &[u8], depth: u32) -> Result<(), DecodeError> {
            let mut m = M::default();
            message::merge_one(&mut m, wire, buf, depth)?;
            v.push(m);
            Ok(())
        }
    }

    pub mod map {
        use super::*;
        use std::collections::HashMap;

        pub fn put(tag: u32, v: &HashMap<String, Vec<u8>>, out: &mut Vec<u8>) {
            for (k, b) in v {
                let mut entry = vec![];
                string::put(1, k, &mut entry);
                bytes::put(2, b, &mut entry);
                put_delimited(tag, &entry, out)
            }
        }
        pub fn merge(v: &mut HashMap<String, Vec<u8>>, wire: u8, buf: &mut &[u8], depth: u32) -> Result<(), DecodeError> {
            expect(wire, 2)?;
            if depth == 0 {
                return err("recursion limit reached");
            }
            let mut inner = delimited(buf)?;
            let (mut k, mut b) = (String::new(), vec![]);
            while !inner.is_empty() {
                let (tag, wire) = key(&mut inner)?;
                match tag {
                    1 => string::merge(&mut k, wire, &mut inner, depth)?,
                    2 => bytes::merge(&mut b, wire, &mut inner, depth)?,
                    _ => skip(tag, wire, &mut inner, depth)?,
                }
            }
            v.insert(k, b);
            Ok(())
        }
    }

    pub trait OneofField: Sized {
        fn put(&self, out: &mut Vec<u8>);
        fn merge(slot: &mut Option<Self>, tag: u32, wire: u8, buf: &mut &[u8], depth: u32) -> Result<(), DecodeError>;
    }

    pub mod oneof {
        use super::*;
        pub fn put<O: OneofField>(v: &Option<O>, out: &mut Vec<u8>) {
            if let Some(o) = v {
                o.put(out)
            }
        }
        pub fn merge<O: OneofField>(v: &mut Option<O>, tag: u32, wire: u8, buf: &mut &[u8], depth: u32) -> Result<(), DecodeError> {
            O::merge(v, tag, wire, buf, depth)
        }
    }
}
