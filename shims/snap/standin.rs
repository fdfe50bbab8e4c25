//! Stands in for snap (not available offline): the raw Snappy format. The decoder accepts what the
//! format allows; the encoder finds repetitions with a small table.
pub mod raw {
    use std::fmt;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Error(&'static str);

    pub type Result<T> = std::result::Result<T, Error>;

    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "snappy: {}", self.0)
        }
    }

    impl std::error::Error for Error {}

    fn header(input: &[u8]) -> Result<(usize, usize)> {
        let (mut v, mut shift) = (0u64, 0);
        for (i, b) in input.iter().enumerate().take(10) {
            v |= ((*b & 0x7f) as u64).checked_shl(shift).unwrap_or(0);
            if *b < 0x80 {
                if v > u32::MAX as u64 {
                    return Err(Error("too big"));
                }
                return Ok((i + 1, v as usize));
            }
            shift += 7;
        }
        Err(Error("corrupt header"))
    }

    pub fn decompress_len(input: &[u8]) -> Result<usize> {
        if input.is_empty() {
            return Ok(0);
        }
        header(input).map(|h| h.1)
    }

    #[derive(Default)]
    pub struct Decoder;

    impl Decoder {
        pub fn new() -> Decoder {
            Decoder
        }

        pub fn decompress(&mut self, input: &[u8], output: &mut [u8]) -> Result<usize> {
            if input.is_empty() {
                return Err(Error("empty input"));
            }
            let (mut i, len) = header(input)?;
            if len > output.len() {
                return Err(Error("output buffer too small"));
            }
            let out = &mut output[..len];
            let mut o = 0;
            while i < input.len() {
                let tag = input[i];
                i += 1;
                if tag & 3 == 0 {
                    let mut n = (tag >> 2) as usize;
                    if n >= 60 {
                        let extra = n - 59;
                        if i + extra > input.len() {
                            return Err(Error("literal"));
                        }
                        n = input[i..i + extra].iter().rev().fold(0, |a, b| a << 8 | *b as usize);
                        i += extra;
                    }
                    let n = n + 1;
                    if n > input.len() - i || n > len - o {
                        return Err(Error("literal"));
                    }
                    out[o..o + n].copy_from_slice(&input[i..i + n]);
                    i += n;
                    o += n;
                } else {
                    let (n, offset, extra) = match tag & 3 {
                        1 => (4 + (tag as usize >> 2 & 7), (tag as usize >> 5) << 8, 1),
                        2 => (1 + (tag as usize >> 2), 0, 2),
                        _ => (1 + (tag as usize >> 2), 0, 4),
                    };
                    if i + extra > input.len() {
                        return Err(Error("copy read"));
                    }
                    let offset = offset | input[i..i + extra].iter().rev().fold(0, |a, b| a << 8 | *b as usize);
                    i += extra;
                    if offset == 0 || offset > o || n > len - o {
                        return Err(Error("offset"));
                    }
                    for k in 0..n {
                        out[o + k] = out[o + k - offset];
                    }
                    o += n;
                }
            }
            if o != len {
                return Err(Error("header mismatch"));
            }
            Ok(len)
        }

        pub fn decompress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
            let mut out = vec![0; decompress_len(input)?];
            self.decompress(input, &mut out)?;
            Ok(out)
        }
    }

    #[derive(Default)]
    pub struct Encoder;

    fn literal(data: &[u8], out: &mut Vec<u8>) {
        if data.is_empty() {
            return;
        }
        let n = data.len() - 1;
        if n < 60 {
            out.push((n as u8) << 2);
        } else {
            let bytes = (n as u32).to_le_bytes();
            let extra = 4 - (n as u32).leading_zeros() as usize / 8;
            out.push((59 + extra as u8) << 2);
            out.extend_from_slice(&bytes[..extra]);
        }
        out.extend_from_slice(data);
    }

    impl Encoder {
        pub fn new() -> Encoder {
            Encoder
        }

        pub fn compress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
            if input.len() as u64 > u32::MAX as u64 {
                return Err(Error("too big"));
            }
            let mut out = vec![];
            let mut n = input.len();
            while n >= 0x80 {
                out.push(n as u8 | 0x80);
                n >>= 7;
            }
            out.push(n as u8);
            let mut table = vec![usize::MAX; 1 << 12];
            let (mut i, mut start) = (0, 0);
            while i + 4 <= input.len() {
                let w = u32::from_le_bytes(input[i..i + 4].try_into().unwrap());
                let h = (w.wrapping_mul(0x1e35_a7bd) >> 20) as usize;
                let at = std::mem::replace(&mut table[h], i);
                if at != usize::MAX && i - at < 1 << 16 && input[at..at + 4] == input[i..i + 4] {
                    literal(&input[start..i], &mut out);
                    let mut len = 4;
                    while i + len < input.len() && len < 64 && input[at + len] == input[i + len] {
                        len += 1;
                    }
                    out.push((len as u8 - 1) << 2 | 2);
                    out.extend_from_slice(&((i - at) as u16).to_le_bytes());
                    i += len;
                    start = i;
                } else {
                    i += 1;
                }
            }
            literal(&input[start..], &mut out);
            Ok(out)
        }
    }
}
