//! Independent reference implementations (no code from /repo is used here).

// ------------------------------------------------------------------ hashes
pub fn sha1(msg: &[u8]) -> Vec<u8> {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0)
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for block in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5A827999u32),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y)
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn sha256_k() -> &'static [u32; 64] {
    static K: std::sync::OnceLock<[u32; 64]> = std::sync::OnceLock::new();
    // First 32 bits of the fractional parts of the cube roots of the first 64 primes.
    K.get_or_init(|| {
        let mut k = [0u32; 64];
        let mut n = 0;
        let mut p = 2u128;
        while n < 64 {
            if (2..p).all(|d| d * d > p || p % d != 0) {
                // floor(cbrt(p) * 2^32) by integer cube root of p * 2^96
                let target = p << 96;
                let (mut lo, mut hi) = (0u128, 1u128 << 36);
                while hi - lo > 1 {
                    let mid = (lo + hi) / 2;
                    if mid * mid * mid <= target {
                        lo = mid
                    } else {
                        hi = mid
                    }
                }
                k[n] = lo as u32;
                n += 1;
            }
            p += 1;
        }
        k
    })
}

pub fn sha256(msg: &[u8]) -> Vec<u8> {
    let k = sha256_k();
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0)
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for block in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for (x, y) in h.iter_mut().zip(v) {
            *x = x.wrapping_add(y)
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn ripemd160(msg: &[u8]) -> Vec<u8> {
    const R1: [usize; 80] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3,
        10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0,
        5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
    ];
    const R2: [usize; 80] = [
        5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15,
        5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15,
        10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
    ];
    const S1: [u32; 80] = [
        11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
        11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
        9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
    ];
    const S2: [u32; 80] = [
        8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
        9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
        8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
    ];
    const K1: [u32; 5] = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E];
    const K2: [u32; 5] = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j / 16 {
            0 => x ^ y ^ z,
            1 => (x & y) | (!x & z),
            2 => (x | !y) ^ z,
            3 => (x & z) | (y & !z),
            _ => x ^ (y | !z),
        }
    }
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0)
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_le_bytes());
    for block in m.chunks(64) {
        let x: Vec<u32> = block.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let (mut a, mut b) = (h, h);
        for j in 0..80 {
            let t = a[0]
                .wrapping_add(f(j, a[1], a[2], a[3]))
                .wrapping_add(x[R1[j]])
                .wrapping_add(K1[j / 16])
                .rotate_left(S1[j])
                .wrapping_add(a[4]);
            a = [a[4], t, a[1], a[2].rotate_left(10), a[3]];
            let t = b[0]
                .wrapping_add(f(79 - j, b[1], b[2], b[3]))
                .wrapping_add(x[R2[j]])
                .wrapping_add(K2[j / 16])
                .rotate_left(S2[j])
                .wrapping_add(b[4]);
            b = [b[4], t, b[1], b[2].rotate_left(10), b[3]];
        }
        let t = h[1].wrapping_add(a[2]).wrapping_add(b[3]);
        h[1] = h[2].wrapping_add(a[3]).wrapping_add(b[4]);
        h[2] = h[3].wrapping_add(a[4]).wrapping_add(b[0]);
        h[3] = h[4].wrapping_add(a[0]).wrapping_add(b[1]);
        h[4] = h[0].wrapping_add(a[1]).wrapping_add(b[2]);
        h[0] = t;
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn sha256d(msg: &[u8]) -> Vec<u8> {
    sha256(&sha256(msg))
}

pub fn hash160(msg: &[u8]) -> Vec<u8> {
    ripemd160(&sha256(msg))
}

// ------------------------------------------------------------------ CompactSize
pub fn compact_size(n: u64) -> Vec<u8> {
    if n < 0xfd {
        vec![n as u8]
    } else if n <= 0xffff {
        let mut v = vec![0xfd];
        v.extend_from_slice(&(n as u16).to_le_bytes());
        v
    } else if n <= 0xffff_ffff {
        let mut v = vec![0xfe];
        v.extend_from_slice(&(n as u32).to_le_bytes());
        v
    } else {
        let mut v = vec![0xff];
        v.extend_from_slice(&n.to_le_bytes());
        v
    }
}

/// Encodes with a forced width class: 0 = 1 byte, 1 = fd, 2 = fe, 3 = ff.
pub fn compact_size_wide(n: u64, class: u8) -> Vec<u8> {
    match class {
        0 if n < 0xfd => vec![n as u8],
        0 | 1 if n <= 0xffff => {
            let mut v = vec![0xfd];
            v.extend_from_slice(&(n as u16).to_le_bytes());
            v
        }
        0 | 1 | 2 if n <= 0xffff_ffff => {
            let mut v = vec![0xfe];
            v.extend_from_slice(&(n as u32).to_le_bytes());
            v
        }
        _ => {
            let mut v = vec![0xff];
            v.extend_from_slice(&n.to_le_bytes());
            v
        }
    }
}

/// Strict (shortest form only) reader.
pub fn read_compact_size(b: &[u8]) -> Option<(u64, &[u8])> {
    let (&first, rest) = b.split_first()?;
    let n = match first {
        0xfd => 2,
        0xfe => 4,
        0xff => 8,
        x => return Some((x as u64, rest)),
    };
    if rest.len() < n {
        return None;
    }
    let mut buf = [0u8; 8];
    buf[..n].copy_from_slice(&rest[..n]);
    let v = u64::from_le_bytes(buf);
    if compact_size(v).len() != n + 1 {
        return None;
    }
    Some((v, &rest[n..]))
}

// ------------------------------------------------------------------ script numbers
/// Minimal sign-magnitude encoding.
pub fn script_num(n: i128) -> Vec<u8> {
    let mut mag = n.unsigned_abs();
    let mut out = Vec::new();
    while mag > 0 {
        out.push((mag & 0xff) as u8);
        mag >>= 8;
    }
    if let Some(&last) = out.last() {
        if last & 0x80 != 0 {
            out.push(if n < 0 { 0x80 } else { 0 });
        } else if n < 0 {
            *out.last_mut().unwrap() |= 0x80;
        }
    }
    out
}

/// The number a byte string denotes; None if its magnitude needs more than 120 bits.
pub fn script_num_value(b: &[u8]) -> Option<i128> {
    if b.is_empty() {
        return Some(0);
    }
    let neg = b[b.len() - 1] & 0x80 != 0;
    let mut v: i128 = 0;
    for (i, &x) in b.iter().enumerate().rev() {
        let x = if i == b.len() - 1 { x & 0x7f } else { x };
        if v >> 112 != 0 {
            return None;
        }
        v = (v << 8) | x as i128;
    }
    Some(if neg { -v } else { v })
}

// ------------------------------------------------------------------ script pushes
/// Shortest data push without number opcodes.
pub fn push_data(data: &[u8]) -> Vec<u8> {
    let mut v = match data.len() {
        0 => vec![0x4c, 0],
        n @ 1..=75 => vec![n as u8],
        n @ 76..=255 => vec![0x4c, n as u8],
        n @ 256..=65535 => {
            let mut v = vec![0x4d];
            v.extend_from_slice(&(n as u16).to_le_bytes());
            v
        }
        n => {
            let mut v = vec![0x4e];
            v.extend_from_slice(&(n as u32).to_le_bytes());
            v
        }
    };
    v.extend_from_slice(data);
    v
}

pub fn push_minimal(data: &[u8]) -> Vec<u8> {
    match data {
        [] => vec![0],
        [n @ 1..=16] => vec![0x50 + n],
        [0x81] => vec![0x4f],
        _ => push_data(data),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RawOp {
    /// opcode byte of the push (1..=75, 76, 77, 78) and data
    Push(u8, Vec<u8>),
    Op(u8),
}

impl RawOp {
    pub fn encode(&self) -> Vec<u8> {
        match self {
            RawOp::Op(b) => vec![*b],
            RawOp::Push(op, data) => {
                let mut v = vec![*op];
                match op {
                    0x4c => v.push(data.len() as u8),
                    0x4d => v.extend_from_slice(&(data.len() as u16).to_le_bytes()),
                    0x4e => v.extend_from_slice(&(data.len() as u32).to_le_bytes()),
                    _ => {}
                }
                v.extend_from_slice(data);
                v
            }
        }
    }
    /// True if a shorter *opcode form* (not number opcode) would have carried the data:
    /// PUSHDATA1 for 1..75 bytes, PUSHDATA2 for at most 255, PUSHDATA4 for at most 65535.
    pub fn oversized(&self) -> bool {
        match self {
            RawOp::Push(0x4c, d) => !d.is_empty() && d.len() <= 75,
            RawOp::Push(0x4d, d) => d.len() <= 255,
            RawOp::Push(0x4e, d) => d.len() <= 65535,
            _ => false,
        }
    }
    /// The bytes the op leaves on the stack, if it is a push (including number opcodes).
    pub fn pushed(&self) -> Option<Vec<u8>> {
        match self {
            RawOp::Push(_, d) => Some(d.clone()),
            RawOp::Op(0) => Some(vec![]),
            RawOp::Op(0x4f) => Some(vec![0x81]),
            RawOp::Op(b @ 0x51..=0x60) => Some(vec![b - 0x50]),
            _ => None,
        }
    }
}

/// Splits script bytes; None when a push runs past the end.
pub fn parse_script(b: &[u8]) -> Option<Vec<RawOp>> {
    let mut ops = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let op = b[i];
        i += 1;
        let n = match op {
            1..=0x4b => op as usize,
            0x4c | 0x4d | 0x4e => {
                let w = 1 << (op - 0x4c);
                if b.len() < i + w {
                    return None;
                }
                let mut buf = [0u8; 8];
                buf[..w].copy_from_slice(&b[i..i + w]);
                i += w;
                u64::from_le_bytes(buf) as usize
            }
            _ => {
                ops.push(RawOp::Op(op));
                continue;
            }
        };
        if b.len() - i < n {
            return None;
        }
        ops.push(RawOp::Push(op, b[i..i + n].to_vec()));
        i += n;
    }
    Some(ops)
}

// ------------------------------------------------------------------ CashAddr
pub const CASHADDR_CHARSET: &str = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

pub fn cashaddr_polymod(values: &[u8]) -> u64 {
    const GEN: [u64; 5] = [0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470];
    let mut c: u64 = 1;
    for &d in values {
        let c0 = c >> 35;
        c = ((c & 0x07ffffffff) << 5) ^ d as u64;
        for (i, g) in GEN.iter().enumerate() {
            if (c0 >> i) & 1 == 1 {
                c ^= g;
            }
        }
    }
    c ^ 1
}

fn prefix_values(prefix: &str) -> Vec<u8> {
    let mut v: Vec<u8> = prefix.bytes().map(|b| b & 0x1f).collect();
    v.push(0);
    v
}

/// 5-bit groups of a byte string, zero padded.
pub fn to_base32_values(bytes: &[u8]) -> Vec<u8> {
    let mut bits: Vec<u8> = bytes.iter().flat_map(|b| (0..8).rev().map(move |i| (b >> i) & 1)).collect();
    while bits.len() % 5 != 0 {
        bits.push(0)
    }
    bits.chunks(5).map(|c| c.iter().fold(0, |a, b| a * 2 + b)).collect()
}

pub fn cashaddr_from_values(prefix: &str, payload: &[u8]) -> String {
    let mut v = prefix_values(prefix);
    v.extend_from_slice(payload);
    v.extend_from_slice(&[0; 8]);
    let c = cashaddr_polymod(&v);
    let mut all = payload.to_vec();
    for i in 0..8 {
        all.push(((c >> (5 * (7 - i))) & 31) as u8);
    }
    let cs = CASHADDR_CHARSET.as_bytes();
    format!("{}:{}", prefix, all.iter().map(|&x| cs[x as usize] as char).collect::<String>())
}

pub fn cashaddr(prefix: &str, version: u8, hash: &[u8]) -> String {
    let mut p = vec![version];
    p.extend_from_slice(hash);
    cashaddr_from_values(prefix, &to_base32_values(&p))
}

/// Strict parser for 20-byte P2PKH/P2SH addresses: (prefix, version, hash).
pub fn cashaddr_parse(s: &str, default_prefix: &str) -> Option<(String, u8, Vec<u8>)> {
    let has_lower = s.chars().any(|c| c.is_ascii_lowercase());
    let has_upper = s.chars().any(|c| c.is_ascii_uppercase());
    if has_lower && has_upper {
        return None;
    }
    let s = s.to_ascii_lowercase();
    let (prefix, payload) = match s.find(':') {
        Some(i) => (s[..i].to_string(), &s[i + 1..]),
        None => (default_prefix.to_string(), &s[..]),
    };
    let values: Option<Vec<u8>> = payload
        .bytes()
        .map(|b| CASHADDR_CHARSET.bytes().position(|c| c == b).map(|x| x as u8))
        .collect();
    let values = values?;
    // version byte + 20-byte hash = 34 groups, 8 checksum groups
    if values.len() != 42 {
        return None;
    }
    let mut v = prefix_values(&prefix);
    v.extend_from_slice(&values);
    if cashaddr_polymod(&v) != 0 {
        return None;
    }
    let bits: Vec<u8> = values[..34].iter().flat_map(|b| (0..5).rev().map(move |i| (b >> i) & 1)).collect();
    if bits[168..].iter().any(|&b| b != 0) {
        return None;
    }
    let bytes: Vec<u8> = bits[..168].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a.wrapping_mul(2) + b)).collect();
    if bytes[0] != 0 && bytes[0] != 8 {
        return None;
    }
    Some((prefix, bytes[0], bytes[1..].to_vec()))
}

// ------------------------------------------------------------------ opcode table
/// (byte, name) of every opcode of the May 2020 Bitcoin Cash script language.
pub const OPCODES: &[(u8, &str)] = &[
    (0x00, "OP_0"), (0x4c, "OP_PUSHDATA1"), (0x4d, "OP_PUSHDATA2"), (0x4e, "OP_PUSHDATA4"), (0x4f, "OP_1NEGATE"),
    (0x50, "OP_RESERVED"), (0x51, "OP_1"), (0x52, "OP_2"), (0x53, "OP_3"), (0x54, "OP_4"), (0x55, "OP_5"),
    (0x56, "OP_6"), (0x57, "OP_7"), (0x58, "OP_8"), (0x59, "OP_9"), (0x5a, "OP_10"), (0x5b, "OP_11"),
    (0x5c, "OP_12"), (0x5d, "OP_13"), (0x5e, "OP_14"), (0x5f, "OP_15"), (0x60, "OP_16"), (0x61, "OP_NOP"),
    (0x62, "OP_VER"), (0x63, "OP_IF"), (0x64, "OP_NOTIF"), (0x65, "OP_VERIF"), (0x66, "OP_VERNOTIF"),
    (0x67, "OP_ELSE"), (0x68, "OP_ENDIF"), (0x69, "OP_VERIFY"), (0x6a, "OP_RETURN"), (0x6b, "OP_TOALTSTACK"),
    (0x6c, "OP_FROMALTSTACK"), (0x6d, "OP_2DROP"), (0x6e, "OP_2DUP"), (0x6f, "OP_3DUP"), (0x70, "OP_2OVER"),
    (0x71, "OP_2ROT"), (0x72, "OP_2SWAP"), (0x73, "OP_IFDUP"), (0x74, "OP_DEPTH"), (0x75, "OP_DROP"),
    (0x76, "OP_DUP"), (0x77, "OP_NIP"), (0x78, "OP_OVER"), (0x79, "OP_PICK"), (0x7a, "OP_ROLL"), (0x7b, "OP_ROT"),
    (0x7c, "OP_SWAP"), (0x7d, "OP_TUCK"), (0x7e, "OP_CAT"), (0x7f, "OP_SPLIT"), (0x80, "OP_NUM2BIN"),
    (0x81, "OP_BIN2NUM"), (0x82, "OP_SIZE"), (0x83, "OP_INVERT"), (0x84, "OP_AND"), (0x85, "OP_OR"),
    (0x86, "OP_XOR"), (0x87, "OP_EQUAL"), (0x88, "OP_EQUALVERIFY"), (0x89, "OP_RESERVED1"), (0x8a, "OP_RESERVED2"),
    (0x8b, "OP_1ADD"), (0x8c, "OP_1SUB"), (0x8d, "OP_2MUL"), (0x8e, "OP_2DIV"), (0x8f, "OP_NEGATE"),
    (0x90, "OP_ABS"), (0x91, "OP_NOT"), (0x92, "OP_0NOTEQUAL"), (0x93, "OP_ADD"), (0x94, "OP_SUB"),
    (0x95, "OP_MUL"), (0x96, "OP_DIV"), (0x97, "OP_MOD"), (0x98, "OP_LSHIFT"), (0x99, "OP_RSHIFT"),
    (0x9a, "OP_BOOLAND"), (0x9b, "OP_BOOLOR"), (0x9c, "OP_NUMEQUAL"), (0x9d, "OP_NUMEQUALVERIFY"),
    (0x9e, "OP_NUMNOTEQUAL"), (0x9f, "OP_LESSTHAN"), (0xa0, "OP_GREATERTHAN"), (0xa1, "OP_LESSTHANOREQUAL"),
    (0xa2, "OP_GREATERTHANOREQUAL"), (0xa3, "OP_MIN"), (0xa4, "OP_MAX"), (0xa5, "OP_WITHIN"), (0xa6, "OP_RIPEMD160"),
    (0xa7, "OP_SHA1"), (0xa8, "OP_SHA256"), (0xa9, "OP_HASH160"), (0xaa, "OP_HASH256"), (0xab, "OP_CODESEPARATOR"),
    (0xac, "OP_CHECKSIG"), (0xad, "OP_CHECKSIGVERIFY"), (0xae, "OP_CHECKMULTISIG"), (0xaf, "OP_CHECKMULTISIGVERIFY"),
    (0xb0, "OP_NOP1"), (0xb1, "OP_CHECKLOCKTIMEVERIFY"), (0xb2, "OP_CHECKSEQUENCEVERIFY"), (0xb3, "OP_NOP4"),
    (0xb4, "OP_NOP5"), (0xb5, "OP_NOP6"), (0xb6, "OP_NOP7"), (0xb7, "OP_NOP8"), (0xb8, "OP_NOP9"),
    (0xb9, "OP_NOP10"), (0xba, "OP_CHECKDATASIG"), (0xbb, "OP_CHECKDATASIGVERIFY"), (0xbc, "OP_REVERSEBYTES"),
];

pub fn opcode_name(b: u8) -> Option<&'static str> {
    OPCODES.iter().find(|(x, _)| *x == b).map(|(_, n)| *n)
}

/// Opcode bytes that may stand alone as `Op::Code` (not the push-length bytes or PUSHDATAs).
pub fn is_plain_opcode(b: u8) -> bool {
    !(1..=0x4e).contains(&b)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn vectors() {
        assert_eq!(hex::encode(sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(hex::encode(sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
        assert_eq!(hex::encode(ripemd160(b"abc")), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
        assert_eq!(cashaddr("bitcoincash", 0, &[0; 20]), "bitcoincash:qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqfnhks603");
        assert!(cashaddr_parse("bitcoincash:qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqfnhks603", "x").is_some());
        assert_eq!(script_num(-128), vec![0x80, 0x80]);
        assert_eq!(script_num_value(&[0x80, 0x80]), Some(-128));
    }
}
