//! A small encoder, independent of the library: segments -> codewords -> symbol data.
#![allow(dead_code)]
use crate::iso;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::util::qr::{QRData, QRError, QRInfo};

pub fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1d } else { 0 };
        b >>= 1;
    }
    r
}
/// the check codewords of a block
pub fn rs(data: &[u8], n: usize) -> Vec<u8> {
    let mut g = vec![1u8];
    let mut root = 1u8;
    for _ in 0..n {
        let mut h = vec![0u8; g.len() + 1];
        for (i, c) in g.iter().enumerate() {
            h[i] ^= *c;
            h[i + 1] ^= gmul(*c, root);
        }
        g = h;
        root = gmul(root, 2);
    }
    let mut r = data.to_vec();
    r.resize(data.len() + n, 0);
    for i in 0..data.len() {
        let f = r[i];
        for (j, c) in g.iter().enumerate() {
            r[i + j] ^= gmul(*c, f);
        }
    }
    r[data.len()..].to_vec()
}
pub struct Bits(pub Vec<bool>);
impl Bits {
    pub fn new() -> Bits {
        Bits(vec![])
    }
    pub fn put(mut self, v: u32, n: usize) -> Bits {
        for i in (0..n).rev() {
            self.0.push(v >> i & 1 == 1);
        }
        self
    }
    pub fn bytes(mut self, v: u32, d: &[u8]) -> Bits {
        self = self.put(4, 4).put(d.len() as u32, if v < 10 { 8 } else { 16 });
        for b in d {
            self = self.put(*b as u32, 8);
        }
        self
    }
    pub fn numeric(mut self, v: u32, d: &str) -> Bits {
        self = self.put(1, 4).put(d.len() as u32, if v < 10 { 10 } else if v < 27 { 12 } else { 14 });
        for c in d.as_bytes().chunks(3) {
            let x = std::str::from_utf8(c).unwrap().parse().unwrap();
            self = self.put(x, [0, 4, 7, 10][c.len()]);
        }
        self
    }
    pub fn alnum(mut self, v: u32, d: &str) -> Bits {
        const T: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";
        self = self.put(2, 4).put(d.len() as u32, if v < 10 { 9 } else if v < 27 { 11 } else { 13 });
        let x: Vec<u32> = d.chars().map(|c| T.find(c).unwrap() as u32).collect();
        for c in x.chunks(2) {
            self = if c.len() == 2 { self.put(c[0] * 45 + c[1], 11) } else { self.put(c[0], 6) };
        }
        self
    }
}
/// data codewords: terminator and padding added
pub fn codewords(v: u32, l: usize, mut b: Bits) -> Vec<u8> {
    let n: u32 = iso::blocks(v, l).iter().map(|b| b.1).sum();
    let n = n as usize;
    assert!(b.0.len() <= n * 8, "payload too long");
    for _ in 0..4 {
        if b.0.len() < n * 8 {
            b.0.push(false);
        }
    }
    while b.0.len() % 8 != 0 {
        b.0.push(false);
    }
    let mut r: Vec<u8> = b.0.chunks(8).map(|c| c.iter().fold(0, |a, x| a * 2 + *x as u8)).collect();
    let mut pad = 0xEC;
    while r.len() < n {
        r.push(pad);
        pad ^= 0xEC ^ 0x11;
    }
    r
}
/// the blocks, data followed by check codewords
pub fn blocks(v: u32, l: usize, data: &[u8]) -> Vec<Vec<u8>> {
    let mut at = 0;
    iso::blocks(v, l)
        .iter()
        .map(|(n, d, _)| {
            let mut b = data[at..at + *d as usize].to_vec();
            at += *d as usize;
            b.extend(rs(&b, (n - d) as usize));
            b
        })
        .collect()
}
/// the modules, row by row, 1 dark
pub fn modules(v: u32, l: usize, m: u32, blocks: &[Vec<u8>]) -> Vec<u8> {
    let s = iso::side(v);
    let mut g = vec![0u8; (s * s) as usize];
    let il = iso::interleave(v, l);
    let place = iso::placement(v);
    for (b, idx) in il.iter().enumerate() {
        for (k, n) in idx.iter().enumerate() {
            for j in 0..8 {
                let (x, y) = place[n * 8 + j];
                g[(y * s + x) as usize] = (blocks[b][k] >> (7 - j)) & 1;
            }
        }
    }
    for y in 0..s {
        for x in 0..s {
            if !iso::function(v, x, y) && iso::masked(m, x, y) {
                g[(y * s + x) as usize] ^= 1;
            }
        }
    }
    let f = iso::format_bits(l, m);
    for c in 1..=2 {
        for (k, (x, y)) in iso::format_pos(v, c).iter().enumerate() {
            g[(y * s + x) as usize] = f[k];
        }
    }
    g
}
/// finder, timing and alignment patterns and version information, for drawing
pub fn function_patterns(v: u32, g: &mut [u8]) {
    let s = iso::side(v) as i64;
    let mut set = |x: i64, y: i64, d: bool| {
        if x >= 0 && y >= 0 && x < s && y < s {
            g[(y * s + x) as usize] = d as u8;
        }
    };
    for i in 0..s {
        set(i, 6, i % 2 == 0);
        set(6, i, i % 2 == 0);
    }
    let al = iso::align(v);
    let last = al.len().wrapping_sub(1);
    for (i, a) in al.iter().enumerate() {
        for (j, b) in al.iter().enumerate() {
            if (i == 0 && j == 0) || (i == 0 && j == last) || (i == last && j == 0) {
                continue;
            }
            for dx in -2i64..=2 {
                for dy in -2i64..=2 {
                    set(*a as i64 + dx, *b as i64 + dy, dx.abs().max(dy.abs()) != 1);
                }
            }
        }
    }
    for (cx, cy) in [(3, 3), (s - 4, 3), (3, s - 4)] {
        for dx in -4i64..=4 {
            for dy in -4i64..=4 {
                let d = dx.abs().max(dy.abs());
                set(cx + dx, cy + dy, d != 2 && d != 4);
            }
        }
    }
    set(8, s - 8, true);
}
pub fn data_of(v: u32, g: &[u8]) -> QRData {
    QRData::new(g.iter().map(|m| if *m == 1 { 0 } else { 255 }).collect(), v)
}
pub fn symbol(v: u32, l: usize, m: u32, b: Bits) -> Vec<u8> {
    modules(v, l, m, &blocks(v, l, &codewords(v, l, b)))
}
pub fn decode(v: u32, g: &[u8]) -> Result<String, QRError> {
    QRDecoder::new().decode(Ok(data_of(v, g)))
}
pub fn decode_info(v: u32, g: &[u8]) -> Result<(String, QRInfo), QRError> {
    QRDecoderWithInfo::new().decode(Ok(data_of(v, g)))
}
/// text for a symbol, filled up to its capacity with printable characters
pub fn filling(v: u32, l: usize) -> String {
    let n: u32 = iso::blocks(v, l).iter().map(|b| b.1).sum();
    let n = n - if v < 10 { 2 } else { 3 };
    (0..n).map(|i| (33 + (i * 7 + i / 13) % 90) as u8 as char).collect()
}
