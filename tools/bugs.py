BUGS = []
def bug(id, prop, needs, breaks, edits, main):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main))
Q = "mod iso;\nmod qrenc;\nuse qrenc::*;\n"
# one intact symbol decodes to its text
def intact(v, l, m):
    return Q + "fn main() {\n    let t = filling(%d, %d);\n    let g = symbol(%d, %d, %d, Bits::new().bytes(%d, t.as_bytes()));\n    assert_eq!(decode(%d, &g).ok(), Some(t));\n}\n" % (v, l, v, l, m, v, v)

S = "src/decode/qr/"
bug("c12-parity-count", "C12", "a version 18 symbol of level Q with an odd error pattern", "one table entry names a smaller capacity than the standard, so that correctable symbols are refused",
    [(S + "mod.rs", "BlockInfo::new(17, 50, 22, 14),\n            BlockInfo::new(1, 51, 23, 14),", "BlockInfo::new(17, 50, 22, 13),\n            BlockInfo::new(1, 51, 23, 13),")],
    Q + """fn main() {
    let (v, l) = (18, 2);
    let t = filling(v, l);
    let mut b = blocks(v, l, &codewords(v, l, Bits::new().bytes(v, t.as_bytes())));
    for i in 0..14 { b[3][i * 3] ^= 0x41 + i as u8; }
    assert_eq!(decode(v, &modules(v, l, 2, &b)).ok(), Some(t));
}
""")
bug("c12-block-order", "C12", "a version 33 symbol of level M", "the short and the long blocks of one configuration change places",
    [(S + "mod.rs", "BlockInfo::new(14, 74, 46, 14),\n            BlockInfo::new(21, 75, 47, 14),", "BlockInfo::new(15, 74, 46, 14),\n            BlockInfo::new(20, 75, 47, 14),")],
    intact(33, 1, 3))
bug("c13-alignment", "C13", "a version 39 symbol", "alignment patterns of one version are looked for in the wrong place, so data modules are skipped",
    [(S + "blocks.rs", "39 => Ok(AlignmentLocation::new(26, 28)),", "39 => Ok(AlignmentLocation::new(26, 26)),")],
    intact(39, 3, 1))
bug("c13-version-info", "C13", "a symbol of version 7", "the version information is read as data in the smallest version that has one",
    [(S + "blocks.rs", "if data.version >= 7 && y > data.side - 12 && x < 6 {", "if data.version > 7 && y > data.side - 12 && x < 6 {")],
    intact(7, 1, 0))
bug("c14-narrow-product", "C14", "mask 5 in a symbol with more than sixteen columns", "the product of column and row is cut to eight bits in one mask",
    [(S + "format.rs", "(i * j) % 2 + (i * j) % 3 == 0)),\n        0b110", "(i * j) % 2 + (i * j) % 256 % 3 == 0)),\n        0b110")],
    intact(22, 0, 5))
bug("c15-second-copy", "C15", "a symbol whose first format copy is beyond repair", "the second copy of the format information is read in the wrong order",
    [(S + "format.rs", "for y in (data.side - 7..data.side).rev() {", "for y in data.side - 7..data.side {")],
    Q + """fn main() {
    let (v, l) = (4, 3);
    let t = filling(v, l);
    let mut g = symbol(v, l, 6, Bits::new().bytes(v, t.as_bytes()));
    let s = iso::side(v);
    for (k, (x, y)) in iso::format_pos(v, 1).iter().enumerate() {
        g[(y * s + x) as usize] = [0, 0, 1, 1, 0, 1, 1, 1, 0, 1, 0, 0, 0, 1, 1][k];
    }
    let all = (0..32u32).all(|w| {
        let f = iso::format_bits((w / 8) as usize, w % 8);
        iso::format_pos(v, 1).iter().enumerate().filter(|(k, (x, y))| g[(y * s + x) as usize] != f[*k]).count() > 3
    });
    assert!(all, "first copy has to be unreadable");
    assert_eq!(decode(v, &g).ok(), Some(t));
}
""")
bug("c15-last-root", "C15", "an error at one particular place of the format information", "the search for errors stops before the last field element",
    [(S + "format.rs", "        let x = GF4(i);\n", "        let x = GF4(if i < 15 { i } else { 1 });\n")],
    Q + """fn main() {
    let (v, l) = (2, 0);
    let t = filling(v, l);
    for k in 0..15 { for j in k..15 {
        let mut g = symbol(v, l, 6, Bits::new().bytes(v, t.as_bytes()));
        let s = iso::side(v);
        let p = iso::format_pos(v, 1);
        for i in [k, j] { g[(p[i].1 * s + p[i].0) as usize] ^= 1; if k == j { break; } }
        let p = iso::format_pos(v, 2);
        for i in 0..15 { g[(p[i].1 * s + p[i].0) as usize] = 1; }
        assert_eq!(decode(v, &g).ok(), Some(t.clone()), "{} {}", k, j);
    }}
}
""")
bug("c17-last-syndrome", "C17", "a received block that violates only the last parity check", "the last syndrome is not computed, so that a word outside of the code is taken as intact",
    [(S + "correct.rs", "    for i in 0..block_info.ec_cap * 2 {\n        syndromes[i as usize]", "    for i in 0..block_info.ec_cap * 2 - 1 {\n        syndromes[i as usize]")],
    Q + """fn main() {
    // a word with 2t - 1 zero syndromes: the data part of another, the check part of a shorter code
    let (v, l) = (2, 3);
    let d = codewords(v, l, Bits::new().bytes(v, b"PARITY CHECKS!"));
    let n = 28;
    let mut w = d.clone();
    w.push(0x5A);
    let c = rs(&w, n - 1);
    w.extend(c);
    assert_ne!(w, blocks(v, l, &d)[0]);
    match decode(v, &modules(v, l, 1, &[w])) {
        Err(_) => {}
        // one codeword differs at most in a correctable way
        Ok(s) => assert_eq!(s, "PARITY CHECKS!"),
    }
    // damage beyond repair must not be taken for an intact symbol
    let mut w = d.clone();
    w[3] ^= 0x10;
    w[7] ^= 0x33;
    w.push(0x5A);
    let c = rs(&w, n - 1);
    w.extend(c);
    let r = decode(v, &modules(v, l, 1, &[w.clone()]));
    let syn = |w: &[u8]| (0..n).filter(|i| { let mut a = 1; for _ in 0..*i { a = gmul(a, 2) } w.iter().fold(0, |s, b| gmul(s, a) ^ b) != 0 }).count();
    assert!(syn(&w) > 0);
    assert!(r.is_err(), "{:?}", r);
}
""")
bug("c26-exponent", "C26", "errors at large distances from the end of the block", "an exponent is reduced modulo the number of field elements instead of the order of the group",
    [(S + "correct.rs", "eq[i][j] = EXP8[(i * locs[j] as usize) % 255];", "eq[i][j] = EXP8[(i * locs[j] as usize) % 256];")],
    Q + """fn main() {
    let (v, l) = (4, 0);
    let t = filling(v, l);
    for s in 0..20 {
        let mut b = blocks(v, l, &codewords(v, l, Bits::new().bytes(v, t.as_bytes())));
        for i in 0..10 { b[0][i * 7 + s] ^= (i * 29 + s) as u8 | 1; }
        assert_eq!(decode(v, &modules(v, l, 2, &b)).ok(), Some(t.clone()));
    }
}
""")
bug("c26-first-codeword", "C26", "an error in the first codeword of a block", "the search for error locations leaves out the first codeword",
    [(S + "correct.rs", ".take(block_info.total_per as usize)", ".take(block_info.total_per as usize - 1)")],
    Q + """fn main() {
    let (v, l) = (9, 2);
    let t = filling(v, l);
    for k in 0..36 {
        let mut b = blocks(v, l, &codewords(v, l, Bits::new().bytes(v, t.as_bytes())));
        b[1][k] ^= 0x81; b[1][(k + 5) % 36] ^= 0x7; b[6][k] ^= 3;
        assert_eq!(decode(v, &modules(v, l, 2, &b)).ok(), Some(t.clone()));
    }
}
""")
bug("c10-info-strict", "C10", "a symbol with many repaired bits", "the decoder with information refuses symbols the plain decoder accepts",
    [(S + "decoder.rs", "            total_errors += error_count;\n", "            total_errors += error_count;\n            if total_errors > 40 {\n                return Err(QRError { msg: String::from(\"Too many errors\") });\n            }\n")],
    Q + """fn main() {
    let (v, l) = (9, 3);
    let t = filling(v, l);
    let mut b = blocks(v, l, &codewords(v, l, Bits::new().bytes(v, t.as_bytes())));
    for x in &mut b { for k in 0..10 { x[k * 3] ^= 0x5a; } }
    let g = modules(v, l, 2, &b);
    assert_eq!(decode(v, &g).ok(), Some(t.clone()));
    assert_eq!(decode_info(v, &g).ok().map(|r| r.0), Some(t));
}
""")
bug("c11-only-worst-block", "C11", "errors in more than one block", "the reported number of errors is that of one block only",
    [(S + "decoder.rs", "            total_errors += error_count;\n", "            total_errors = total_errors.max(error_count);\n")],
    Q + """fn main() {
    let (v, l) = (8, 1);
    let t = filling(v, l);
    let mut b = blocks(v, l, &codewords(v, l, Bits::new().bytes(v, t.as_bytes())));
    b[0][3] ^= 0x11; b[2][50] ^= 0x80; b[3][0] ^= 0x0f;
    assert_eq!(decode_info(v, &modules(v, l, 2, &b)).unwrap().1.errors, 7);
}
""")
bug("c11-capacity", "C11", "blocks of different length", "the reported amount of data counts every block like the first",
    [(S + "decoder.rs", "        let mut all_blocks = vec![];\n        let mut total_errors = 0;\n", "        let mut all_blocks = vec![];\n        let mut total_errors = 0;\n        let capacity = block_info.len() as u32 * u32::from(block_info[0].data_per) * 8;\n"),
     (S + "decoder.rs", "let total_data = (all_blocks.len() as u32) * 8;", "let total_data = capacity;")],
    Q + """fn main() {
    let (v, l) = (5, 2);
    let t = filling(v, l);
    let g = symbol(v, l, 2, Bits::new().bytes(v, t.as_bytes()));
    assert_eq!(decode_info(v, &g).unwrap().1.total_data, 62 * 8);
}
""")
bug("c24-gray", "C24", "a pixel that is neither 0 nor 255", "dark gray pixels count as dark modules",
    [("src/util/qr.rs", "if pixel == 0 {", "if pixel < 16 {")],
    """use bardecoder::util::qr::QRData;
fn main() {
    let mut d = vec![255; 25 * 25];
    d[3 * 25 + 7] = 9;
    d[4 * 25 + 8] = 0;
    let q = QRData::new(d, 2);
    assert_eq!(q.side, 25);
    assert_eq!(q[[7, 3]], 0);
    assert_eq!(q[[8, 4]], 1);
}
""")
PIPE = """use bardecoder::decode::Decode;
use bardecoder::detect::{Detect, Location};
use bardecoder::extract::Extract;
use bardecoder::prepare::Prepare;
use bardecoder::util::qr::{QRData, QRError, QRLocation};
use bardecoder::util::Point;
use bardecoder::DecoderBuilder;
use std::cell::RefCell;
use std::rc::Rc;
struct P; struct D(Vec<u32>); struct E(Rc<RefCell<Vec<u32>>>); struct F(Rc<RefCell<Vec<String>>>);
impl Prepare<u32, u32> for P { fn prepare(&self, i: &u32) -> u32 { i + 1 } }
impl Detect<u32> for D { fn detect(&self, p: &u32) -> Vec<Location> {
    assert_eq!(*p, 8);
    let o = Point { x: 0.0, y: 0.0 };
    self.0.iter().map(|v| Location::QR(QRLocation { top_left: o, top_right: o, bottom_left: o, module_size: 1.0, version: *v })).collect() } }
impl Extract<u32, QRLocation, QRData, QRError> for E { fn extract(&self, p: &u32, l: QRLocation) -> Result<QRData, QRError> {
    assert_eq!(*p, 8);
    self.0.borrow_mut().push(l.version);
    if l.version % 2 == 1 { Err(QRError { msg: format!("odd {}", l.version) }) } else { Ok(QRData::new(vec![l.version as u8], l.version)) } } }
impl Decode<QRData, String, QRError> for F { fn decode(&self, d: Result<QRData, QRError>) -> Result<String, QRError> {
    self.0.borrow_mut().push(format!("{:?}", d.as_ref().map(|d| d.version)));
    let d = d?;
    if d.version % 3 == 0 { Err(QRError { msg: format!("three {}", d.version) }) } else { Ok(format!("v{}", d.version)) } } }
fn run(v: &[u32]) -> (Vec<String>, Vec<u32>, Vec<String>) {
    let (e, f) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])));
    let mut b = DecoderBuilder::new();
    b.prepare(Box::new(P)); b.detect(Box::new(D(v.to_vec()))); b.qr(Box::new(E(e.clone())), Box::new(F(f.clone())));
    let r = b.build().decode(&7).into_iter().map(|r| match r { Ok(s) => s, Err(e) => e.to_string() }).collect();
    let r = (r, e.borrow().clone(), f.borrow().clone());
    r
}
fn main() {
    let v = [2, 4, 4, 3, 3, 6, 6, 8, 5, 9, 12, 14, 14];
    let (r, e, f) = run(&v);
    let want: Vec<String> = v.iter().map(|v| if v % 2 == 1 { format!("Error decoding QR Code: odd {}", v) } else if v % 3 == 0 { format!("Error decoding QR Code: three {}", v) } else { format!("v{}", v) }).collect();
    assert_eq!(r, want);
    assert_eq!(e, v);
    let want: Vec<String> = v.iter().map(|v| if v % 2 == 1 { format!("Err(QRError {{ msg: \\"odd {}\\" }})", v) } else { format!("Ok({})", v) }).collect();
    assert_eq!(f, want);
    assert!(run(&[]).0.is_empty());
}
"""
bug("c06-repeated-text", "C06", "two codes with the same text next to each other", "a result equal to the one before is dropped",
    [("src/decoder.rs", "                    all_decoded.push(decoded.map_err(Error::from));", "                    if decoded.is_err() && all_decoded.last().map_or(false, |l: &Result<RESULT, Error>| l.is_err()) {\n                        continue;\n                    }\n                    all_decoded.push(decoded.map_err(Error::from));")],
    PIPE)
bug("c06-stop-after-many", "C06", "more than eight codes in an image", "only the first locations are looked at",
    [("src/decoder.rs", "        for location in locations {\n            match", "        for location in locations.into_iter().take(8) {\n            match")],
    PIPE)
bug("c07-skip-decoder", "C07", "an extraction that fails", "the decoding component is not told about a failed extraction",
    [("src/decoder.rs", "                    let decoded = self.qr.decode.decode(extracted);\n", "                    let decoded = match extracted {\n                        Ok(data) => self.qr.decode.decode(Ok(data)),\n                        Err(err) => Err(err),\n                    };\n")],
    PIPE)
bug("c09-first-wins", "C09", "a builder configured twice", "the first component configured stays in place",
    [("src/decoder.rs", "        self.detect = Some(detect);\n", "        self.detect.get_or_insert(detect);\n")],
    """use bardecoder::detect::{Detect, Location};
use image::GrayImage;
struct None_;
impl Detect<GrayImage> for None_ { fn detect(&self, _p: &GrayImage) -> Vec<Location> { SEEN.with(|s| s.set(s.get() + 1)); vec![] } }
thread_local! { static SEEN: std::cell::Cell<u32> = std::cell::Cell::new(0); }
fn main() {
    let mut b = bardecoder::default_builder::<image::RgbaImage>();
    b.detect(Box::new(None_));
    let r = b.build().decode(&image::RgbaImage::new(20, 20));
    assert!(r.is_empty());
    assert_eq!(SEEN.with(|s| s.get()), 1);
}
""")

bug("c14-large-columns", "C14", "mask 2 in a symbol with more than 128 columns", "the column is cut to seven bits in one mask",
    [(S + "format.rs", "|j, _| j % 3 == 0", "|j, _| (j & 0x7f) % 3 == 0")],
    intact(40, 0, 2))
bug("c16-gf4-quotient", "C16", "a quotient of format field elements whose logarithms differ by one particular amount", "the difference of the logarithms is reduced by sixteen instead of fifteen at the far end",
    [(S + "galois.rs", "diff = if diff < 0 { diff + 15 } else { diff };\n\n        EXP4[diff as usize]", "diff = if diff < -13 { diff + 16 } else if diff < 0 { diff + 15 } else { diff };\n\n        EXP4[diff as usize]")],
    Q + """fn main() {
    let (v, l) = (1, 2);
    let t = filling(v, l);
    let s = iso::side(v);
    let p = iso::format_pos(v, 1);
    for a in 0..15 { for b in a + 1..15 { for c in b + 1..15 {
        let mut g = symbol(v, l, 6, Bits::new().bytes(v, t.as_bytes()));
        for i in [a, b, c] { g[(p[i].1 * s + p[i].0) as usize] ^= 1; }
        let q = iso::format_pos(v, 2);
        for i in 0..15 { g[(q[i].1 * s + q[i].0) as usize] = 1; }
        assert_eq!(decode(v, &g).ok(), Some(t.clone()), "{} {} {}", a, b, c);
    }}}
}
""")
bug("c16-gf8-quotient", "C16", "a quotient of elements whose logarithms differ by nearly the full range", "the difference of the logarithms is not reduced at the far end",
    [(S + "galois.rs", "diff = if diff < 0 { diff + 255 } else { diff };", "diff = if diff < -240 { diff + 256 } else if diff < 0 { diff + 255 } else { diff };")],
    Q + """fn main() {
    let (v, l) = (2, 1);
    let t = filling(v, l);
    for c in 0..44 { for e in 0..255u32 {
        let mut b = blocks(v, l, &codewords(v, l, Bits::new().bytes(v, t.as_bytes())));
        b[0][c] ^= e as u8 + 1;
        b[0][(c + 9) % 44] ^= 77;
        assert_eq!(decode(v, &modules(v, l, 2, &b)).ok(), Some(t.clone()));
    }}
}
""")
bug("c22-round-limit", "C22", "the one configuration with more than 120 data codewords in a block", "rounds of data codewords are limited too early, so check codewords are dealt out in the wrong order",
    [(S + "blocks.rs", "            if bi.data_per as usize > max_data_round {\n                max_data_round = bi.data_per as usize;", "            if bi.data_per as usize > max_data_round {\n                max_data_round = (bi.data_per as usize).min(120);")],
    intact(27, 0, 7))

bug("c19-nine-bits", "C19", "a wide read of exactly nine bits", "the high part of a wide read is shifted by at least two",
    [("src/util/chomp.rs", "<< (bits - 8);", "<< (bits - 8).max(2);")],
    """use bardecoder::util::Chomp;
fn main() {
    let mut c = Chomp::new(vec![0x12, 0xff, 0x34]);
    assert_eq!(c.chomp(4), Some(1));
    assert_eq!(c.chomp_or_u16(9, ()), Ok(0x5f));
}
""")

bug("c18-numeric-width", "C18", "a numeric segment in a version 26 symbol", "the character count is read with the width of the next group of versions",
    [(S + "data.rs", "        1..=9 => 10,\n        10..=26 => 12,\n        27..=40 => 14,", "        1..=9 => 10,\n        10..=25 => 12,\n        26..=40 => 14,")],
    Q + """fn main() {
    for v in [9, 10, 25, 26, 27] {
        let g = symbol(v, 1, 2, Bits::new().numeric(v, "90817263544"));
        assert_eq!(decode(v, &g).ok().as_deref(), Some("90817263544"), "version {}", v);
    }
}
""")
bug("c18-two-digits", "C18", "a numeric segment whose length leaves two digits with a leading zero", "the leading zero of the last two digits is dropped",
    [(S + "data.rs", '"{:02}"', '"{}"')],
    Q + """fn main() {
    for t in ["12345", "12305", "12300", "007", "0070"] {
        let g = symbol(3, 1, 2, Bits::new().numeric(3, t));
        assert_eq!(decode(3, &g).ok().as_deref(), Some(t));
    }
}
""")
bug("c18-high-bytes", "C18", "Latin-1 text with a letter above 0xC3", "any byte from 0xC3 on makes the text UTF-8",
    [(S + "data.rs", "if *r == 0xC3 {", "if *r >= 0xC3 && *r < 0xF8 {")],
    Q + """fn main() {
    let g = symbol(3, 1, 2, Bits::new().bytes(3, b"K\\xd6LN"));
    assert_eq!(decode(3, &g).ok().as_deref(), Some("K\\u{d6}LN"));
}
""")
PREP = """use bardecoder::prepare::{BlockedMean, Prepare};
use image::{DynamicImage, GrayImage, Luma};
fn prepared(bs: u32, ms: u32, g: &GrayImage) -> GrayImage { BlockedMean::new(bs, ms).prepare(&DynamicImage::ImageLuma8(g.clone())) }
"""
bug("c20-whole-mean", "C20", "an area whose mean lies between 250 and 251", "the mean is rounded down, so that such an area is not taken as white",
    [("src/prepare/blockedmean.rs", "                    total as f64 / count as f64;", "                    (total / count.max(1)) as f64;")],
    PREP + """fn main() {
    let g = GrayImage::from_fn(40, 40, |x, y| Luma([if (x + y) % 2 == 0 { 250 } else { 251 }]));
    assert!(prepared(5, 7, &g).pixels().all(|p| p.0[0] == 255));
}
""")
bug("c20-right-edge", "C20", "a bright column of blocks at the right edge", "the means near the right edge leave out the last column of blocks",
    [("src/prepare/blockedmean.rs", "let x_end = min(block_width, block_x + block_stride);", "let x_end = min(\n                    BlockCoord(block_width.0.saturating_sub(1)),\n                    block_x + block_stride,\n                );")],
    PREP + """fn main() {
    // a step at the right edge, a pixel between the mean with and without it
    let mut g = GrayImage::from_fn(60, 60, |x, _| Luma([if x >= 55 { 240 } else { 40 }]));
    g.put_pixel(52, 30, Luma([60]));
    assert_eq!(prepared(5, 7, &g).get_pixel(52, 30).0[0], 0);
}
""")
bug("c20-equal", "C20", "a pixel exactly as bright as the mean around it", "a pixel equal to the threshold becomes white",
    [("src/prepare/blockedmean.rs", "f64::from(p.channels()[0]) > mean", "f64::from(p.channels()[0]) >= mean")],
    PREP + """fn main() {
    let g = GrayImage::from_pixel(30, 30, Luma([128]));
    assert!(prepared(5, 7, &g).pixels().all(|p| p.0[0] == 0));
}
""")
DET = """use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::util::qr::QRLocation;
use image::{GrayImage, Luma};
// finder patterns with the given centres and module size, axes turned by the angle
fn found(w: u32, h: u32, m: f64, turn: f64, at: &[(f64, f64)]) -> Vec<QRLocation> {
    let (c, s) = (turn.to_radians().cos(), turn.to_radians().sin());
    let g = GrayImage::from_fn(w, h, |x, y| {
        let mut far = true;
        for (cx, cy) in at {
            let (u, v) = (f64::from(x) - cx, f64::from(y) - cy);
            let d = ((u * c + v * s).abs().max((v * c - u * s).abs()) / m - 0.5).ceil();
            if d <= 1.0 || d == 3.0 { return Luma([0]); }
            far &= d > 4.0;
        }
        // something like modules between the patterns
        let b = ((f64::from(x) / m).floor() + (f64::from(y) / m).floor()) % 2.0 == 0.0;
        Luma([if far && b { 0 } else { 255 }])
    });
    LineScan::new().detect(&g).into_iter().map(|l| match l { Location::QR(q) => q }).collect()
}
fn near(p: bardecoder::util::Point, q: (f64, f64)) -> bool { (p.x - q.0).abs() < 3.0 && (p.y - q.1).abs() < 3.0 }
"""
LS = "src/detect/linescan.rs"
bug("c21-quarter-turn", "C21", "a symbol turned by a quarter", "the order of the outer patterns is taken from their rows, which mirrors some orientations",
    [(LS, "    if perpendicular > 0.0 {\n        Some", "    if ay.abs() > by.abs() {\n        Some")],
    DET + """fn main() {
    let f = found(300, 300, 5.0, 0.0, &[(200.0, 60.0), (200.0, 200.0), (60.0, 60.0)]);
    assert_eq!(f.len(), 1);
    assert!(near(f[0].top_left, (200.0, 60.0)) && near(f[0].top_right, (200.0, 200.0)) && near(f[0].bottom_left, (60.0, 60.0)), "{:?}", f);
}
""")
bug("c21-rounding", "C21", "a symbol whose measured side is a little shorter than it should be", "the version is not rounded to the nearest one",
    [(LS, "((estimated_dist - 1.0) / 4.0).round() as u32", "((estimated_dist - 1.0) / 4.0 + 0.25) as u32")],
    DET + """fn main() {
    for (v, e) in [(1.0, 1.0), (7.0, -0.5), (7.0, -1.5), (12.0, -1.5)] {
        let s = 5.0 * (10.0 + 4.0 * v + e);
        let f = found(600, 600, 5.0, 0.0, &[(50.0, 50.0), (50.0 + s, 50.0), (50.0, 50.0 + s)]);
        assert_eq!(f.len(), 1);
        assert_eq!(f[0].version, v as u32);
    }
}
""")
EXT = Q + """use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::util::qr::QRLocation;
use bardecoder::util::Point;
use image::{GrayImage, Luma};
// a symbol drawn with module size m at (ox, oy); its corner opposite of the top left pulled by (px, py) modules
fn drawn(v: u32, g: &[u8], m: f64, o: f64, px: f64, py: f64) -> (GrayImage, QRLocation) {
    let s = iso::side(v);
    let w = (f64::from(s) * m + 2.0 * o) as u32 + 8;
    let n = f64::from(s) - 10.0;
    let im = GrayImage::from_fn(w, w, |x, y| {
        let (mut u, mut t) = ((f64::from(x) - o) / m - 0.5, (f64::from(y) - o) / m - 0.5);
        // inverse of the displacement, which is bilinear around the top left pattern
        let (x0, y0) = (u, t);
        for _ in 0..20 {
            let k = ((u - 3.0) / n) * ((t - 3.0) / n);
            u = x0 - px * k;
            t = y0 - py * k;
        }
        let (u, t) = (u.round(), t.round());
        if u < 0.0 || t < 0.0 || u >= f64::from(s) || t >= f64::from(s) { return Luma([255]); }
        Luma([if g[(t as u32 * s + u as u32) as usize] == 1 { 0 } else { 255 }])
    });
    let p = |a: f64, b: f64| Point { x: o + m * (a + 0.5), y: o + m * (b + 0.5) };
    let e = f64::from(s) - 4.0;
    (im, QRLocation { top_left: p(3.0, 3.0), top_right: p(e, 3.0), bottom_left: p(3.0, e), module_size: m, version: v })
}
fn check(v: u32, m: f64, px: f64, py: f64) {
    let t = filling(v, 1);
    let g = symbol(v, 1, 3, Bits::new().bytes(v, t.as_bytes()));
    let mut g = g;
    function_patterns(v, &mut g);
    let (im, l) = drawn(v, &g, m, 20.0, px, py);
    let d = QRExtractor::new().extract(&im, l).expect("extracted");
    let s = iso::side(v);
    for y in 0..s { for x in 0..s { assert_eq!(d[[x, y]], g[(y * s + x) as usize], "version {} module {} {}", v, x, y); } }
}
"""
EX = "src/extract/qr/mod.rs"
bug("c23-search", "C23", "an alignment pattern one module away from its place", "the alignment pattern is only looked for up to half a module away",
    [(EX, "'distance: for i in 0..4 {", "'distance: for i in 0..2 {")],
    EXT + "fn main() {\n    check(4, 8.0, 0.0, 0.0);\n    check(4, 8.0, -1.0, -1.0);\n    check(7, 8.0, 1.0, 1.0);\n}\n")
bug("c23-step", "C23", "a symbol of a very large version", "the steps between modules are derived from a side a little too long",
    [(EX, "dx = dx / f64::from(size - 7);", "dx = dx / (f64::from(size - 7) + if (26..40).contains(&version) { 0.6 } else { 0.0 });")],
    EXT + "fn main() {\n    check(6, 4.0, 0.0, 0.0);\n    check(35, 3.0, 0.0, 0.0);\n}\n")
bug("c25-scale", "C25", "a difference scaled from the right", "one operator scales a component by the other",
    [("src/util/point.rs", "            dx: self.dx * scalar,\n            dy: self.dy * scalar,", "            dx: self.dx * scalar,\n            dy: self.dx * scalar,")],
    """use bardecoder::util::{Delta, Point};
fn main() {
    let d = Delta { dx: 3.0, dy: -5.0 };
    let e = d * 2.0;
    assert_eq!((e.dx, e.dy), (6.0, -10.0));
    let p = Point { x: 1.0, y: 2.0 } + e;
    assert_eq!((p.x, p.y), (7.0, -8.0));
}
""")
bug("c25-difference", "C25", "differences subtracted whose second components differ", "the difference of two differences adds the vertical components",
    [("src/util/point.rs", "            dx: self.dx - delta.dx,\n            dy: self.dy - delta.dy,", "            dx: self.dx - delta.dx,\n            dy: self.dy - delta.dy.abs(),")],
    """use bardecoder::util::Delta;
fn main() {
    let d = Delta { dx: 3.0, dy: -5.0 } - Delta { dx: 1.0, dy: -0.5 };
    assert_eq!((d.dx, d.dy), (2.0, -4.5));
}
""")
# decoding ends normally whatever is done to the first block
END = Q + """fn quiet(v: u32, g: &[u8]) -> bool { let g = g.to_vec(); std::panic::catch_unwind(move || { let _ = decode(v, &g); }).is_ok() }
fn hostile(v: u32, l: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let t = filling(v, l);
    let b = blocks(v, l, &codewords(v, l, Bits::new().bytes(v, t.as_bytes())));
    let mut x = 12345u64;
    let mut r = |n: usize| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x % n as u64) as usize };
    for k in 1..b[0].len() { for _ in 0..60 {
        let mut c = b.clone();
        for _ in 0..k { let n = c[0].len(); c[0][r(n)] ^= 1 + r(255) as u8; }
        assert!(quiet(v, &modules(v, l, 1, &c)), "{} wrong codewords", k);
    } }
}
"""
bug("c01-no-location", "C01", "damage for which no wrong codeword can be located", "an error polynomial without roots is not expected any more",
    [(S + "correct.rs", "    let distance = distance.ok_or(QRError {\n        msg: String::from(\"Could not calculate error distances\"),\n    })?;", "    let distance = distance.unwrap();")],
    END + "fn main() {\n    hostile(1, 0);\n    hostile(1, 3);\n}\n")
bug("c01-beyond-block", "C01", "damage whose error polynomial has a root outside of the block", "wrong codewords are looked for one position too far",
    [(S + "correct.rs", ".take(block_info.total_per as usize)", ".take(block_info.total_per as usize + 1)")],
    END + "fn main() {\n    hostile(1, 0);\n    hostile(1, 2);\n}\n")
bug("c01-character", "C01", "a pair of alphanumeric characters with a value of 2025 or more", "the largest pair value has a first character one too far",
    [(S + "data.rs", "if char1 > 44 {", "if char1 > 45 {")],
    END + """fn main() {
    for k in 1980..2048 {
        let b = Bits::new().put(2, 4).put(2, 9).put(k, 11).put(0, 4);
        assert!(quiet(1, &symbol(1, 0, 2, b)), "{}", k);
    }
}
""")
RB = DET + """use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::util::Point;
fn quiet<T>(f: impl FnOnce() -> T + std::panic::UnwindSafe) -> bool { std::panic::catch_unwind(f).is_ok() }
fn at(w: u32, h: u32, tl: (f64, f64), tr: (f64, f64), bl: (f64, f64), version: u32, f: impl Fn(f64, f64) -> u8) -> bool {
    let g = GrayImage::from_fn(w, h, |x, y| Luma([f(f64::from(x), f64::from(y))]));
    let p = |p: (f64, f64)| Point { x: p.0, y: p.1 };
    let l = QRLocation { top_left: p(tl), top_right: p(tr), bottom_left: p(bl), module_size: 1.0, version };
    quiet(move || { let _ = QRExtractor::new().extract(&g, l); })
}
fn touching(w: u32, h: u32) {
    for m in 1..4 { for e in 0..4 {
        let m = f64::from(m);
        let r = 3.5 * m - 0.5;
        let (x, y) = match e { 0 => (r, 9.0 * m), 1 => (9.0 * m, r), 2 => (f64::from(w) - 1.0 - r, 9.0 * m), _ => (9.0 * m, f64::from(h) - 1.0 - r) };
        assert!(quiet(|| found(w, h, m, 0.0, &[(x, y)])), "{} {} {}", m, x, y);
    } }
    let n = 14;
    for x in 0..n { for y in 0..n {
        let c = (f64::from(x) * f64::from(w) / f64::from(n - 1), f64::from(y) * f64::from(h) / f64::from(n - 1));
        for m in [1.0, 2.0, 3.0] { assert!(quiet(|| found(w, h, m, 0.0, &[(c.0.round(), c.1.round())]))); }
    } }
}
"""
bug("c02-diagonal-bound", "C02", "a finder pattern near the right edge of a high image", "the diagonal refinement takes the sides of the image in the wrong order",
    [(LS, "                prepared.dimensions().0,\n            );\n        let range_y", "                max(prepared.dimensions().0, prepared.dimensions().1),\n            );\n        let range_y"), (LS, "use std::cmp::min;", "use std::cmp::{max, min};")],
    RB + "fn main() {\n    touching(60, 60);\n    touching(41, 30);\n    touching(28, 53);\n    touching(28, 30);\n    touching(25, 35);\n}\n")
bug("c02-scan-down", "C02", "a dark alignment pattern whose column is dark down to the edge of a wide image", "the scan below the alignment pattern ends at the width of the image",
    [(EX, "for y in al_y..prepared.dimensions().1 {", "for y in al_y..prepared.dimensions().0 {")],
    RB + """fn main() {
    let n = 18.0;
    for (tl, tr, bl) in [((0.0, 4.0), (12.6, 9.4), (-5.4, 16.6)), ((0.0, 4.0), (18.0, 4.0), (0.0, 22.0))] {
        let d = ((tr.0 - tl.0) / n, (tr.1 - tl.1) / n);
        let e = ((bl.0 - tl.0) / n, (bl.1 - tl.1) / n);
        let det = d.0 * e.1 - d.1 * e.0;
        for a in -8..9 { for b in -8..9 {
            let (a, b) = (f64::from(a) / 2.0 + 12.0, f64::from(b) / 2.0 + 12.0);
            let f = move |x: f64, y: f64| {
                let q: (f64, f64) = (x - tl.0, y - tl.1);
                let u = (q.0 * e.1 - q.1 * e.0) / det;
                let v = (q.1 * d.0 - q.0 * d.1) / det;
                if ((u - a).abs().max((v - b).abs()) - 0.5).ceil() == 1.0 { 255 } else { 0 }
            };
            for (w, h) in [(37, 28), (28, 28), (28, 37)] { assert!(at(w, h, tl, tr, bl, 2, f), "{} {}", a, b); }
        } }
    }
}
""")
bug("c02-close", "C02", "three finder patterns very close to each other", "the smallest distance of finder patterns is taken for modules between their centres",
    [(LS, "    if dist < 20 {", "    if dist < 11 {")],
    RB + """fn main() {
    for d in 6..24 {
        let d = f64::from(d);
        assert!(quiet(|| found(80, 80, 2.0, 0.0, &[(20.0, 20.0), (20.0 + 2.0 * d, 20.0), (20.0, 20.0 + 2.0 * d)])), "{}", d);
    }
}
""")
DBG = "// feature debug-images: drawings go to the scratch folder in TMPDIR\n"
LOGGED = """struct L;
impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); } fn flush(&self) {} }
static LOG: L = L;
fn logged(on: bool) { let _ = log::set_logger(&LOG); log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off }); }
"""
bug("c05-drawing-bound", "C05", "the debug-images feature and an alignment pattern at the lower edge of an image that is wider than high", "the drawing of the alignment pattern is bounded by the wrong side of the image",
    [(EX, "        let y_end = min(\n            img.dimensions().1,", "        let y_end = min(\n            img.dimensions().0,")],
    DBG + EXT + """fn main() {
    let t = filling(2, 1);
    let mut g = symbol(2, 1, 3, Bits::new().bytes(2, t.as_bytes()));
    function_patterns(2, &mut g);
    let (i, l) = drawn(2, &g, 4.0, 2.0, 0.0, 0.0);
    let i = GrayImage::from_fn(i.width() + 90, i.height() - 8, |x, y| if x < i.width() { *i.get_pixel(x, y) } else { Luma([255]) });
    for m in [4.0, 8.0, 12.0] {
        let l = QRLocation { module_size: m, ..l };
        let r = QRExtractor::new().extract(&i, l).map(|_| ());
        assert!(r.is_ok(), "{:?}", r);
    }
}
""")
bug("c05-no-folder", "C05", "the debug-images feature where no folder can be made", "an extraction fails when its debug image cannot be stored",
    [(EX, """            tmp.push("extract");

            if let Ok(_) = create_dir_all(tmp.clone()) {
""", """            tmp.push("extract");

            create_dir_all(tmp.clone()).map_err(|e| QRError {
                msg: format!("Cannot store debug image: {}", e),
            })?;

            {
""")],
    DBG + EXT + """fn main() {
    let t = filling(1, 1);
    let g = symbol(1, 1, 3, Bits::new().bytes(1, t.as_bytes()));
    let (i, l) = drawn(1, &g, 4.0, 16.0, 0.0, 0.0);
    let n = std::env::temp_dir().join("none");
    std::fs::write(&n, "a file").unwrap();
    std::env::set_var("TMPDIR", &n);
    assert!(QRExtractor::new().extract(&i, l).is_ok());
}
""")
bug("c05-shortened", "C05", "logging at debug level, and a symbol filled to its last byte", "the length that is logged is computed by removing the padding from the payload itself",
    [(S + "decoder.rs", """        debug!("TOTAL LENGTH {}", all_blocks.len());

        let data = super::data::data(all_blocks, qr_data.version)?;
        Ok(data)""", """        debug!("TOTAL LENGTH {}", {
            while all_blocks.last() == Some(&0x11) || all_blocks.last() == Some(&0xEC) {
                all_blocks.pop();
            }
            all_blocks.len()
        });

        let data = super::data::data(all_blocks, qr_data.version)?;
        Ok(data)""")],
    Q + LOGGED + """fn main() {
    // the last bits of the payload look like padding
    let b = Bits::new().numeric(1, &("001".repeat(11) + "1"));
    let g = symbol(1, 1, 2, b);
    logged(false);
    let a = decode(1, &g).map_err(|e| format!("{:?}", e));
    logged(true);
    let b = decode(1, &g).map_err(|e| format!("{:?}", e));
    assert_eq!(a, b);
}
""")
bug("c08-information", "C08", "an extraction error without a message, or any", "the decoder with information reports a general error instead of the one it was given",
    [(S + "decoder.rs", """    fn decode(&self, data: Result<QRData, QRError>) -> Result<(String, QRInfo), QRError> {
        let qr_data = data?;""", """    fn decode(&self, data: Result<QRData, QRError>) -> Result<(String, QRInfo), QRError> {
        let qr_data = data.map_err(|e| QRError {
            msg: match e.msg.is_empty() {
                true => String::from("No data extracted"),
                false => e.msg,
            },
        })?;""")],
    """use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::util::qr::QRError;
fn main() {
    for m in ["", "x", "Unable to find alignment pattern"] {
        let e = || Err(QRError { msg: m.to_string() });
        assert_eq!(QRDecoder::new().decode(e()).unwrap_err().msg, m);
        assert_eq!(QRDecoderWithInfo::new().decode(e()).unwrap_err().msg, m);
    }
}
""")
bug("c04-last-format", "C04", "a symbol whose format information is lost, after another symbol was decoded on the same thread", "the format information of the last symbol is used when that of this symbol cannot be corrected",
    [(S + "format.rs", "    let format = format?;\n", """    thread_local! {
        static LAST: std::cell::RefCell<Option<Vec<u8>>> = std::cell::RefCell::new(None);
    }
    // symbols seen in a row tend to be of one kind
    let format = match format {
        Ok(f) => {
            LAST.with(|l| *l.borrow_mut() = Some(f.clone()));
            f
        }
        Err(e) => LAST.with(|l| l.borrow().clone()).ok_or(e)?,
    };
""")],
    Q + """fn main() {
    let g = symbol(1, 1, 3, Bits::new().bytes(1, b"first"));
    for n in 0..300u32 {
        let mut bad = symbol(1, 1, 3, Bits::new().bytes(1, b"second"));
        for i in 0..8usize {
            let k = if i < 6 { i } else { i + 1 };
            if n >> i & 1 == 1 { bad[8 * 21 + k] ^= 1; bad[(20 - i.min(6)) * 21 + 8] ^= 1; }
            if n * 7 >> i & 1 == 1 { bad[k * 21 + 8] ^= 1; bad[8 * 21 + 13 + i] ^= 1; }
        }
        let c = bad.clone();
        let a = std::thread::spawn(move || decode(1, &c).map_err(|e| format!("{:?}", e))).join().unwrap();
        assert!(decode(1, &g).is_ok());
        let b = decode(1, &bad).map_err(|e| format!("{:?}", e));
        assert_eq!(a, b);
    }
}
""")
bug("c04-kept-means", "C04", "two images of the same size prepared by one BlockedMean", "the means of the first image are kept for later images of its size",
    [("src/prepare/blockedmean.rs", "    block_mean_size: BlockSize,\n}", "    block_mean_size: BlockSize,\n    kept: std::cell::RefCell<Option<((u32, u32), Vec<Stats>)>>,\n}"),
     ("src/prepare/blockedmean.rs", "            block_mean_size: BlockSize(block_mean_size),\n", "            block_mean_size: BlockSize(block_mean_size),\n            kept: std::cell::RefCell::new(None),\n"),
     ("src/prepare/blockedmean.rs", """        let block_map = self.as_block_map(&grayscale, width, height);
        let block_mean_map = self.to_block_mean_map(&block_map, width, height);

        self.to_threshold(grayscale, &block_mean_map, width, height)""", """        let mut kept = self.kept.borrow_mut();
        if kept.as_ref().map_or(true, |(size, _)| *size != dimensions) {
            let block_map = self.as_block_map(&grayscale, width, height);
            *kept = Some((dimensions, self.to_block_mean_map(&block_map, width, height)));
        }

        match kept.as_ref() {
            Some((_, means)) => self.to_threshold(grayscale, means, width, height),
            None => grayscale,
        }""")],
    PREP + """fn main() {
    let a = DynamicImage::ImageLuma8(GrayImage::from_fn(60, 60, |x, y| Luma([(x * 3 + y) as u8 / 2])));
    let b = DynamicImage::ImageLuma8(GrayImage::from_fn(60, 60, |x, y| Luma([255 - (x + y * 3) as u8 / 2])));
    let alone = BlockedMean::new(5, 7).prepare(&b);
    let p = BlockedMean::new(5, 7);
    p.prepare(&a);
    let after: GrayImage = p.prepare(&b);
    assert!(alone == after);
}
""")
bug("c04-hash-order", "C04", "an image with several symbols, decoded more than once", "the symbols come in the order of a hash table, which differs from run to run",
    [(LS, "        locations\n    }\n}\n\nimpl LineScan", """        // the same three patterns may have been found in another order
        if locations.len() > 3 {
            let mut centres = std::collections::HashMap::new();
            for l in locations {
                let Location::QR(q) = &l;
                centres.insert(((q.top_left.x + q.top_right.x) as i64, (q.top_left.y + q.bottom_left.y) as i64), l);
            }
            return centres.into_values().collect();
        }

        locations
    }
}

impl LineScan""")],
    DET + """fn main() {
    let mut at = vec![];
    for i in 0..5 {
        let x = 60.0 + 240.0 * f64::from(i);
        at.extend([(x, 60.0), (x + 70.0, 60.0), (x, 130.0)]);
    }
    let first = format!("{:?}", found(1200, 200, 5.0, 0.0, &at));
    for _ in 0..40 {
        assert_eq!(first, format!("{:?}", found(1200, 200, 5.0, 0.0, &at)));
    }
}
""")
bug("c04-environment", "C04", "the variable QR_STRICT in the environment", "damaged symbols are refused when an environment variable is set",
    [(S + "decoder.rs", "        debug!(\"TOTAL LENGTH {}\", all_blocks.len());\n\n        let data = super::data::data(all_blocks, qr_data.version)?;\n        Ok(data)", "        debug!(\"TOTAL LENGTH {}\", all_blocks.len());\n\n        if std::env::var_os(\"QR_STRICT\").is_some() && all_blocks.len() > 40 {\n            return Err(QRError {\n                msg: String::from(\"Symbol too large\"),\n            });\n        }\n\n        let data = super::data::data(all_blocks, qr_data.version)?;\n        Ok(data)")],
    Q + """fn main() {
    let g = symbol(3, 1, 2, Bits::new().bytes(3, b"text"));
    let a = decode(3, &g).map_err(|e| format!("{:?}", e));
    std::env::set_var("QR_STRICT", "1");
    assert_eq!(a, decode(3, &g).map_err(|e| format!("{:?}", e)));
}
""")
bug("c27-modules", "C27", "an index outside of the symbol", "modules are read without a bounds check",
    [("src/util/qr.rs", "        let pixel = self.data[index[1] as usize * self.side as usize + index[0] as usize];", "        // SAFETY: a symbol has side * side modules\n        let pixel = unsafe {\n            *self.data.get_unchecked(index[1] as usize * self.side as usize + index[0] as usize)\n        };")],
    """use bardecoder::util::qr::QRData;
fn main() {
    // what is just behind the data of the symbol
    let mut v = Vec::with_capacity(4096);
    v.resize(4096, 0u8);
    v.truncate(21 * 21);
    let q = QRData::new(v, 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| q[[3, 100]]));
    assert!(r.is_err());
}
""")
bug("c27-text", "C27", "bytes that look like UTF-8 at first and are not", "text is taken as UTF-8 without being checked",
    [(S + "data.rs", "String::from_utf8(result)?", "unsafe { String::from_utf8_unchecked(result) }")],
    Q + """fn main() {
    let g = symbol(2, 1, 2, Bits::new().bytes(2, &[0xEF, 0xBB, 0xBF, 0xC3, 0x28, 0xFF]));
    if let Ok(t) = decode(2, &g) {
        assert!(std::str::from_utf8(t.as_bytes()).is_ok());
    }
    for a in 0x80..=0xFFu8 {
        let g = symbol(2, 1, 2, Bits::new().bytes(2, &[0x41, a, 0xC3, 0xA4, a]));
        if let Ok(t) = decode(2, &g) {
            assert!(std::str::from_utf8(t.as_bytes()).is_ok());
        }
    }
}
""")
