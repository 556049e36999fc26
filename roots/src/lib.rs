//! Entry points handed to the analysis, and Rust models of a few library routines.
//! Nothing here is ever executed.
#![allow(clippy::all)]
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::{ECLevel, QRData, QRError, QRLocation};
use bardecoder::util::{Chomp, Delta, Point};
use bardecoder::{Decoder, DecoderBuilder, QRInfo};
use image::{DynamicImage, GrayImage};

pub fn root_decode(d: &QRDecoder, data: Vec<u8>, v: u32) -> Result<String, QRError> {
    d.decode(Ok(QRData::new(data, v)))
}
pub fn root_decode_info(d: &QRDecoderWithInfo, data: Vec<u8>, v: u32) -> Result<(String, QRInfo), QRError> {
    d.decode(Ok(QRData::new(data, v)))
}
/// text, version, level (0 low .. 3 high), number of data bits, number of wrong bits
pub fn root_decode_parts(d: &QRDecoderWithInfo, data: Vec<u8>, v: u32) -> Result<(String, u32, u8, u32, u32), QRError> {
    match d.decode(Ok(QRData::new(data, v))) {
        Ok((t, i)) => {
            let l = match i.ec_level {
                ECLevel::LOW => 0,
                ECLevel::MEDIUM => 1,
                ECLevel::QUARTILE => 2,
                ECLevel::HIGH => 3,
            };
            Ok((t, i.version, l, i.total_data, i.errors))
        }
        Err(e) => Err(e),
    }
}
pub fn root_decode_raw(d: &QRDecoder, data: Result<QRData, QRError>) -> Result<String, QRError> {
    d.decode(data)
}
pub fn root_decode_info_raw(d: &QRDecoderWithInfo, data: Result<QRData, QRError>) -> Result<(String, QRInfo), QRError> {
    d.decode(data)
}
pub fn root_new_plain() -> QRDecoder {
    QRDecoder::new()
}
pub fn root_new_info() -> QRDecoderWithInfo {
    QRDecoderWithInfo::new()
}
pub fn root_qrdata(data: Vec<u8>, v: u32) -> QRData {
    QRData::new(data, v)
}
pub fn root_qrdata_parts(data: Vec<u8>, v: u32) -> (Vec<u8>, u32, u32) {
    let d = QRData::new(data, v);
    (d.data, d.version, d.side)
}
pub fn root_index_at(data: Vec<u8>, v: u32, x: u32, y: u32) -> u8 {
    QRData::new(data, v)[[x, y]]
}
pub fn root_index(d: &QRData, x: u32, y: u32) -> u8 {
    d[[x, y]]
}
pub fn root_chomp_new(b: Vec<u8>) -> Chomp {
    Chomp::new(b)
}
pub fn root_chomp(c: &mut Chomp, n: u8) -> Option<u8> {
    c.chomp(n)
}
pub fn root_chomp_step(mut c: Chomp, n: u8) -> (Chomp, Option<u8>) {
    let r = c.chomp(n);
    (c, r)
}
pub fn root_chomp_step_or(mut c: Chomp, n: u8, e: u32) -> (Chomp, Result<u8, u32>) {
    let r = c.chomp_or(n, e);
    (c, r)
}
pub fn root_chomp_step_u16(mut c: Chomp, n: u8, e: u32) -> (Chomp, Result<u16, u32>) {
    let r = c.chomp_or_u16(n, e);
    (c, r)
}
pub fn root_chomp_or(c: &mut Chomp, n: u8, e: u32) -> Result<u8, u32> {
    c.chomp_or(n, e)
}
pub fn root_chomp_or_u16(c: &mut Chomp, n: u8, e: u32) -> Result<u16, u32> {
    c.chomp_or_u16(n, e)
}
pub fn root_prepare(p: &BlockedMean, i: &DynamicImage) -> GrayImage {
    p.prepare(i)
}
pub fn root_new_prepare(a: u32, b: u32) -> BlockedMean {
    BlockedMean::new(a, b)
}
pub fn root_detect(p: &LineScan, i: &GrayImage) -> Vec<Location> {
    p.detect(i)
}
pub fn root_new_detect() -> LineScan {
    LineScan::new()
}
pub fn root_extract(p: &QRExtractor, i: &GrayImage, l: QRLocation) -> Result<QRData, QRError> {
    p.extract(i, l)
}
pub fn root_new_extract() -> QRExtractor {
    QRExtractor::new()
}
pub fn root_default() -> Decoder<DynamicImage, GrayImage, String> {
    bardecoder::default_decoder()
}
pub fn root_default_info() -> Decoder<DynamicImage, GrayImage, (String, QRInfo)> {
    bardecoder::default_decoder_with_info()
}
pub fn root_default_run(i: &DynamicImage) -> Vec<Result<String, String>> {
    let d = bardecoder::default_decoder();
    d.decode(i).into_iter().map(|x| x.map_err(|_| String::new())).collect()
}
pub fn root_default_run_info(i: &DynamicImage) -> Vec<Result<(String, QRInfo), String>> {
    let d = bardecoder::default_decoder_with_info();
    d.decode(i).into_iter().map(|x| x.map_err(|_| String::new())).collect()
}
pub fn root_default_builder() -> DecoderBuilder<DynamicImage, GrayImage, String> {
    bardecoder::default_builder()
}
pub fn root_default_builder_info() -> DecoderBuilder<DynamicImage, GrayImage, (String, QRInfo)> {
    bardecoder::default_builder_with_info()
}

// ---- arbitrary user components ----
pub struct Img(pub u32);
pub struct Prep(pub u32);
pub struct UserPrepare(pub u32);
pub struct UserDetect(pub u32);
pub struct UserExtract(pub u32);
pub struct UserDecode(pub u32);
impl Prepare<Img, Prep> for UserPrepare {
    fn prepare(&self, _i: &Img) -> Prep {
        Prep(0)
    }
}
impl Detect<Prep> for UserDetect {
    fn detect(&self, _i: &Prep) -> Vec<Location> {
        vec![]
    }
}
impl Extract<Prep, QRLocation, QRData, QRError> for UserExtract {
    fn extract(&self, _i: &Prep, _l: QRLocation) -> Result<QRData, QRError> {
        Err(QRError { msg: String::new() })
    }
}
impl Decode<QRData, u64, QRError> for UserDecode {
    fn decode(&self, _d: Result<QRData, QRError>) -> Result<u64, QRError> {
        Ok(0)
    }
}
pub type UB = DecoderBuilder<Img, Prep, u64>;
pub fn root_ub_new() -> UB {
    DecoderBuilder::new()
}
pub fn root_ub_prepare(b: &mut UB, p: UserPrepare) {
    b.prepare(Box::new(p));
}
pub fn root_ub_detect(b: &mut UB, p: UserDetect) {
    b.detect(Box::new(p));
}
pub fn root_ub_qr(b: &mut UB, p: UserExtract, d: UserDecode) {
    b.qr(Box::new(p), Box::new(d));
}
pub fn root_ub_build(b: UB) -> Decoder<Img, Prep, u64> {
    b.build()
}
pub fn root_ub_chain(p: UserPrepare, d: UserDetect, e: UserExtract, c: UserDecode) -> Decoder<Img, Prep, u64> {
    let mut b = UB::new();
    b.prepare(Box::new(p)).detect(Box::new(d)).qr(Box::new(e), Box::new(c));
    b.build()
}
/// any sequence of builder calls; the operand of call `i` is component `i`
pub fn root_ub_seq(n: usize, ops: [u8; 6]) -> Decoder<Img, Prep, u64> {
    let mut b = UB::new();
    let mut i = 0;
    while i < n {
        match ops[i] {
            0 => {
                b.prepare(Box::new(UserPrepare(i as u32)));
            }
            1 => {
                b.detect(Box::new(UserDetect(i as u32)));
            }
            _ => {
                b.qr(Box::new(UserExtract(i as u32)), Box::new(UserDecode(i as u32)));
            }
        }
        i += 1;
    }
    b.build()
}
impl Prepare<DynamicImage, GrayImage> for UserPrepare {
    fn prepare(&self, i: &DynamicImage) -> GrayImage {
        i.to_luma8()
    }
}
impl Detect<GrayImage> for UserDetect {
    fn detect(&self, _i: &GrayImage) -> Vec<Location> {
        vec![]
    }
}
impl Extract<GrayImage, QRLocation, QRData, QRError> for UserExtract {
    fn extract(&self, _i: &GrayImage, _l: QRLocation) -> Result<QRData, QRError> {
        Err(QRError { msg: String::new() })
    }
}
impl Decode<QRData, String, QRError> for UserDecode {
    fn decode(&self, _d: Result<QRData, QRError>) -> Result<String, QRError> {
        Ok(String::new())
    }
}
impl Decode<QRData, (String, QRInfo), QRError> for UserDecode {
    fn decode(&self, _d: Result<QRData, QRError>) -> Result<(String, QRInfo), QRError> {
        Err(QRError { msg: String::new() })
    }
}
/// a default decoder with some components replaced
pub fn root_def_custom(mask: u8, p: UserPrepare, d: UserDetect, e: UserExtract, c: UserDecode, i: &DynamicImage) {
    let mut b = bardecoder::default_builder();
    if mask & 1 != 0 {
        b.prepare(Box::new(p));
    }
    if mask & 2 != 0 {
        b.detect(Box::new(d));
    }
    if mask & 4 != 0 {
        b.qr(Box::new(e), Box::new(c));
    }
    b.build().decode(i);
}
pub fn root_def_custom_info(mask: u8, p: UserPrepare, d: UserDetect, e: UserExtract, c: UserDecode, i: &DynamicImage) {
    let mut b = bardecoder::default_builder_with_info();
    if mask & 1 != 0 {
        b.prepare(Box::new(p));
    }
    if mask & 2 != 0 {
        b.detect(Box::new(d));
    }
    if mask & 4 != 0 {
        b.qr(Box::new(e), Box::new(c));
    }
    b.build().decode(i);
}
pub fn root_def_run(i: &DynamicImage) {
    bardecoder::default_decoder().decode(i);
}
pub fn root_def_run_info(i: &DynamicImage) {
    bardecoder::default_decoder_with_info().decode(i);
}
pub fn root_ub_run(d: &Decoder<Img, Prep, u64>, i: &Img) -> Vec<Result<u64, bool>> {
    let r = d.decode(i);
    let mut o = Vec::new();
    for x in r {
        o.push(x.map_err(|_| false));
    }
    o
}
pub fn root_ub_run_raw(d: &Decoder<Img, Prep, u64>, i: &Img) -> usize {
    d.decode(i).len()
}

// ---- points ----
pub fn root_pt(op: u32, p: Point, q: Point, d: Delta, e: Delta, s: f64) -> (Point, Delta) {
    match op {
        0 => (p + d, d),
        1 => (p - d, d),
        2 => (p, p - q),
        3 => (p, d + e),
        4 => (p, d - e),
        5 => (p, d * s),
        6 => (p, s * d),
        _ => (p, d / s),
    }
}

// ---- models of library routines ----
pub fn stub_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(x);
    }
}
pub fn stub_collect_vec<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}
pub fn stub_collect_string<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut v = String::new();
    for x in it {
        v.push(x);
    }
    v
}
pub fn stub_extend_string<I: IntoIterator<Item = char>>(v: &mut String, it: I) {
    for x in it {
        v.push(x);
    }
}
pub fn stub_zip_next<A: Iterator, B: Iterator>(a: &mut A, b: &mut B) -> Option<(A::Item, B::Item)> {
    let x = a.next()?;
    let y = b.next()?;
    Some((x, y))
}
pub fn stub_skip_next<A: Iterator>(a: &mut A, n: &mut usize) -> Option<A::Item> {
    while *n > 0 {
        *n -= 1;
        a.next()?;
    }
    a.next()
}
pub fn stub_step_next<A: Iterator>(a: &mut A, step: &mut usize, first: &mut bool) -> Option<A::Item> {
    if *first {
        *first = false;
        return a.next();
    }
    let mut k = *step;
    while k > 0 {
        k -= 1;
        a.next()?;
    }
    a.next()
}
pub fn stub_sum<T: std::ops::Add<T, Output = T>, I: Iterator<Item = T>>(it: I, zero: T) -> T {
    let mut s = zero;
    for x in it {
        s = s + x;
    }
    s
}
pub fn stub_collect_result<T, E, I: IntoIterator<Item = Result<T, E>>>(it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    for x in it {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn stub_collect_option<T, I: IntoIterator<Item = Option<T>>>(it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    for x in it {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(v)
}
pub fn stub_retain<T, F: FnMut(&T) -> bool>(v: Vec<T>, mut f: F) -> Vec<T> {
    let mut r = Vec::new();
    for x in v {
        if f(&x) {
            r.push(x);
        }
    }
    r
}
pub fn stub_next<I: Iterator>(a: &mut I) -> Option<I::Item> {
    a.next()
}
pub fn stub_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(*x);
    }
}
pub fn stub_collect_str_string<S: AsRef<str>, I: IntoIterator<Item = S>>(it: I) -> String {
    let mut v = String::new();
    for x in it {
        v.push_str(x.as_ref());
    }
    v
}
