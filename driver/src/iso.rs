//! Reference data of ISO/IEC 18004, written independently of the analysed program.
pub const ECC: [[u32; 40]; 4] = [
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
pub const NB: [[u32; 40]; 4] = [
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];
/// two-bit indicator of the levels L, M, Q, H
pub const LVL: [u32; 4] = [1, 0, 3, 2];
pub const LVL_NAME: [&str; 4] = ["L", "M", "Q", "H"];

pub fn side(v: u32) -> u32 {
    17 + 4 * v
}
pub fn align(v: u32) -> Vec<u32> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = if v == 32 { 26 } else { (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2 };
    let mut r: Vec<u32> = (0..n - 1).map(|i| side(v) - 7 - i * step).collect();
    r.push(6);
    r.reverse();
    r
}
/// blocks in order: (codewords, data codewords, correctable errors)
pub fn blocks(v: u32, l: usize) -> Vec<(u32, u32, u32)> {
    let raw = raw_modules(v) / 8;
    let nb = NB[l][v as usize - 1];
    let ecc = ECC[l][v as usize - 1];
    let short = nb - raw % nb;
    // misdecode protection codewords of the smallest symbols
    let p = match (v, l) {
        (1, 0) => 3,
        (1, 1) => 2,
        (1, 2) | (1, 3) => 1,
        (2, 0) => 2,
        (3, 0) => 1,
        _ => 0,
    };
    (0..nb)
        .map(|i| {
            let n = raw / nb + if i >= short { 1 } else { 0 };
            (n, n - ecc, (ecc - p) / 2)
        })
        .collect()
}
pub fn raw_modules(v: u32) -> u32 {
    let mut r = (16 * v + 128) * v + 64;
    if v >= 2 {
        let n = v / 7 + 2;
        r -= (25 * n - 10) * n - 55;
        if v >= 7 {
            r -= 36;
        }
    }
    r
}
/// is the module at column x, row y a function module
pub fn function(v: u32, x: u32, y: u32) -> bool {
    let s = side(v);
    if x == 6 || y == 6 {
        return true;
    }
    if (x < 9 && y < 9) || (x >= s - 8 && y < 9) || (x < 9 && y >= s - 8) {
        return true;
    }
    if v >= 7 && ((x >= s - 11 && y < 6) || (y >= s - 11 && x < 6)) {
        return true;
    }
    let al = align(v);
    let last = al.len().wrapping_sub(1);
    for (i, a) in al.iter().enumerate() {
        for (j, b) in al.iter().enumerate() {
            if (i == 0 && j == 0) || (i == 0 && j == last) || (i == last && j == 0) {
                continue;
            }
            if x.abs_diff(*a) <= 2 && y.abs_diff(*b) <= 2 {
                return true;
            }
        }
    }
    false
}
/// data modules (column, row) in placement order, full codewords only
pub fn placement(v: u32) -> Vec<(u32, u32)> {
    let s = side(v) as i64;
    let mut r = vec![];
    let mut right = s - 1;
    while right >= 1 {
        if right == 6 {
            right = 5;
        }
        for k in 0..s {
            for j in 0..2 {
                let x = right - j;
                let up = (right + 1) & 2 == 0;
                let y = if up { s - 1 - k } else { k };
                if !function(v, x as u32, y as u32) {
                    r.push((x as u32, y as u32));
                }
            }
        }
        right -= 2;
    }
    assert_eq!(r.len() as u32, raw_modules(v));
    let n = r.len() / 8 * 8;
    r.truncate(n);
    r
}
pub fn masked(m: u32, x: u32, y: u32) -> bool {
    match m {
        0 => (x + y) % 2 == 0,
        1 => y % 2 == 0,
        2 => x % 3 == 0,
        3 => (x + y) % 3 == 0,
        4 => (x / 3 + y / 2) % 2 == 0,
        5 => x * y % 2 + x * y % 3 == 0,
        6 => (x * y % 2 + x * y % 3) % 2 == 0,
        _ => ((x + y) % 2 + x * y % 3) % 2 == 0,
    }
}
/// codeword sequence number (in placement order) of byte k of block b
pub fn interleave(v: u32, l: usize) -> Vec<Vec<usize>> {
    let bl = blocks(v, l);
    let mut r: Vec<Vec<usize>> = bl.iter().map(|b| vec![0; b.0 as usize]).collect();
    let mut n = 0;
    let maxd = bl.iter().map(|b| b.1).max().unwrap();
    for k in 0..maxd {
        for (i, b) in bl.iter().enumerate() {
            if k < b.1 {
                r[i][k as usize] = n;
                n += 1;
            }
        }
    }
    let ecc = bl[0].0 - bl[0].1;
    for k in 0..ecc {
        for (i, b) in bl.iter().enumerate() {
            r[i][(b.1 + k) as usize] = n;
            n += 1;
        }
    }
    r
}
/// the 15 format bits, most significant first, mask pattern applied
pub fn format_bits(l: usize, m: u32) -> Vec<u8> {
    let d = LVL[l] << 3 | m;
    let mut rem = d;
    for _ in 0..10 {
        rem = (rem << 1) ^ ((rem >> 9) * 0x537);
    }
    let bits = (d << 10 | rem) ^ 0x5412;
    (0..15).rev().map(|i| (bits >> i & 1) as u8).collect()
}
/// modules (column, row) of the format copies, most significant bit first
pub fn format_pos(v: u32, copy: u32) -> Vec<(u32, u32)> {
    let s = side(v);
    let mut r = vec![];
    if copy == 1 {
        for x in [0, 1, 2, 3, 4, 5, 7, 8] {
            r.push((x, 8));
        }
        for y in [7, 5, 4, 3, 2, 1, 0] {
            r.push((8, y));
        }
    } else {
        for k in 0..7 {
            r.push((8, s - 1 - k));
        }
        for k in 0..8 {
            r.push((s - 8 + k, 8));
        }
    }
    r
}
