mod iso; mod qrenc;
use qrenc::*;
fn main() {
    for v in 1..=40 { for l in 0..4 {
        let t = filling(v, l);
        let g = symbol(v, l, (v + l as u32) % 8, Bits::new().bytes(v, t.as_bytes()));
        assert_eq!(decode(v, &g).unwrap(), t, "{} {}", v, l);
    }}
    let g = symbol(27, 0, 1, Bits::new().numeric(27, "0123456").alnum(27, "AZ:"));
    assert_eq!(decode(27, &g).unwrap(), "0123456AZ:");
}
