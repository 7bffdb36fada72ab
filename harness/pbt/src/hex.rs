/// Readable, bounded rendering of a byte string.
pub fn hex(b: &[u8]) -> String {
    const MAX: usize = 96;
    let mut s = String::with_capacity(MAX * 2 + 24);
    for (i, x) in b.iter().enumerate() {
        if i == MAX {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    if b.is_empty() { s.push_str("(empty)"); }
    s
}
