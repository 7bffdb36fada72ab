mod gen;
use model::props::*;
fn main() {
    let mut m = pbt::Main::new("C16", "every kind of field with default_on_eof, skip, constant_prefix and their mixtures; inputs cut at every point, corrupted, and streams that fail; non-trivial = distinct (type, bytes)");
    m.extra.push(("programs".into(), format!("{} registered types of generated definitions", gen::types().len())));
    let t = gen::types(); m.section("cut and corrupted", 80_000, 800_000, move |s, cx| prefixes(s, cx, &t));
    let t = gen::types(); m.section("documented format", 80_000, 800_000, move |s, cx| format(s, cx, &t));
    let t = gen::types(); m.section("round trip", 40_000, 400_000, move |s, cx| round_trip(s, cx, &t));
    let t = gen::types(); m.section("sizes and writers", 40_000, 400_000, move |s, cx| writers(s, cx, &t));
    let t = gen::types(); m.section("stream errors", 80_000, 800_000, move |s, cx| stream_errors(s, cx, &t));
    let t = gen::types(); m.section("arbitrary bytes", 80_000, 800_000, move |s, cx| hostile_buffers(s, cx, &t));
    m.run()
}
