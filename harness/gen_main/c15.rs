mod gen;
use model::props::*;
fn main() {
    let mut m = pbt::Main::new("C15", "enums of every tag width (peeking or not; tags automatic, by attribute, by discriminant) x every variant x tag values (all 256 for one-byte tags, near misses otherwise); non-trivial = distinct (enum, bytes)");
    m.extra.push(("programs".into(), format!("{} generated enums", gen::enums().len())));
    let t = gen::enums(); m.section("tags", 24_000, 400_000, move |s, cx| tags(s, cx, &t));
    let t: Vec<_> = gen::types(); m.section("round trip", 60_000, 500_000, move |s, cx| round_trip(s, cx, &t));
    let t: Vec<_> = gen::types(); m.section("arbitrary bytes", 80_000, 800_000, move |s, cx| hostile_buffers(s, cx, &t));
    m.run()
}
