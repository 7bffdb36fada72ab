mod gen;
use model::props::*;
fn main() {
    let all = |f: u32| -> Vec<model::Ty> { gen::types().into_iter().filter(|t| t.flags & f == 0).collect() };
    let mut m = pbt::Main::new("C03", "type definitions from the random derive grammar (the seed decides which), values of each; non-trivial = distinct (type, bytes)");
    m.extra.push(("programs".into(), format!("{} registered types of generated definitions", gen::types().len())));
    let t = all(0); m.section("documented format", 80_000, 1_500_000, move |s, cx| format(s, cx, &t));
    let t = all(0); m.section("round trip", 40_000, 800_000, move |s, cx| round_trip(s, cx, &t));
    let t = all(0); m.section("sizes and writers", 30_000, 500_000, move |s, cx| writers(s, cx, &t));
    let t = all(0); m.section("arbitrary bytes", 60_000, 1_500_000, move |s, cx| hostile_buffers(s, cx, &t));
    let t = all(0); m.section("prefixes", 12_000, 400_000, move |s, cx| prefixes(s, cx, &t));
    let t = all(0); m.section("minimum size", 12_000, 300_000, move |s, cx| truncation(s, cx, &t));
    m.run()
}
