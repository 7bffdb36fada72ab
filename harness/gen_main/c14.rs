mod gen;
use model::props::*;
fn main() {
    model::dty::BOUNDARY.with(|b| b.set(4));
    let mut m = pbt::Main::new("C14", "every container kind x length width x plain/optional, length expressions, until-end fields; lengths at the edges of each width and mismatched lengths; non-trivial = distinct (type, bytes)");
    m.extra.push(("programs".into(), format!("{} registered types of generated definitions", gen::types().len())));
    let t = gen::types(); m.section("documented framing", 30_000, 1_000_000, move |s, cx| format(s, cx, &t));
    let t = gen::types(); m.section("round trip", 15_000, 500_000, move |s, cx| round_trip(s, cx, &t));
    let t = gen::types(); m.section("unrepresentable and mismatched lengths, all writers", 20_000, 500_000, move |s, cx| writers(s, cx, &t));
    let t = gen::types(); m.section("cut and corrupted", 8_000, 400_000, move |s, cx| prefixes(s, cx, &t));
    let t = gen::types(); m.section("arbitrary lengths", 30_000, 1_500_000, move |s, cx| hostile_buffers(s, cx, &t));
    m.section("lengths beyond 32 bits, written", 6_000, 200_000, model::huge::write);
    m.section("lengths beyond 32 bits, read", 6_000, 200_000, model::huge::read);
    m.section("lists which a length expression disagrees with", 30_000, 600_000, model::huge::disagreeing);
    m.section("until the end, but for what is wrong", 100_000, 1_500_000, model::rest::rest);
    m.run()
}
