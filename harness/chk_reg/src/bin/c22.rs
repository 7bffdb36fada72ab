use model::faults::*;
use model::props::*;
fn main() {
    let all = || -> Vec<model::Ty> { chk_reg::all().into_iter().filter(|t| t.is(model::flags::EXT)).collect() };
    let mut m = pbt::Main::new("C22", "values and hostile bytes of every integrated third-party type (chrono, glam, smallvec, regex, uuid, indexmap 1 and 2) and nestings, both byte orders; non-trivial = distinct (type, bytes)");
    let t = all(); m.section("documented layout", 180_000, 2_000_000, move |s, cx| format(s, cx, &t));
    let t = all(); m.section("round trip", 180_000, 2_000_000, move |s, cx| round_trip(s, cx, &t));
    let t = all(); m.section("arbitrary bytes", 360_000, 4_000_000, move |s, cx| hostile_buffers(s, cx, &t));
    let t = all(); m.section("prefixes and corrupted bytes", 60_000, 500_000, move |s, cx| prefixes(s, cx, &t));
    let t = all(); m.section("sizes and writers", 60_000, 500_000, move |s, cx| writers(s, cx, &t));
    let t = all().into_iter().filter(|t| !t.is(model::flags::NONUNIQUE) && !t.is(model::flags::SLOW)).collect::<Vec<_>>(); m.section("accepted bytes are written back", 90_000, 1_000_000, move |s, cx| accept_rewrite(s, cx, &t));
    m.run()
}
