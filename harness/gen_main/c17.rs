mod gen;
use model::props::*;
fn main() {
    let mut m = pbt::Main::new("C17", "element types of every layout (repr none/C/packed/transparent, nested, zero-sized, with attributes) x element counts x alignments; bulk coding compared with coding one element at a time; non-trivial = distinct (type, bytes)");
    let b = gen::bulks();
    m.extra.push(("programs".into(), format!("{} generated element types, {} registered types", b.len(), gen::types().len())));
    m.section("derived elements", 240_000, 2_000_000, move |s, cx| { let i = s.cycle(b.len()); (b[i].f)(b[i].name, b[i].zero, s, cx) });
    let b = model::bulk::builtin();
    m.section("built-in elements", 120_000, 1_000_000, move |s, cx| { let i = s.cycle(b.len()); (b[i].f)(b[i].name, b[i].zero, s, cx) });
    let t = gen::types(); m.section("documented format", 90_000, 500_000, move |s, cx| format(s, cx, &t));
    let t = gen::types(); m.section("arbitrary bytes", 90_000, 800_000, move |s, cx| hostile_buffers(s, cx, &t));
    m.run()
}
