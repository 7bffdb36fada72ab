fn main() {
    let t = chk_reg::all();
    let mut m = pbt::Main::new("C04", "values of every registry type written to a vector, exact/longer/shorter buffers at a guard page, scripted streams and files; non-trivial = distinct (type, non-empty encoding)");
    m.section("writers agree", 300_000, 3_000_000, move |s, cx| model::props::writers(s, cx, &t));
    m.section("sizes beyond 32 bits", 6_000, 200_000, model::huge::write);
    m.run()
}
