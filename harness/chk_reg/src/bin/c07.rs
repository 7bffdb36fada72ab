fn main() {
    let t = chk_reg::all();
    let mut m = pbt::Main::new("C07", "values of every registry type x truncation points x entry points; non-trivial = distinct (type, strict prefix)");
    m.section("truncation", 125_000, 1_000_000, move |s, cx| model::props::truncation(s, cx, &t));
    m.run()
}
