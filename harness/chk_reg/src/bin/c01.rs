fn main() {
    let t = chk_reg::all();
    let mut m = pbt::Main::new("C01", "values of every registry type (cycled), both byte orders; each is written and read back through all reading entry points; non-trivial = distinct (type, non-empty encoding)");
    m.section("round trip", 240_000, 3_000_000, move |s, cx| model::props::round_trip(s, cx, &t));
    m.run()
}
