fn main() {
    let t: Vec<_> = chk_reg::all().into_iter().filter(|t| t.is(model::flags::BUILTIN)).collect();
    let mut m = pbt::Main::new("C02", "values of every built-in type (cycled), both byte orders; non-trivial = distinct (type, non-empty documented encoding)");
    m.section("format", 720_000, 3_000_000, move |s, cx| model::props::format(s, cx, &t));
    m.run()
}
