fn main() {
    let t = chk_reg::all();
    let mut m = pbt::Main::new("C08", "sequences of 1-5 values of different types plus junk, read back one after another; non-trivial = distinct sequences of at least two values");
    m.section("sequence", 150_000, 1_500_000, move |s, cx| model::props::sequence(s, cx, &t));
    m.run()
}
