fn main() {
    let t = chk_reg::all();
    let mut m = pbt::Main::new("C06", "hostile byte strings at guard pages; non-trivial = distinct (type, input) that is not simply a valid encoding");
    m.section("hostile buffers", 900_000, 6_000_000, move |s, cx| model::props::hostile_buffers(s, cx, &t));
    m.run()
}
