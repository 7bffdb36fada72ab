fn main() {
    let t = chk_reg::all();
    let mut m = pbt::Main::new("C05", "byte strings (valid, truncated, mutated, foreign, random, larger than the stream buffer) given to five readers under random read schedules; sparse files larger than 32 bits can count or than can be mapped, read at drawn places; non-trivial = distinct (type, non-empty input)");
    m.section("readers agree", 400_000, 3_000_000, move |s, cx| model::props::readers_agree(s, cx, &t));
    m.section("files beyond 32 bits and beyond memory", 3_000, 60_000, model::huge::file);
    m.run()
}
