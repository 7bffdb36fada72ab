use model::faults::*;
fn main() {
    let all = || -> Vec<model::Ty> { chk_reg::all().into_iter().filter(|t| !t.is(model::flags::BORROW)).collect() };
    let mut m = pbt::Main::new("C09", "values of every registry type read from streams with random read schedules, an I/O error (11 kinds, lasting or transient) or an end at every byte offset (sampled above 20 bytes), and from missing, unreadable, special and pipe files; non-trivial = distinct (value, fault position, kind, reader) with the fault inside the value, or a schedule that interrupts");
    m.level = "fault_enumeration";
    let t = all(); m.section("interruptions", 120_000, 1_500_000, move |s, cx| interrupted_reads(s, cx, &t));
    let t = all(); m.section("error at every offset", 48_000, 600_000, move |s, cx| read_faults(s, cx, &t));
    let t = all(); m.section("early end", 32_000, 400_000, move |s, cx| early_end(s, cx, &t));
    let t = all(); m.section("files", 16_000, 100_000, move |s, cx| read_files(s, cx, &t));
    m.run()
}
