use model::faults::*;
fn main() {
    let mut m = pbt::Main::new("C10", "values of every registry type written to sinks that fail, refuse or interrupt at every byte offset (sampled above 20 bytes), to /dev/full, and to files under a size limit; non-trivial = distinct (value, fault position, fault) inside the value, or distinct (value, schedule)");
    m.level = "fault_enumeration";
    let t = chk_reg::all(); m.section("fault at every offset", 225_000, 900_000, move |s, cx| write_faults(s, cx, &t));
    let t = chk_reg::all(); m.section("short writes", 450_000, 1_800_000, move |s, cx| short_writes(s, cx, &t));
    let t = chk_reg::all(); m.section("files", 180_000, 720_000, move |s, cx| write_files(s, cx, &t));
    m.run()
}
