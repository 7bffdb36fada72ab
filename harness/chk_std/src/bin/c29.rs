//! Nothing a safe program does makes the library misuse memory.
use chk_std::bad;
use pbt::Res;
fn main() {
    let mut m = pbt::Main::new("C29", "user code that contradicts itself, drawn while it runs, next to the library; non-trivial = distinct (type, input) with at least one lie");
    for (k, name) in bad::KINDS.iter().enumerate() {
        m.section(name, 250_000, 5_000_000, move |s, cx| -> Res {
            let (d, r) = bad::case(k, s);
            cx.note(|| format!("{} from {}, {} lies", d.what, pbt::hex(&d.data), d.lies));
            if d.lies > 0 { cx.nontrivial(&d.what, &d.data) }
            r
        });
    }
    m.section("elements of no size", 20_000, 200_000, |s, cx| { let (d, r) = bad::many(s); cx.note(|| d.what.clone()); cx.nontrivial(&d.what, &d.data); r });
    m.run()
}
