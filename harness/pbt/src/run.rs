//! Runs the sections of a check in isolated workers, shrinks failures, writes replay files and evidence.
use crate::src::Src;
use crate::{hash_str, sys};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail { pub msg: String }
impl Fail { pub fn new(msg: String) -> Fail { Fail { msg } } }
pub type Res = Result<(), Fail>;

/// What a property reports about the case it ran.
#[derive(Default)]
pub struct Cx {
    pub evals: u64,
    pub keys: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    want_sample: bool,
    /// Human-readable description of the current case, for failure reports.
    pub note: String,
    pub notes_on: bool,
}
impl Cx {
    /// Counts a distinct non-trivial case, identified by its content.
    pub fn nontrivial(&mut self, tag: &str, data: &[u8]) { if self.keys.len() < 4_000_000 { self.keys.insert(crate::hash_bytes(hash_str(1, tag), data)); } }
    pub fn label(&mut self, l: &str) { match self.labels.get_mut(l) { Some(n) => *n += 1, None => { self.labels.insert(l.to_string(), 1); } } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.want_sample { self.want_sample = false; self.samples.push(f()); } }
    pub fn evals(&mut self, n: u64) { self.evals += n; }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if !self.notes_on && !self.want_sample { return; }
        let t = f();
        if self.want_sample {
            self.want_sample = false;
            let mut k = t.len().min(600);
            while !t.is_char_boundary(k) { k -= 1 }
            self.samples.push(if k < t.len() { format!("{}…", &t[..k]) } else { t.clone() });
        }
        if self.notes_on { self.note.push_str(&t); self.note.push('\n'); }
    }
}

pub type Prop = Box<dyn Fn(&mut Src, &mut Cx) -> Res>;
pub struct Section { pub name: String, pub quick: u64, pub thorough: u64, pub f: Prop }

pub struct Main {
    pub id: &'static str,
    pub rule: String,
    pub level: &'static str,
    pub assumptions: Vec<String>,
    pub sections: Vec<Section>,
    /// Probes of recorded findings: prints what still fails, returns a line per finding that reproduces.
    pub extra: Vec<(String, String)>,
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
const SHM_WORDS: usize = 1 << 17;
fn hang() -> Duration { Duration::from_secs(std::env::var("PBT_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(60)) }

impl Main {
    pub fn new(id: &'static str, rule: &str) -> Main { Main { id, rule: rule.to_string(), level: "exploration", assumptions: vec![], sections: vec![], extra: vec![] } }
    pub fn section(&mut self, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Src, &mut Cx) -> Res + 'static) -> &mut Self {
        self.sections.push(Section { name: name.to_string(), quick, thorough, f: Box::new(f) });
        self
    }
    pub fn assume(&mut self, s: &str) -> &mut Self { self.assumptions.push(s.to_string()); self }
    pub fn run(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        std::panic::set_hook(Box::new(|info| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
            let l = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", m, l));
        }));
        sys::limit(sys::RLIMIT_CORE, 0);
        let code = match args.get(1).map(|s| s.as_str()) {
            Some("--worker") => { self.worker(&args[2..]); 0 }
            Some("--one") => self.one(&args[2..]),
            Some("--replay") => self.replay(&args[2]),
            _ => self.parent(),
        };
        std::process::exit(code)
    }
    fn case(&self, sec: usize, src: &mut Src, cx: &mut Cx) -> Res {
        cx.note.clear();
        let f = &self.sections[sec].f;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src, cx))) {
            Ok(r) => r,
            Err(_) => Err(Fail::new(format!("panicked: {}", PANIC.with(|p| p.borrow().clone())))),
        }
    }
    fn seed_for(&self, sec: usize, case: u64) -> u64 { hash_str(seed(), &format!("{}/{}/{}", self.id, self.sections[sec].name, case)) }

    // ---- worker ----
    fn worker(&self, a: &[String]) {
        let k: u64 = a[0].parse().unwrap();
        let n: u64 = a[1].parse().unwrap();
        let out = PathBuf::from(&a[2]);
        sys::limit(sys::RLIMIT_AS, 12 << 30);
        let (shm, cap) = open_shm(&a[3]);
        let deadline = Instant::now() + Duration::from_secs(a[4].parse().unwrap());
        watchdog(shm);
        let thorough = tier() == "thorough";
        let mut cx = Cx::default();
        let mut text = String::new();
        for (si, sec) in self.sections.iter().enumerate() {
            let total = cases(sec, thorough);
            let mut i = k;
            let mut done = 0u64;
            let mut cut = false;
            let start = Instant::now();
            while i < total {
                if done & 15 == 0 && Instant::now() > deadline { cut = true; break; }
                unsafe { shm.write_volatile(si as u64); shm.add(1).write_volatile(i + 1); }
                let mut src = Src::generate(self.seed_for(si, i), i).with_shm(unsafe { shm.add(2) }, cap - 2);
                src.thorough = thorough;
                cx.want_sample = done % 97 == k && cx.samples.len() < 6 + 3 * si;
                cx.evals += 1;
                done += 1;
                if let Err(f) = self.case(si, &mut src, &mut cx) {
                    let rec = std::mem::take(&mut src.rec);
                    let first = f.msg.clone();
                    let until = Instant::now() + Duration::from_secs(15);
                    let small = shrink(rec, 3000, until, |c| {
                        let mut s = Src::replay(c.to_vec());
                        let mut x = Cx::default();
                        match self.case(si, &mut s, &mut x) { Err(_) => Some(std::mem::take(&mut s.rec)), Ok(()) => None }
                    });
                    let mut s = Src::replay(small.clone());
                    let mut x = Cx::default();
                    x.notes_on = true;
                    let msg = match self.case(si, &mut s, &mut x) { Err(f) => f.msg, Ok(()) => format!("(not reproducible after shrinking) {}", first) };
                    let _ = writeln!(text, "F\t{}\t{}\t{}\t{}\t{}", si, i, join(&small), esc(&msg), esc(&x.note));
                    break;
                }
                i += n;
            }
            unsafe { shm.add(1).write_volatile(0); }
            let _ = writeln!(text, "D\t{}\t{}\t{}\t{}", si, done, cut as u8, start.elapsed().as_millis());
        }
        let _ = writeln!(text, "E\t{}", cx.evals);
        for (l, c) in &cx.labels { let _ = writeln!(text, "L\t{}\t{}", esc(l), c); }
        for s in &cx.samples { let _ = writeln!(text, "S\t{}", esc(s)); }
        text.push_str("OK\n");
        let mut keys = Vec::with_capacity(cx.keys.len() * 8);
        for h in &cx.keys { keys.extend_from_slice(&h.to_le_bytes()); }
        fs::write(out.with_extension("keys"), keys).unwrap();
        fs::write(&out, text).unwrap();
    }
    // Runs one recorded case in this process: exit 1 when it fails.
    fn one(&self, a: &[String]) -> i32 {
        sys::limit(sys::RLIMIT_AS, 12 << 30);
        let si: usize = a[0].parse().unwrap();
        let choices = split(&fs::read_to_string(&a[1]).unwrap());
        let (shm, cap) = open_shm(&a[2]);
        unsafe { shm.add(1).write_volatile(1); }
        watchdog(shm);
        let mut s = Src::replay(choices).with_shm(unsafe { shm.add(2) }, cap - 2);
        let mut cx = Cx::default();
        cx.notes_on = true;
        match self.case(si, &mut s, &mut cx) { Ok(()) => 0, Err(f) => { println!("{}\n{}", f.msg, cx.note); 1 } }
    }
    fn replay(&self, path: &str) -> i32 {
        let t = fs::read_to_string(path).expect("replay file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.to_string());
        let sec = get("section=").expect("section");
        let choices = split(&get("choices=").expect("choices"));
        let si = self.sections.iter().position(|s| s.name == sec).expect("unknown section");
        let mut s = Src::replay(choices);
        let mut cx = Cx::default();
        cx.notes_on = true;
        match self.case(si, &mut s, &mut cx) {
            Ok(()) => { println!("{}\nreplay passes: the property holds for this input", cx.note); 0 }
            Err(f) => { println!("{}\n{}", cx.note, f.msg); println!("VIOLATION property={} replay={}", self.id, path); 1 }
        }
    }

    // ---- parent ----
    fn parent(&self) -> i32 {
        let t0 = Instant::now();
        let root = root();
        let thorough = tier() == "thorough";
        let work = root.join("target").join(format!("run-{}-{}", self.id, std::process::id()));
        fs::create_dir_all(&work).unwrap();
        // (PBT_OTHER is the same check built in another way; every second worker runs it)
        let exe = std::env::current_exe().unwrap();
        let other = std::env::var("PBT_OTHER").map(PathBuf::from).unwrap_or_else(|_| exe.clone());
        let exe = |k: usize| if k % 2 == 1 { &other } else { &exe };
        let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).max(1);
        let limit: u64 = std::env::var("VERIF_TIME").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 });
        let mut kids = Vec::new();
        for k in 0..n {
            let out = work.join(format!("w{}.txt", k));
            let shm = work.join(format!("w{}.shm", k));
            mk_shm(&shm);
            let c = Command::new(exe(k)).arg("--worker").arg(k.to_string()).arg(n.to_string()).arg(&out).arg(&shm).arg(limit.to_string())
                .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("spawn worker");
            kids.push((k, c, out, shm));
        }
        let mut evals = 0u64;
        let mut keys: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples: Vec<String> = vec![];
        let mut fails: Vec<(usize, Vec<u64>, String, String)> = vec![];
        let mut errors: Vec<String> = vec![];
        let mut done: BTreeMap<usize, (u64, bool, u64)> = BTreeMap::new();
        for (k, c, out, shm) in kids {
            let o = c.wait_with_output().unwrap();
            let mut finished = false;
            if let Ok(t) = fs::read_to_string(&out) {
                for l in t.lines() {
                    let p: Vec<&str> = l.split('\t').collect();
                    match p[0] {
                        "F" => fails.push((p[1].parse().unwrap(), split(p[3]), unesc(p[4]), unesc(p[5]))),
                        "D" => { let e = done.entry(p[1].parse().unwrap()).or_default(); e.0 += p[2].parse::<u64>().unwrap(); e.1 |= p[3] == "1"; e.2 = e.2.max(p[4].parse().unwrap()); }
                        "E" => evals += p[1].parse::<u64>().unwrap(),
                        "L" => *labels.entry(unesc(p[1])).or_default() += p[2].parse::<u64>().unwrap(),
                        "S" => samples.push(unesc(p[1])),
                        "OK" => finished = true,
                        _ => {}
                    }
                }
                for c in fs::read(out.with_extension("keys")).unwrap_or_default().chunks_exact(8) { keys.insert(u64::from_le_bytes(c.try_into().unwrap())); }
            }
            if finished && o.status.success() { continue; }
            use std::os::unix::process::ExitStatusExt;
            let sig = o.status.signal();
            let (si, case, choices) = read_shm(&shm);
            let what = match (sig, o.status.code()) {
                (Some(s), _) if [4, 5, 6, 7, 8, 11].contains(&s) => format!("the process died of signal {} ({})", s, match s { 6 => "abort", 11 => "segmentation fault", 7 => "bus error", 4 => "illegal instruction", _ => "crash" }),
                (_, Some(77)) => format!("the operation did not finish within {:?}", hang()),
                _ => { errors.push(format!("worker {} ended with {:?}: {}", k, o.status, String::from_utf8_lossy(&o.stderr))); continue; }
            };
            if case == 0 { errors.push(format!("worker {} crashed outside a case: {} {}", k, what, String::from_utf8_lossy(&o.stderr))); continue; }
            let note = String::from_utf8_lossy(&o.stderr).trim().to_string();
            let run = |c: &[u64]| -> Option<Vec<u64>> {
                let f = work.join(format!("one{}.txt", k));
                let s = work.join(format!("one{}.shm", k));
                fs::write(&f, join(c)).unwrap();
                mk_shm(&s);
                let st = Command::new(exe(k)).arg("--one").arg(si.to_string()).arg(&f).arg(&s).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
                if st.signal().is_some() || st.code() == Some(1) { Some(read_shm(&s).2) } else { None }
            };
            let small = if sig.is_some() { shrink(choices, 250, Instant::now() + Duration::from_secs(25), run) } else { choices };
            fails.push((si, small, what, note));
        }
        let mut violations = 0;
        let known = known_findings(&root, self.id);
        let mut shown: HashSet<usize> = HashSet::new();
        fails.sort_by_key(|f| (f.0, f.1.len()));
        for (si, choices, msg, note) in &fails {
            if !shown.insert(*si) { continue; }
            violations += 1;
            let name = &self.sections[*si].name;
            let _ = fs::create_dir_all(root.join("replays"));
            let h = hash_str(7, &format!("{}{}{}", name, join(choices), msg));
            let path = root.join("replays").join(format!("{}-{:08x}.txt", self.id, h as u32));
            let body = format!("property={}\nsection={}\nseed={}\nchoices={}\nmessage={}\n{}\n# run again: ./check {} --replay {}\n", self.id, name, seed(), join(choices), msg.replace('\n', "\n  "), note.lines().map(|l| format!("detail: {}", l)).collect::<Vec<_>>().join("\n"), self.id, path.display());
            fs::write(&path, body).unwrap();
            println!("section {}: {}", name, msg);
            for l in note.lines() { println!("  {}", l); }
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        for (what, line) in &known { let _ = what; println!("KNOWN-FINDING: property={} {}", self.id, line); }
        samples.sort(); samples.dedup();
        let step = (samples.len() / 12).max(1);
        let samples: Vec<String> = samples.into_iter().step_by(step).take(14).collect();
        let mut j = String::new();
        let _ = write!(j, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"wall_s\": {:.2},\n \"violations\": {},\n", js(self.id), js(if thorough { "thorough" } else { "quick" }), seed_json(), js(self.level), t0.elapsed().as_secs_f64(), violations);
        let _ = write!(j, " \"assumptions\": [{}],\n", self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let _ = write!(j, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", evals, keys.len(), js(&self.rule));
        let _ = write!(j, "  \"sections\": {{{}}},\n", self.sections.iter().enumerate().map(|(i, s)| { let d = done.get(&i).cloned().unwrap_or_default(); format!("{}: {{\"cases\": {}, \"planned\": {}, \"cut_short\": {}, \"ms\": {}}}", js(&s.name), d.0, cases(s, thorough), d.1, d.2) }).collect::<Vec<_>>().join(", "));
        let _ = write!(j, "  \"labels\": {{{}}},\n", labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
        for (k, v) in &self.extra { let _ = write!(j, "  {}: {},\n", js(k), js(v)); }
        let _ = write!(j, "  \"samples\": [{}]\n }}\n}}\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
        let _ = fs::create_dir_all(root.join("evidence"));
        fs::write(root.join("evidence").join(format!("{}.json", self.id)), j).unwrap();
        let _ = fs::remove_dir_all(&work);
        for e in &errors { println!("error: {}", e); }
        println!("{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s", self.id, evals, keys.len(), violations, t0.elapsed().as_secs_f64());
        if violations > 0 { 1 } else if !errors.is_empty() { 3 } else { 0 }
    }
}

fn cases(s: &Section, thorough: bool) -> u64 {
    let m: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    ((if thorough { s.thorough } else { s.quick }) as f64 * m).ceil() as u64
}
pub fn root() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())) }
pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1) }
fn seed_json() -> i64 { seed() as i64 }
pub fn tier() -> String { std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()) }
/// Lines "finding: property=<id> ..." of the committed file.
fn known_findings(root: &Path, id: &str) -> Vec<(String, String)> {
    let t = fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let p = format!("finding: property={} ", id);
    t.lines().filter_map(|l| l.strip_prefix(&p)).map(|l| (String::new(), l.to_string())).collect()
}
fn watchdog(shm: *mut u64) {
    let p = shm as usize;
    std::thread::spawn(move || {
        let shm = p as *const u64;
        let mut last = (u64::MAX, u64::MAX);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = unsafe { (shm.read_volatile(), shm.add(1).read_volatile()) };
            if cur != last { last = cur; since = Instant::now(); }
            else if cur.1 != 0 && since.elapsed() > hang() { unsafe { sys::_exit(77) } }
        }
    });
}
fn mk_shm(p: &Path) { let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap(); f.set_len(SHM_WORDS as u64 * 8).unwrap(); }
fn open_shm(p: &str) -> (*mut u64, usize) { let f = fs::OpenOptions::new().read(true).write(true).open(p).unwrap(); (sys::map_shared(&f, SHM_WORDS * 8), SHM_WORDS) }
fn read_shm(p: &Path) -> (usize, u64, Vec<u64>) {
    let b = fs::read(p).unwrap_or_default();
    let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    if w.len() < 3 { return (0, 0, vec![]); }
    let n = (w[2] as usize).min(w.len() - 3);
    (w[0] as usize, w[1], w[3..3 + n].to_vec())
}
fn join(c: &[u64]) -> String { c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
fn split(s: &str) -> Vec<u64> { s.trim().split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect() }
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r") }
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() { if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'), Some(x) => o.push(x), None => {} } } else { o.push(c) } }
    o
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

/// Greedy reduction of a failing choice sequence. `test` returns the choices actually used if it still fails.
pub fn shrink(start: Vec<u64>, max: usize, until: Instant, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut left = max;
    fn better(a: &[u64], b: &[u64]) -> bool { a.len() < b.len() || (a.len() == b.len() && a < b) }
    macro_rules! attempt { ($c:expr) => {{
        if left == 0 || Instant::now() > until { return best; }
        left -= 1;
        let c: Vec<u64> = $c;
        match test(&c) {
            Some(mut used) => { while used.last() == Some(&0) { used.pop(); } let c2 = if better(&used, &c) { used } else { c }; if better(&c2, &best) { best = c2; true } else { false } }
            None => false,
        }
    }} }
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i >= size && !best.is_empty() {
                if i > best.len() { i = best.len(); if i < size { break; } }
                let mut c = best.clone();
                c.drain(i - size..i);
                if !attempt!(c) { i -= 1.max(size / 2); }
            }
            size /= 2;
        }
        // zero blocks
        let mut size = 8;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) { let mut c = best.clone(); for x in &mut c[i..e] { *x = 0; } attempt!(c); }
                i += size;
            }
            size /= 2;
        }
        // minimise single choices, also lowering a count together with deleting what follows
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let (mut lo, mut hi) = (0u64, v);
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() { break; }
                    c[i] = mid;
                    if attempt!(c) { hi = mid; if i >= best.len() { break; } hi = hi.min(best[i]); } else { lo = mid + 1; }
                    if left == 0 { return best; }
                }
                if i < best.len() && best[i] > 0 && i + 1 < best.len() {
                    let mut c = best.clone(); c[i] -= 1; c.remove(i + 1);
                    attempt!(c);
                }
            }
            i += 1;
        }
        if best == before { return best; }
    }
}
