//! The source of all generated values: a recorded sequence of bounded integers.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x5851F42D4C957F2D); r.next(); r }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
}

pub struct Src {
    pub rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    shm: *mut u64,
    shm_cap: usize,
    /// Number of this case within its section (generation only; use `cycle`).
    case: u64,
    /// How many elements containers may still produce at this nesting level.
    pub budget: usize,
    pub thorough: bool,
}

impl Src {
    pub fn generate(seed: u64, case: u64) -> Self {
        Src { rng: Rng::new(seed), replay: None, pos: 0, rec: Vec::new(), shm: std::ptr::null_mut(), shm_cap: 0, case, budget: 8, thorough: false }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: Rng::new(0), replay: Some(choices), pos: 0, rec: Vec::new(), shm: std::ptr::null_mut(), shm_cap: 0, case: 0, budget: 8, thorough: false }
    }
    /// Mirror the choices into shared memory: `p[0]` is the count, the choices follow.
    pub fn with_shm(mut self, p: *mut u64, cap: usize) -> Self {
        self.shm = p;
        self.shm_cap = cap;
        if !p.is_null() { unsafe { p.write_volatile(0) } }
        self
    }
    /// The primitive: a number in `0..=max`; `f` picks it when generating.
    #[inline]
    pub fn draw(&mut self, max: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match self.replay {
            Some(ref c) => { let v = c.get(self.pos).copied().unwrap_or(0); self.pos += 1; v.min(max) }
            None => f(&mut self.rng).min(max),
        };
        if !self.shm.is_null() {
            let n = self.rec.len();
            if n + 1 < self.shm_cap {
                unsafe { self.shm.add(n + 1).write_volatile(v); self.shm.write_volatile(n as u64 + 1); }
            }
        }
        self.rec.push(v);
        v
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 { self.draw(n.saturating_sub(1), |r| r.below(n)) }
    #[inline]
    pub fn usize_below(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Inclusive range; shrinks to `lo`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.draw(hi - lo, |r| if hi - lo == u64::MAX { r.next() } else { r.below(hi - lo + 1) }) }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(1, |r| r.chance(num, den) as u64) == 1 }
    pub fn bool(&mut self) -> bool { self.chance(1, 2) }
    pub fn pick<'x, T>(&mut self, items: &'x [T]) -> &'x T { let i = self.usize_below(items.len()); &items[i] }
    /// Cycles deterministically over `0..n` with the case number, so that every item gets its share.
    pub fn cycle(&mut self, n: usize) -> usize { let c = self.case; self.draw(n as u64 - 1, |_| c % n as u64) as usize }
    /// An integer of the given width, biased to boundaries.
    pub fn int(&mut self, bits: u32) -> u64 {
        let max = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        self.draw(max, |r| {
            let v = match r.below(8) {
                0 => r.below(4),
                1 => r.below(256),
                2 => { let b = r.below(bits as u64 + 1); (if b >= 64 { 0 } else { 1u64 << b }).wrapping_add(r.below(3)).wrapping_sub(1) }
                3 => max.wrapping_sub(r.below(3)),
                4 => (max >> 1).wrapping_add(r.below(3)).wrapping_sub(1),
                5 => { let b = r.below(bits as u64) + 1; r.next() & (if b >= 64 { u64::MAX } else { (1u64 << b) - 1 }) }
                _ => r.next(),
            };
            v & max
        })
    }
    pub fn u128(&mut self) -> u128 { let h = self.int(64) as u128; let l = self.int(64) as u128; (h << 64) | l }
    /// A length within the current element budget.
    pub fn len(&mut self) -> usize {
        let b = self.budget as u64;
        self.draw(b, |r| match r.below(8) {
            0 => 0,
            1 => 1,
            2 | 3 => r.below(b.min(4) + 1),
            4 => b,
            _ => r.below(b + 1),
        }) as usize
    }
    /// Runs `f` with the budget divided among `n` elements.
    pub fn nested<R>(&mut self, n: usize, f: impl FnOnce(&mut Self) -> R) -> R {
        let old = self.budget;
        self.budget = if n <= 1 { old.saturating_sub(old / 4).saturating_sub(1) } else { old / n };
        let r = f(self);
        self.budget = old;
        r
    }
    /// Chooses how big this case's containers may get.
    pub fn scale(&mut self) {
        let b = self.draw(20000, |r| match r.below(32) { 0 => 9000 + r.below(11001), 1 | 2 => 300 + r.below(3000), 3..=10 => 20 + r.below(60), _ => 1 + r.below(10) });
        self.budget = b as usize;
    }
    pub fn scale_small(&mut self) { let b = self.draw(64, |r| if r.below(6) == 0 { r.below(65) } else { r.below(9) }); self.budget = b as usize; }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            let w = self.draw(u64::MAX, |r| match r.below(12) { 0 => 0, 1 => u64::MAX, 2 => r.next() & 0x0101010101010101, _ => r.next() });
            v.extend_from_slice(&w.to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn is_replay(&self) -> bool { self.replay.is_some() }
}
