//! Where harness inputs come from: symbolic under Kani, recorded or random natively.
pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn assume(&mut self, c: bool);
    /// Marks the point a harness must be able to reach (vacuity check).
    fn reached(&mut self);
    /// In 0..n.
    fn below(&mut self, n: u8) -> u8 {
        let x = self.u8();
        self.assume(x < n);
        x
    }
    /// In lo..=hi.
    fn in_u8(&mut self, lo: u8, hi: u8) -> u8 {
        let x = self.u8();
        self.assume(lo <= x && x <= hi);
        x
    }
    fn in_u16(&mut self, lo: u16, hi: u16) -> u16 {
        let x = self.u16();
        self.assume(lo <= x && x <= hi);
        x
    }
    fn in_u32(&mut self, lo: u32, hi: u32) -> u32 {
        let x = self.u32();
        self.assume(lo <= x && x <= hi);
        x
    }
    /// In lo..=hi.
    fn in_i32(&mut self, lo: i64, hi: i64) -> i32 {
        let x = self.i32();
        self.assume(lo <= x as i64 && x as i64 <= hi);
        x
    }
    /// `f` must not return.
    fn must_panic(&mut self, f: impl FnOnce());
    fn i8(&mut self) -> i8 { self.u8() as i8 }
    fn i16(&mut self) -> i16 { self.u16() as i16 }
    fn i32(&mut self) -> i32 { self.u32() as i32 }
    fn i64(&mut self) -> i64 { self.u64() as i64 }
    fn f32(&mut self) -> f32 { f32::from_bits(self.u32()) }
    fn bool(&mut self) -> bool { self.below(2) == 1 }
}

#[cfg(kani)]
pub struct KaniSrc;

#[cfg(kani)]
impl Src for KaniSrc {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn assume(&mut self, c: bool) { kani::assume(c) }
    fn reached(&mut self) { kani::cover!(true, "reached"); }
    fn must_panic(&mut self, f: impl FnOnce()) {
        f();
        kani::cover!(true, "must_not_reach");
    }
}

pub struct Discard;

/// xorshift*, seeded.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { (self.next() >> 11) % n } }
}

pub struct NativeSrc {
    pub rng: Rng,
    pub replay: Option<std::collections::VecDeque<Vec<u8>>>,
    pub log: Vec<Vec<u8>>,
    pub reached: u64,
}

impl NativeSrc {
    pub fn new(seed: u64) -> Self {
        let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        for _ in 0..8 { rng.next(); }
        Self { rng, replay: None, log: vec![], reached: 0 }
    }
    fn draw(&mut self, w: usize) -> u64 {
        let v = match self.replay.as_mut() {
            Some(q) => {
                let b = q.pop_front().unwrap_or_default();
                let mut v = 0u64;
                for (i, x) in b.iter().take(w).enumerate() { v |= (*x as u64) << (8 * i); }
                v
            }
            None => {
                let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
                let bits = 8 * w as u32;
                let r = self.rng.next();
                match self.rng.below(8) {
                    0 => self.rng.below(20),
                    1 => 0u64.wrapping_sub(self.rng.below(20)),
                    2 => (1u64 << (bits - 1)).wrapping_add(self.rng.below(9)).wrapping_sub(4),
                    3 => { let k = self.rng.below(bits as u64); (1u64 << k).wrapping_add(self.rng.below(5)).wrapping_sub(2) }
                    4 => self.rng.below(2100),
                    5 => 0u64.wrapping_sub(self.rng.below(2100)),
                    6 => r >> self.rng.below(bits as u64),
                    _ => r,
                }.to_owned() & mask
            }
        };
        self.log.push(v.to_le_bytes()[..w].to_vec());
        v
    }
    fn ranged(&mut self, w: usize, lo: i64, hi: i64) -> i64 {
        if self.replay.is_some() {
            let v = self.draw(w);
            let v = if lo < 0 { v as u32 as i32 as i64 } else { v as i64 };
            self.assume(lo <= v && v <= hi);
            return v;
        }
        let n = (hi - lo + 1) as u64;
        let v = match self.rng.below(6) {
            0 => lo + self.rng.below(n.min(6)) as i64,
            1 => hi - self.rng.below(n.min(6)) as i64,
            2 => { let k = self.rng.below(64); let r = self.rng.next() >> k; (lo + (r % n) as i64).min(hi) }
            3 if lo <= 0 && 0 <= hi => (self.rng.below(2100) as i64 - 1050).clamp(lo, hi),
            _ => lo + self.rng.below(n) as i64,
        };
        self.log.push((v as u64).to_le_bytes()[..w].to_vec());
        v
    }
}

impl Src for NativeSrc {
    fn u8(&mut self) -> u8 { self.draw(1) as u8 }
    fn u16(&mut self) -> u16 { self.draw(2) as u16 }
    fn u32(&mut self) -> u32 { self.draw(4) as u32 }
    fn u64(&mut self) -> u64 { self.draw(8) }
    fn assume(&mut self, c: bool) { if !c { std::panic::panic_any(Discard) } }
    fn reached(&mut self) { self.reached += 1; }
    fn must_panic(&mut self, f: impl FnOnce()) {
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok() { panic!("accepted what must be rejected") }
    }
    fn below(&mut self, n: u8) -> u8 { self.ranged(1, 0, n as i64 - 1) as u8 }
    fn in_u8(&mut self, lo: u8, hi: u8) -> u8 { self.ranged(1, lo as i64, hi as i64) as u8 }
    fn in_u16(&mut self, lo: u16, hi: u16) -> u16 { self.ranged(2, lo as i64, hi as i64) as u16 }
    fn in_u32(&mut self, lo: u32, hi: u32) -> u32 { self.ranged(4, lo as i64, hi as i64) as u32 }
    fn in_i32(&mut self, lo: i64, hi: i64) -> i32 {
        let (lo, hi) = (lo.max(i32::MIN as i64), hi.min(i32::MAX as i64));
        self.assume(lo <= hi);
        self.ranged(4, lo, hi) as i32
    }
}
