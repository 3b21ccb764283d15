//! Executable reference models.
//!
//! Each is the published rule evaluated from scratch on the bytes of the open chunk (zstd: of the
//! whole stream): no rolling update, no window removal, no carried offset.  zpaq is the exception:
//! its hash is defined by recursion over the chunk.
use crate::cfg::*;
use crate::tables;

#[derive(Clone)]
pub struct Model {
    cfg: Cfg,
    /// bytes of the open chunk (zstd: of the stream)
    h: Vec<u8>,
    /// prefix sums of `h` (gzip, bup), prefix combination of rotated table values (buzhash)
    pre: Vec<u64>,
    /// prefix sums of position times byte (bup)
    pre2: Vec<u64>,
    ram_max: u8,
    zp_hash: u32,
    zp_last: u8,
    zp_pred: Box<[u8; 256]>,
    bt: [u32; 256],
    g64: &'static [u64; 256],
    /// FastCDC incremental flavour: the boundary lies before the byte that decides it
    before: bool,
}

pub const MASK_S: u64 = 0x0003590703530000;
pub const MASK_L: u64 = 0x0000d90003530000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
    No,
    After,
    /// boundary before the byte just offered; the byte opens the next chunk
    Before,
}

pub fn buz_hash(table: &BuzTable, b: u8) -> u32 {
    match table {
        BuzTable::Go | BuzTable::Hook => tables::GO[b as usize],
        BuzTable::Salt(s) => tables::GO[(b ^ *s) as usize],
        BuzTable::Borg(s) => tables::BORG[b as usize] ^ s,
        BuzTable::SaltOn(s, c) => own32(*c)[(b ^ *s) as usize],
        BuzTable::Own(c) | BuzTable::Ref(c) => own32(*c)[b as usize],
    }
}
impl Model {
    pub fn new(cfg: &Cfg, push: bool) -> Model {
        let cfg = cfg.resolved();
        let mut bt = [0u32; 256];
        let mut g64 = gear64(255);
        match &cfg {
            Cfg::Buz { table, .. } => {
                for (i, v) in bt.iter_mut().enumerate() {
                    *v = buz_hash(table, i as u8);
                }
            }
            Cfg::Fast { gear, .. } => g64 = gear64(*gear),
            _ => {}
        }
        let before = push && cfg.algo() == Algo::Fast;
        Model {
            cfg,
            h: vec![],
            pre: vec![0],
            pre2: vec![0],
            ram_max: 0,
            zp_hash: 0,
            zp_last: 0,
            zp_pred: Box::new([0; 256]),
            bt,
            g64,
            before,
        }
    }
    fn clear(&mut self) {
        if self.cfg.algo() != Algo::Zstd {
            self.h.clear();
            self.pre.clear();
            self.pre.push(0);
            self.pre2.clear();
            self.pre2.push(0);
        }
        self.ram_max = 0;
        self.zp_hash = 0;
        self.zp_last = 0;
        *self.zp_pred = [0; 256];
    }
    /// What would offering `b` do?
    pub fn peek(&self, b: u8) -> Cut {
        let n = self.h.len() + 1; // chunk length including b
        let h = &self.h;
        // age 0 is b itself
        let at = |age: usize| -> u8 {
            if age == 0 {
                b
            } else {
                h[n - 1 - age]
            }
        };
        let hit = |c: bool| if c { Cut::After } else { Cut::No };
        match &self.cfg {
            Cfg::Bup { w } => {
                // s2 = sum over the window (zero filled at the start of a chunk) of
                // weight * (byte + 31), weights 1 (newest) .. w (oldest), plus a constant
                // the weight of the byte at position i is n - i; the offsets add up to the constant
                let lo = n.saturating_sub(*w).min(n - 1);
                let sum = (self.pre[n - 1] - self.pre[lo]).wrapping_add(b as u64);
                let pos = (self.pre2[n - 1] - self.pre2[lo]).wrapping_add((n as u64 - 1).wrapping_mul(b as u64));
                let w = *w as u64;
                let s2 = (n as u64).wrapping_mul(sum).wrapping_sub(pos).wrapping_add(w.wrapping_mul(w.wrapping_sub(1)).wrapping_mul(31));
                hit(s2 & 0x1fff == 0x1fff)
            }
            Cfg::Gzip { w, m } => {
                let lo = n.saturating_sub(*w);
                let s = self.pre[n - 1] - self.pre[lo.min(n - 1)] + b as u64;
                hit(s % m == 0)
            }
            Cfg::Pigz { bits } => {
                let bits = *bits as u32;
                let mask = ((1u64 << bits) - 1) as u32;
                let start = mask >> 1;
                let mut v = if (n as u32) < bits { start << n } else { 0 };
                for age in 0..n.min(bits as usize) {
                    v ^= (at(age) as u32) << age;
                }
                hit(v & mask == start)
            }
            Cfg::Gear { log2 } => {
                let mut fp = 0u32;
                for age in 0..n.min(32) {
                    fp = fp.wrapping_add(((tables::GEAR[at(age) as usize] >> 32) as u32) << age);
                }
                hit(fp >> (32 - *log2 as u32) == 0)
            }
            Cfg::Buz { k, mask, max, .. } => {
                // bytes rotated right by their position, the window as a whole rotated left
                let lo = n.saturating_sub(*k).min(n - 1);
                let x = (self.pre[n - 1] ^ self.pre[lo]) as u32 ^ self.bt[b as usize].rotate_right((n as u32 - 1) % 32);
                let v = x.rotate_left((n as u32 - 1) % 32);
                hit(v & mask == *mask || n as u64 > *max)
            }
            Cfg::Zstd { size } => {
                if n <= 32 {
                    return Cut::No;
                }
                let mb = size >> 20;
                let bits = 63 - mb.leading_zeros() + 20;
                let mask = (1u64 << bits) - 1;
                let mut v = 0u64;
                for age in (0..32).rev() {
                    v = v.wrapping_mul(0xCF1BBCDCB7A56463).wrapping_add(at(age) as u64 + 10);
                }
                hit(v & mask == mask)
            }
            Cfg::Fast { min, norm, max, .. } => {
                let min = (*min).max(1);
                let i = n as u64 - 1; // index of b in the chunk
                let mut fp = 0u64;
                if i >= min {
                    for age in 0..64u64 {
                        if i < age + min {
                            break;
                        }
                        fp = fp.wrapping_add(self.g64[at(age as usize) as usize] << age);
                    }
                    let mask = if i < *norm { MASK_S } else { MASK_L };
                    if fp & mask == 0 {
                        return if self.before { Cut::Before } else { Cut::After };
                    }
                }
                hit(n as u64 >= *max)
            }
            Cfg::Ram { w } => hit(n as u64 - 1 > *w && b >= self.ram_max),
            Cfg::Mii { w } => {
                let w = *w as usize;
                if n <= w {
                    return Cut::No;
                }
                hit((0..w).all(|a| at(a) > at(a + 1)))
            }
            Cfg::ZpaqAvg { p, .. } => {
                let mul: u32 = if b == self.zp_pred[self.zp_last as usize] { 314159265 } else { 271828182 };
                let v = self.zp_hash.wrapping_add(b as u32 + 1).wrapping_mul(mul);
                let p = *p;
                let thr = 1u64 << (32 - p as u32);
                let (lo, hi) = self.cfg.limits();
                let n = n as u64;
                hit(((v as u64) < thr && n >= lo.unwrap_or(0)) || n >= hi.unwrap_or(u64::MAX))
            }
            _ => unreachable!(),
        }
    }
    /// zpaq: the hash, the previous byte and the predictions.
    pub fn zpaq(&self) -> (u32, u8, &[u8; 256]) {
        (self.zp_hash, self.zp_last, &self.zp_pred)
    }
    /// What the chunker keeps of the open chunk to hash with, as a number.
    pub fn digest(&self) -> u64 {
        let (h, n) = (&self.h, self.h.len());
        let at = |age: usize| h[n - 1 - age];
        match &self.cfg {
            Cfg::Bup { w } => {
                let lo = n.saturating_sub(*w);
                let sum = self.pre[n] - self.pre[lo];
                let pos = self.pre2[n] - self.pre2[lo];
                (n as u64).wrapping_mul(sum).wrapping_sub(pos) & 0xffff_ffff | sum << 32
            }
            Cfg::Gzip { w, .. } => self.pre[n] - self.pre[n.saturating_sub(*w)],
            Cfg::Pigz { bits } => (0..n.min(*bits as usize)).fold(0, |v, a| v ^ (at(a) as u64) << a) & ((1 << *bits) - 1),
            Cfg::Gear { .. } => (0..n.min(32)).fold(0u32, |v, a| v.wrapping_add(((tables::GEAR[at(a) as usize] >> 32) as u32) << a)) as u64,
            Cfg::Buz { k, .. } => {
                let x = (self.pre[n] ^ self.pre[n.saturating_sub(*k)]) as u32;
                x.rotate_left((n as u32).wrapping_sub(1) % 32) as u64
            }
            Cfg::Zstd { .. } => (0..n.min(32)).rev().fold(0u64, |v, a| v.wrapping_mul(0xCF1BBCDCB7A56463).wrapping_add(at(a) as u64 + 10)),
            Cfg::Fast { min, .. } => {
                let k = n.saturating_sub((*min).max(1) as usize).min(64);
                (0..k).fold(0u64, |v, a| v.wrapping_add(self.g64[at(a) as usize] << a))
            }
            Cfg::ZpaqAvg { .. } => self.zp_hash as u64,
            Cfg::Ram { .. } => self.ram_max as u64,
            _ => (1..n).take_while(|i| at(i - 1) > at(*i)).count() as u64,
        }
    }
    pub fn step(&mut self, b: u8) -> Cut {
        let c = self.peek(b);
        match c {
            Cut::After if self.cfg.algo() != Algo::Zstd => self.clear(),
            Cut::Before => {
                self.clear();
                self.add(b);
            }
            _ => self.add(b),
        }
        c
    }
    fn add(&mut self, b: u8) {
        match &self.cfg {
            Cfg::Gzip { .. } => {
                let l = *self.pre.last().unwrap();
                self.pre.push(l + b as u64);
            }
            Cfg::Bup { .. } => {
                let l = *self.pre.last().unwrap();
                self.pre.push(l + b as u64);
                let l = *self.pre2.last().unwrap();
                self.pre2.push(l + self.h.len() as u64 * b as u64);
            }
            Cfg::Buz { .. } => {
                let l = *self.pre.last().unwrap();
                self.pre.push(l ^ self.bt[b as usize].rotate_right(self.h.len() as u32 % 32) as u64);
            }
            Cfg::Ram { .. } => self.ram_max = self.ram_max.max(b),
            Cfg::ZpaqAvg { .. } => {
                let mul: u32 = if b == self.zp_pred[self.zp_last as usize] { 314159265 } else { 271828182 };
                self.zp_hash = self.zp_hash.wrapping_add(b as u32 + 1).wrapping_mul(mul);
                self.zp_pred[self.zp_last as usize] = b;
                self.zp_last = b;
            }
            _ => {}
        }
        self.h.push(b);
    }
}

/// Boundaries of a whole stream.
pub fn cuts(cfg: &Cfg, push: bool, data: &[u8]) -> Vec<usize> {
    let mut m = Model::new(cfg, push);
    let mut out = vec![];
    for (i, &b) in data.iter().enumerate() {
        match m.step(b) {
            Cut::No => {}
            Cut::After => out.push(i + 1),
            Cut::Before => out.push(i),
        }
    }
    out
}

/// bup digest of the last `w` bytes (zero filled) of everything rolled in.
pub fn bup_digest(w: usize, rolled: &[u8]) -> u32 {
    let n = rolled.len();
    let (mut s1, mut u) = (0u32, 0u32);
    for age in 0..w {
        let v = if age < n { rolled[n - 1 - age] as u32 } else { 0 } + 31;
        s1 = s1.wrapping_add(v);
        u = u.wrapping_add((age as u32 + 1).wrapping_mul(v));
    }
    let ww = w as u32;
    let s2 = u
        .wrapping_add(ww.wrapping_mul(ww.wrapping_sub(1)).wrapping_mul(31))
        .wrapping_sub((w as u64 * (w as u64 + 1) / 2 * 31) as u32);
    (s1 << 16) | (s2 & 0xffff)
}
