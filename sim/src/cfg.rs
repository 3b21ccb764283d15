//! Chunker configurations: generation, textual form, and the facts about them the oracles use.
use crate::rng::Rng;
use std::ops::Bound;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Inc(u64),
    Exc(u64),
    Un,
}
impl B {
    pub fn bound(self) -> Bound<u64> {
        match self {
            B::Inc(v) => Bound::Included(v),
            B::Exc(v) => Bound::Excluded(v),
            B::Un => Bound::Unbounded,
        }
    }
    fn ser(self) -> String {
        match self {
            B::Inc(v) => format!("i{}", v),
            B::Exc(v) => format!("e{}", v),
            B::Un => "u".into(),
        }
    }
    fn parse(s: &str) -> B {
        match &s[..1] {
            "i" => B::Inc(s[1..].parse().unwrap()),
            "e" => B::Exc(s[1..].parse().unwrap()),
            _ => B::Un,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BuzTable {
    /// shared reference to the crate's table
    Go,
    /// crate's table with a salt
    Salt(u8),
    /// another table with a salt
    SaltOn(u8, u8),
    /// shared reference to a table filled from a seed
    Ref(u8),
    /// owned table filled from a seed
    Own(u8),
    /// borg's table, seeded
    Borg(u32),
    /// user callback (crate's table behind a hook the simulator owns)
    Hook,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cfg {
    BupDefault,
    Bup { w: usize },
    GzipDefault,
    Gzip { w: usize, m: u64 },
    PigzDefault,
    Pigz { bits: u8 },
    GearDefault,
    Gear { log2: usize },
    BuzNom { salt: u8 },
    Buz { k: usize, mask: u32, table: BuzTable, max: u64 },
    ZstdDefault,
    Zstd { size: u64 },
    FastDefault,
    /// gear: 255 = the crate's table; otherwise a seeded table of the given density class
    Fast { min: u64, norm: u64, max: u64, gear: u8 },
    Ram { w: u64 },
    MiiDefault,
    Mii { w: u64 },
    ZpaqDefault,
    ZpaqPow { p: u8 },
    ZpaqAvg { p: u8, lo: B, hi: B },
    ZpaqRange { lo: B, hi: B },
    ZpaqMax { max: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Algo {
    Bup,
    Gzip,
    Pigz,
    Gear,
    Buz,
    Zstd,
    Fast,
    Ram,
    Mii,
    Zpaq,
}
pub const ALGOS: [Algo; 10] = [
    Algo::Bup, Algo::Gzip, Algo::Pigz, Algo::Gear, Algo::Buz, Algo::Zstd, Algo::Fast, Algo::Ram, Algo::Mii, Algo::Zpaq,
];

impl Cfg {
    pub fn algo(&self) -> Algo {
        use Cfg::*;
        match self {
            BupDefault | Bup { .. } => Algo::Bup,
            GzipDefault | Gzip { .. } => Algo::Gzip,
            PigzDefault | Pigz { .. } => Algo::Pigz,
            GearDefault | Gear { .. } => Algo::Gear,
            BuzNom { .. } | Buz { .. } => Algo::Buz,
            ZstdDefault | Zstd { .. } => Algo::Zstd,
            FastDefault | Fast { .. } => Algo::Fast,
            Ram { .. } => Algo::Ram,
            MiiDefault | Mii { .. } => Algo::Mii,
            ZpaqDefault | ZpaqPow { .. } | ZpaqAvg { .. } | ZpaqRange { .. } | ZpaqMax { .. } => Algo::Zpaq,
        }
    }
    pub fn is_default(&self) -> bool {
        use Cfg::*;
        matches!(self, BupDefault | GzipDefault | PigzDefault | GearDefault | ZstdDefault | FastDefault | MiiDefault | ZpaqDefault)
    }
    /// Defaults spelled out, as documented.
    pub fn resolved(&self) -> Cfg {
        use Cfg::*;
        match self.clone() {
            BupDefault => Bup { w: 64 },
            GzipDefault => Gzip { w: 8192, m: 4096 },
            PigzDefault => Pigz { bits: 12 },
            GearDefault => Gear { log2: 13 },
            BuzNom { salt } => Buz { k: 67, mask: (1 << 12) - 1, table: BuzTable::Salt(salt), max: 1 << 24 },
            ZstdDefault => Zstd { size: 8 << 20 },
            FastDefault => Fast { min: 2048, norm: 8192, max: 65536, gear: 255 },
            MiiDefault => Mii { w: 5 },
            ZpaqDefault => ZpaqPow { p: 16 }.resolved(),
            ZpaqPow { p } => ZpaqAvg { p, lo: B::Inc(64 << (p - 10)), hi: B::Inc(8128 << (p - 10)) },
            // average: a quarter of the maximum (sixteen times the minimum where there is none)
            ZpaqRange { lo, hi } => {
                let max = match (lo, hi) {
                    (_, B::Inc(h)) => h,
                    (_, B::Exc(h)) => h - 1,
                    (B::Inc(l), _) => 64 * l,
                    (B::Exc(l), _) => 64 * (l + 1),
                    _ => 4 << 16,
                };
                ZpaqAvg { p: (max / 4).ilog2() as u8, lo, hi }
            }
            ZpaqMax { max } => ZpaqAvg { p: (max / 4).ilog2() as u8, lo: B::Inc(max / 64), hi: B::Inc(max) },
            o => o,
        }
    }
    /// The same chunker with every parameter given explicitly.
    pub fn twin(&self) -> Cfg {
        match self.resolved() {
            // documented: sections aim at the largest power of two not above the target
            Cfg::Zstd { size } => Cfg::Zstd { size: 1 << size.ilog2() },
            o => o,
        }
    }
    /// Bytes of the caller's buffer the search interface may ask to keep.
    pub fn carry(&self) -> usize {
        match self.resolved() {
            Cfg::Bup { w } => w,
            Cfg::Gzip { w, .. } => w,
            Cfg::Buz { k, .. } => k,
            Cfg::Zstd { .. } => 32,
            _ => 0,
        }
    }
    /// Number of trailing bytes of the open chunk that decide a boundary, for windowed chunkers.
    pub fn window(&self) -> Option<usize> {
        match self.resolved() {
            Cfg::Bup { w } => Some(w),
            Cfg::Gzip { w, .. } => Some(w),
            Cfg::Pigz { bits } => Some(bits as usize),
            Cfg::Gear { .. } => Some(32),
            Cfg::Buz { k, .. } => Some(k),
            Cfg::Zstd { .. } => Some(32),
            Cfg::Mii { w } => Some((w as usize).saturating_add(1)),
            _ => None,
        }
    }
    /// A length scale around which delivery sizes are interesting.
    pub fn scale(&self) -> usize {
        let s = match self.resolved() {
            Cfg::Fast { min, .. } => min as usize,
            Cfg::Ram { w } => w as usize,
            Cfg::ZpaqAvg { lo, .. } => match lo {
                B::Inc(v) | B::Exc(v) => v as usize,
                B::Un => 16,
            },
            o => o.window().unwrap_or(16),
        };
        // (what no stream reaches is no scale)
        if s > 1 << 21 {
            64
        } else {
            s
        }
    }
    /// (min, max) length of a completed chunk, as configured; None where there is no limit.
    pub fn limits(&self) -> (Option<u64>, Option<u64>) {
        fn lo(b: B) -> Option<u64> {
            match b {
                B::Inc(v) => Some(v),
                B::Exc(v) => Some(v.saturating_add(1)),
                B::Un => None,
            }
        }
        fn hi(b: B) -> Option<u64> {
            match b {
                B::Inc(v) => Some(v),
                B::Exc(v) => Some(v - 1),
                B::Un => None,
            }
        }
        match self.resolved() {
            Cfg::Fast { min, max, .. } => (Some(min), Some(max)),
            Cfg::Ram { w } => (Some(w), None),
            Cfg::Buz { max, .. } => (None, Some(max.saturating_add(1))),
            Cfg::ZpaqAvg { lo: l, hi: h, .. } => (lo(l), hi(h)),
            _ => (None, None),
        }
    }
    /// May a boundary be reported only with the byte after it?
    pub fn lag(&self, push: bool) -> usize {
        match self.resolved() {
            Cfg::Fast { .. } if push => 1,
            _ => 0,
        }
    }
    pub fn ser(&self) -> String {
        use Cfg::*;
        match self {
            BupDefault => "bup-default".into(),
            Bup { w } => format!("bup {}", w),
            GzipDefault => "gzip-default".into(),
            Gzip { w, m } => format!("gzip {} {}", w, m),
            PigzDefault => "pigz-default".into(),
            Pigz { bits } => format!("pigz {}", bits),
            GearDefault => "gear-default".into(),
            Gear { log2 } => format!("gear {}", log2),
            BuzNom { salt } => format!("buz-nom {}", salt),
            Buz { k, mask, table, max } => format!(
                "buz {} {} {} {}",
                k,
                mask,
                match table {
                    BuzTable::Go => "go".to_string(),
                    BuzTable::Salt(s) => format!("salt{}", s),
                    BuzTable::SaltOn(s, c) => format!("salt{}on{}", s, c),
                    BuzTable::Ref(c) => format!("ref{}", c),
                    BuzTable::Own(s) => format!("own{}", s),
                    BuzTable::Borg(s) => format!("borg{}", s),
                    BuzTable::Hook => "hook".to_string(),
                },
                max
            ),
            ZstdDefault => "zstd-default".into(),
            Zstd { size } => format!("zstd {}", size),
            FastDefault => "fastcdc-default".into(),
            Fast { min, norm, max, gear } => format!("fastcdc {} {} {} {}", min, norm, max, gear),
            Ram { w } => format!("ram {}", w),
            MiiDefault => "mii-default".into(),
            Mii { w } => format!("mii {}", w),
            ZpaqDefault => "zpaq-default".into(),
            ZpaqPow { p } => format!("zpaq-pow {}", p),
            ZpaqAvg { p, lo, hi } => format!("zpaq-avg {} {} {}", p, lo.ser(), hi.ser()),
            ZpaqRange { lo, hi } => format!("zpaq-range {} {}", lo.ser(), hi.ser()),
            ZpaqMax { max } => format!("zpaq-max {}", max),
        }
    }
    pub fn parse(s: &str) -> Cfg {
        use Cfg::*;
        let t: Vec<&str> = s.split_whitespace().collect();
        let n = |i: usize| -> u64 { t[i].parse().unwrap() };
        match t[0] {
            "bup-default" => BupDefault,
            "bup" => Bup { w: n(1) as usize },
            "gzip-default" => GzipDefault,
            "gzip" => Gzip { w: n(1) as usize, m: n(2) },
            "pigz-default" => PigzDefault,
            "pigz" => Pigz { bits: n(1) as u8 },
            "gear-default" => GearDefault,
            "gear" => Gear { log2: n(1) as usize },
            "buz-nom" => BuzNom { salt: n(1) as u8 },
            "buz" => Buz {
                k: n(1) as usize,
                mask: n(2) as u32,
                table: if t[3] == "go" {
                    BuzTable::Go
                } else if t[3] == "hook" {
                    BuzTable::Hook
                } else if let Some(x) = t[3].strip_prefix("salt") {
                    match x.split_once("on") {
                        Some((s, c)) => BuzTable::SaltOn(s.parse().unwrap(), c.parse().unwrap()),
                        None => BuzTable::Salt(x.parse().unwrap()),
                    }
                } else if let Some(x) = t[3].strip_prefix("ref") {
                    BuzTable::Ref(x.parse().unwrap())
                } else if let Some(x) = t[3].strip_prefix("borg") {
                    BuzTable::Borg(x.parse().unwrap())
                } else {
                    BuzTable::Own(t[3][3..].parse().unwrap())
                },
                max: n(4),
            },
            "zstd-default" => ZstdDefault,
            "zstd" => Zstd { size: n(1) },
            "fastcdc-default" => FastDefault,
            "fastcdc" => Fast { min: n(1), norm: n(2), max: n(3), gear: n(4) as u8 },
            "ram" => Ram { w: n(1) },
            "mii-default" => MiiDefault,
            "mii" => Mii { w: n(1) },
            "zpaq-default" => ZpaqDefault,
            "zpaq-pow" => ZpaqPow { p: n(1) as u8 },
            "zpaq-avg" => ZpaqAvg { p: n(1) as u8, lo: B::parse(t[2]), hi: B::parse(t[3]) },
            "zpaq-range" => ZpaqRange { lo: B::parse(t[1]), hi: B::parse(t[2]) },
            "zpaq-max" => ZpaqMax { max: n(1) },
            x => panic!("bad cfg {}", x),
        }
    }
}

pub const NTABLES: usize = 12;
/// Seeded 64-bit gear tables, and from NTABLES on near misses of these; higher classes have fewer bits, hence more frequent matches.
pub fn gear64(class: u8) -> &'static [u64; 256] {
    use std::sync::OnceLock;
    static T: [OnceLock<Box<[u64; 256]>>; 255] = [const { OnceLock::new() }; 255];
    if class == 255 {
        return &crate::tables::GEAR;
    }
    T[class as usize].get_or_init(|| {
        let base = class % NTABLES as u8;
        if base != class {
            // nearly the same as another
            let mut t = Box::new(*gear64(if base == NTABLES as u8 - 1 { 255 } else { base }));
            let mut r = Rng::new(class as u64);
            let i = r.pick(&[0, 127, 128, 254, 255, class as usize]);
            match class as usize / NTABLES % 5 {
                0 => t[i] = r.u64(),
                1 => t[128..].iter_mut().for_each(|v| *v = r.u64()),
                2 => t.iter_mut().for_each(|v| *v ^= r.u64() >> 32),
                3 => t[i] ^= 1 << r.range(30, 47),
                _ => t[..1 + i].iter_mut().for_each(|v| *v = r.u64()),
            }
            return t;
        }
        let mut r = Rng::new(0x6ea2 + class as u64);
        let mut t = Box::new([0u64; 256]);
        for v in t.iter_mut() {
            *v = r.u64();
            for _ in 0..class as usize % 4 {
                *v &= r.u64();
            }
        }
        t
    })
}
/// One of them for all streams.
pub fn ref32(class: u8) -> &'static [u32; 256] {
    use std::sync::OnceLock;
    static T: [OnceLock<Box<[u32; 256]>>; NTABLES] = [const { OnceLock::new() }; NTABLES];
    T[class as usize % NTABLES].get_or_init(|| own32(class % NTABLES as u8))
}
pub fn own32(class: u8) -> Box<[u32; 256]> {
    let mut r = Rng::new(0xb022 + class as u64);
    let mut t = Box::new([0u32; 256]);
    for v in t.iter_mut() {
        *v = r.u64() as u32;
    }
    t
}

/// A limit no stream reaches.
fn endless(r: &mut Rng) -> u64 {
    match r.below(7) {
        // what fits 32 bits of it is ordinary
        6 => (r.range(1, 9) as u64) << r.range(32, 50) | r.log(3000) as u64,
        0 | 1 => u64::MAX,
        2 => u64::MAX - r.range(1, 3) as u64,
        3 => (1 << 63) - 1 + r.below(3) as u64,
        4 => (1 << 32) - 2 + r.below(4) as u64,
        _ => (1 << 31) - 1 + r.below(3) as u64,
    }
}
fn gen_bounds(r: &mut Rng, big: bool) -> (B, B) {
    let lo = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => r.log(if big { 4000 } else { 120 }),
    } as u64;
    let span = match r.below(8) {
        0 => 2,
        1 => 3,
        _ => r.log(if big { 20000 } else { 600 }) as u64 + 2,
    };
    let hi = lo + span;
    let lo = if r.chance(1, 60) { endless(r).min(u64::MAX - 8) } else { lo };
    let l = match r.below(6) {
        0 => B::Un,
        1 => B::Exc(lo),
        _ => B::Inc(lo),
    };
    if r.chance(1, 30) || lo > hi {
        let e = endless(r).max(lo.saturating_add(2));
        return (l, if r.chance(1, 2) && e < u64::MAX || e < lo + 2 { B::Exc(e) } else { B::Inc(e) });
    }
    let h = match r.below(6) {
        0 => B::Un,
        1 | 2 => B::Inc(hi),
        _ => B::Exc(hi),
    };
    (l, h)
}

pub fn large_window(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.pick(&[255, 256, 257, 300, 511, 513, 1000]),
        1 => r.range(300, 5000),
        2 => r.pick(&[8191, 8192, 11_000, 11_770, 11_772, 12_000, 16_384]),
        _ => r.pick(&[32_767, 32_768, 65_535, 65_536, 65_537, 70_000]),
    }
}
/// The convenience constructors.
pub fn gen_default(r: &mut Rng, a: Algo) -> Option<Cfg> {
    Some(match a {
        Algo::Bup => Cfg::BupDefault,
        Algo::Gzip => Cfg::GzipDefault,
        Algo::Pigz => Cfg::PigzDefault,
        Algo::Gear => Cfg::GearDefault,
        Algo::Buz => Cfg::BuzNom { salt: r.byte() },
        Algo::Zstd => {
            if r.chance(1, 2) {
                Cfg::ZstdDefault
            } else {
                return None;
            }
        }
        Algo::Fast => Cfg::FastDefault,
        Algo::Ram => return None,
        Algo::Mii => Cfg::MiiDefault,
        Algo::Zpaq => loop {
            let c = gen(r, a);
            if !matches!(c, Cfg::ZpaqAvg { .. }) {
                break c;
            }
        },
    })
}
pub fn gen(r: &mut Rng, a: Algo) -> Cfg {
    let dflt = r.chance(1, 8);
    match a {
        Algo::Bup => {
            if dflt {
                return Cfg::BupDefault;
            }
            Cfg::Bup {
                w: match r.below(8) {
                    0 => 64,
                    1 => 1,
                    2 => 1 << r.range(1, 8),
                    3 => r.range(2, 9),
                    4 => r.pick(&[31, 33, 48, 63, 65, 96, 100, 127, 129]),
                    5 if r.chance(1, 5) => large_window(r),
                    _ => r.range(2, 200),
                },
            }
        }
        Algo::Gzip => {
            if dflt {
                return Cfg::GzipDefault;
            }
            let w = match r.below(6) {
                0 => 1,
                1 => 1 << r.range(0, 13),
                2 => r.range(2, 8),
                3 if r.chance(1, 6) => large_window(r),
                _ => r.range(2, 300),
            };
            let m = match r.below(8) {
                0 => r.range(1, 3) as u64,
                1 => 1 << r.range(0, 14),
                2 => r.range(3, 20000) as u64,
                3 if r.chance(1, 2) => u64::MAX - r.below(2) as u64,
                // does not fit 32 bits, what fits is ordinary
                3 => (r.range(1, 9) as u64) << r.range(32, 50) | r.log(3000) as u64,
                _ => r.range(5, 2000) as u64,
            };
            Cfg::Gzip { w, m }
        }
        Algo::Pigz => {
            if dflt {
                return Cfg::PigzDefault;
            }
            Cfg::Pigz {
                bits: match r.below(10) {
                    0 => 1,
                    1 => r.range(17, 31) as u8,
                    2 => r.range(1, 3) as u8,
                    _ => r.range(3, 16) as u8,
                },
            }
        }
        Algo::Gear => {
            if dflt {
                return Cfg::GearDefault;
            }
            Cfg::Gear { log2: if r.chance(1, 8) { r.range(16, 31) } else { r.range(1, 13) } }
        }
        Algo::Buz => {
            if dflt {
                return Cfg::BuzNom { salt: r.byte() };
            }
            let k = match r.below(8) {
                0 => 1,
                1 => r.pick(&[8, 16, 24, 32, 64, 128]),
                2 => r.pick(&[7, 9, 31, 33, 40, 63, 65, 67]),
                3 => r.range(2, 8),
                4 if r.chance(1, 5) => large_window(r),
                _ => r.range(2, 130),
            };
            let nbits = r.range(1, 11);
            let mask = match r.below(5) {
                0 => ((1u64 << nbits) - 1) as u32,
                1 => (((1u64 << nbits) - 1) as u32) << (32 - nbits),
                2 => {
                    let s = r.below(32 - nbits + 1);
                    (((1u64 << nbits) - 1) as u32) << s
                }
                3 if r.chance(1, 4) => 0,
                _ => {
                    let mut m = 0u32;
                    for _ in 0..nbits {
                        m |= 1 << r.below(32);
                    }
                    m
                }
            };
            let table = match r.below(6) {
                3 => BuzTable::Borg(r.pick(&[0, 1, 0x5eed_1234, u32::MAX, 0x8000_0000])),
                0 => BuzTable::Go,
                1 if r.chance(1, 2) => BuzTable::SaltOn(r.pick(&[0, 1, 255, 128, 7]), r.below(NTABLES) as u8),
                1 => BuzTable::Salt(r.byte()),
                2 if r.chance(1, 2) => BuzTable::Ref(r.below(NTABLES) as u8),
                2 => BuzTable::Own(r.below(NTABLES) as u8),
                _ => BuzTable::Hook,
            };
            // (a window no chunk fills is less of a window)
            let max = match if k > 250 { r.range(2, 9) } else { r.below(6) } {
                0 => r.range(1, 8) as u64,
                1 => k as u64,
                2 => r.log(3000) as u64,
                3 if r.chance(1, 2) => u64::MAX,
                3 => endless(r),
                _ => 1 << 24,
            };
            Cfg::Buz { k, mask, table, max }
        }
        Algo::Zstd => {
            if r.chance(1, 3) {
                return Cfg::ZstdDefault;
            }
            Cfg::Zstd {
                size: match r.below(8) {
                    0 | 1 => 1 << 20,
                    2 | 3 => (r.range(1, 8) << 20) as u64 + r.below(1 << 20) as u64,
                    4 => ((1u64 << r.range(20, 24)) + 1).saturating_sub(r.below(3) as u64).max(1 << 20),
                    5 if r.chance(1, 4) => (1u64 << r.range(24, 51)) + r.below(3) as u64,
                    _ => 1u64 << r.range(20, 23),
                },
            }
        }
        Algo::Fast => {
            if dflt {
                return Cfg::FastDefault;
            }
            let min = match r.below(6) {
                0 => 1,
                1 => 0,
                2 => r.range(2, 8),
                _ => r.log(400),
            } as u64;
            let norm = min
                + match r.below(5) {
                    0 => 0,
                    1 => 1,
                    _ => r.log(600),
                } as u64;
            let max = norm
                + match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => r.log(50),
                    _ => r.log(3000),
                } as u64;
            let (min, norm, max) = match r.below(30) {
                0 => (min, norm, endless(r)),
                1 => (min, endless(r).min(u64::MAX - 1), u64::MAX),
                2 if r.chance(1, 3) => (endless(r), u64::MAX, u64::MAX),
                _ => (min, norm, max),
            };
            let gear = match r.below(5) {
                0 => 255,
                _ => r.below(NTABLES) as u8,
            };
            Cfg::Fast { min, norm, max: max.max(1), gear }
        }
        Algo::Ram => Cfg::Ram {
            w: match r.below(8) {
                0 if r.chance(1, 3) => endless(r),
                0 => 0,
                1 => 8192,
                2 => r.range(1, 4) as u64,
                _ => r.log(1500) as u64,
            },
        },
        Algo::Mii => {
            if dflt {
                return Cfg::MiiDefault;
            }
            Cfg::Mii {
                w: match r.below(25) {
                    24 => endless(r),
                    0 | 1 => r.range(8, 40) as u64,
                    2 => r.pick(&[63, 64, 127, 128, 129, 200, 254, 255, 256, 257, 260, 300, 511, 512, 513, 65_536, 65_537, 65_540]),
                    _ => r.range(1, 7) as u64,
                },
            }
        }
        Algo::Zpaq => match r.below(9) {
            0 => Cfg::ZpaqDefault,
            1 => Cfg::ZpaqPow { p: if r.chance(1, 10) { r.range(18, 32) } else { r.range(10, 17) } as u8 },
            2 => {
                let lo = r.log(300) as u64;
                let hi = lo + 8 + r.log(9000) as u64;
                match r.below(8) {
                    0 => Cfg::ZpaqRange { lo: B::Un, hi: B::Un },
                    1 => Cfg::ZpaqRange { lo: B::Inc(lo.max(1)), hi: B::Un },
                    2 => Cfg::ZpaqRange { lo: B::Exc(lo), hi: B::Un },
                    3 => Cfg::ZpaqRange { lo: B::Un, hi: B::Inc(hi) },
                    _ => Cfg::ZpaqRange {
                        lo: if r.chance(1, 2) { B::Inc(lo) } else { B::Exc(lo) },
                        hi: if r.chance(1, 2) { B::Inc(hi) } else { B::Exc(hi) },
                    },
                }
            }
            3 => Cfg::ZpaqMax { max: if r.chance(1, 4) { 1u64 << r.range(3, 15) } else { 8 + r.log(40000) as u64 } },
            _ => {
                let big = r.chance(1, 4);
                let (lo, hi) = gen_bounds(r, big);
                let p = match r.below(4) {
                    0 => r.range(1, 3),
                    1 => r.range(9, 32),
                    _ => r.range(2, 10),
                } as u8;
                Cfg::ZpaqAvg { p, lo, hi }
            }
        },
    }
}

/// A configuration that differs a little.
pub fn tweak(r: &mut Rng, c: &Cfg) -> Cfg {
    let up = |r: &mut Rng, v: u64, lo: u64| -> u64 {
        match r.below(4) {
            0 => v.saturating_add(1),
            1 => v.saturating_sub(1).max(lo),
            2 => v.saturating_add(r.log(40) as u64),
            _ => (v / 2).max(lo),
        }
    };
    match c.resolved() {
        Cfg::Bup { w } => Cfg::Bup { w: up(r, w as u64, 1) as usize },
        Cfg::Gzip { w, m } if r.chance(1, 2) => Cfg::Gzip { w: up(r, w as u64, 1) as usize, m },
        Cfg::Gzip { w, m } => Cfg::Gzip { w, m: up(r, m, 1) },
        Cfg::Pigz { bits } => Cfg::Pigz { bits: up(r, bits as u64, 1).min(31) as u8 },
        Cfg::Gear { log2 } => Cfg::Gear { log2: up(r, log2 as u64, 1).min(31) as usize },
        Cfg::Buz { k, mask, table, max } => match r.below(3) {
            0 => Cfg::Buz { k: up(r, k as u64, 1) as usize, mask, table, max },
            1 => Cfg::Buz { k, mask: mask ^ 1 << r.below(32), table, max },
            _ if r.chance(1, 2) => {
                // the same but for the table or the salt
                let table = match table {
                    BuzTable::SaltOn(s, c) if r.chance(1, 2) => BuzTable::SaltOn(s, (c + 1) % NTABLES as u8),
                    BuzTable::SaltOn(s, c) => BuzTable::SaltOn(s ^ 1 << r.below(8), c),
                    BuzTable::Salt(s) if r.chance(1, 2) => BuzTable::SaltOn(s, r.below(NTABLES) as u8),
                    BuzTable::Salt(s) => BuzTable::Salt(s ^ 1 << r.below(8)),
                    BuzTable::Own(c) => BuzTable::Own((c + 1) % NTABLES as u8),
                    BuzTable::Ref(c) => BuzTable::Ref((c + 1) % NTABLES as u8),
                    BuzTable::Borg(s) => BuzTable::Borg(s ^ 2 << r.below(31)),
                    o => o,
                };
                Cfg::Buz { k, mask, table, max }
            }
            _ => Cfg::Buz { k, mask, table, max: up(r, max, 1) },
        },
        Cfg::Zstd { size } => Cfg::Zstd { size: r.pick(&[size + 1, (size * 2).min(1 << 51), (size / 2).max(1 << 20), size + (1 << 20)]) },
        Cfg::Fast { min, norm, max, gear } => match r.below(4) {
            0 => Cfg::Fast { min: up(r, min, 0).min(norm), norm, max, gear },
            1 => Cfg::Fast { min, norm: up(r, norm, min).clamp(min, max), max, gear },
            2 => Cfg::Fast { min, norm, max: up(r, max, norm).max(1), gear },
            _ if r.chance(1, 3) => Cfg::Fast { min, norm, max, gear: r.below(NTABLES) as u8 },
            // nearly the same table
            _ => {
                let base = if gear == 255 { NTABLES as u8 - 1 } else { gear % NTABLES as u8 };
                Cfg::Fast { min, norm, max, gear: base + (NTABLES * r.range(1, 19)) as u8 }
            }
        },
        Cfg::Ram { w } => Cfg::Ram { w: up(r, w, 1) },
        Cfg::Mii { w } => Cfg::Mii { w: up(r, w, 1) },
        Cfg::ZpaqAvg { p, lo, hi } => match r.below(3) {
            0 => Cfg::ZpaqAvg { p: up(r, p as u64, 1).min(32) as u8, lo, hi },
            1 => Cfg::ZpaqAvg {
                p,
                lo: match lo {
                    B::Inc(v) => r.pick(&[B::Exc(v), B::Inc(v.saturating_sub(1)), B::Exc(v.saturating_sub(1))]),
                    B::Exc(v) => r.pick(&[B::Inc(v), B::Inc(v + 1), B::Exc(v.saturating_sub(1))]),
                    B::Un => B::Inc(r.below(4) as u64),
                },
                hi,
            },
            _ => Cfg::ZpaqAvg {
                p,
                lo,
                hi: match hi {
                    B::Inc(v) => r.pick(&[B::Inc(v.saturating_add(1)), B::Exc(v.saturating_add(1)), B::Exc(v.saturating_add(2))]),
                    B::Exc(v) => r.pick(&[B::Inc(v), B::Inc(v - 1), B::Exc(v.saturating_add(1))]),
                    B::Un => B::Inc(1 << 40),
                },
            },
        },
        c => c,
    }
}
