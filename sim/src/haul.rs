//! The long haul: one chunk of more than 2^32 bytes, far too large to hold, so the object is one byte
//! repeated and never materialised.  Everything here is closed form.
use crate::cfg::*;
use crate::{gen, model};
use crate::props::Verdict;
use crate::rng::*;
use crate::scenario::{Iface, Scenario};
use crate::sut;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Haul {
    pub iface: Iface,
    pub byte: u8,
    /// deliveries: how many, of how many bytes
    pub runs: Vec<(u64, usize)>,
}
impl Haul {
    pub fn ser(&self) -> String {
        let mut o = format!("haul {} {:02x}", if self.iface == Iface::Fce { "search" } else { "incr" }, self.byte);
        for (n, k) in &self.runs {
            let _ = write!(o, " {}x{}", n, k);
        }
        o
    }
    pub fn parse(t: &[&str]) -> Haul {
        Haul {
            iface: if t[1] == "search" { Iface::Fce } else { Iface::Push },
            byte: u8::from_str_radix(t[2], 16).unwrap(),
            runs: t[3..]
                .iter()
                .map(|x| {
                    let (n, k) = x.split_once('x').unwrap();
                    (n.parse().unwrap(), k.parse().unwrap())
                })
                .collect(),
        }
    }
}
const G: u64 = 1 << 32;
const A: u32 = 314159265;
const M: u32 = 271828182;
/// Length of the first chunk of an endless object of one byte; None: not known in closed form.
pub fn first(cfg: &Cfg, byte: u8) -> Option<u64> {
    match cfg.resolved() {
        Cfg::Fast { min, norm, max, gear } => {
            let g = gear64(gear)[byte as usize];
            let (mut fp, mut n) = (0u64, min.max(1));
            // the fingerprint stays the same from the 64th byte on
            for _ in 0..66 {
                if n >= max {
                    break;
                }
                fp = (fp << 1).wrapping_add(g);
                n += 1;
                if fp & crate::model::MASK_S == 0 || fp & crate::model::MASK_L == 0 {
                    return None;
                }
            }
            let _ = norm;
            Some(max)
        }
        Cfg::Buz { k, mask, max, table } => {
            let t = crate::model::buz_hash(&table, byte);
            let mut h = 0u32;
            for i in 0..=k {
                h = h.rotate_left(1) ^ t ^ if i >= k { t.rotate_left((k % 32) as u32) } else { 0 };
                if h & mask == mask {
                    return None;
                }
            }
            Some(max + 1)
        }
        Cfg::Ram { w } => Some(w + 2),
        Cfg::ZpaqAvg { p, lo, hi } => {
            let lo = match lo {
                B::Inc(v) => v,
                B::Exc(v) => v + 1,
                B::Un => 1,
            }
            .max(4);
            let hi = match hi {
                B::Inc(v) => v,
                B::Exc(v) => v - 1,
                B::Un => return None,
            };
            if p == 32 && byte == 0 && lo <= G {
                // from zero on, zeros take the hash through all of its values
                return Some(hi.min(G));
            }
            let c1 = byte as u32 + 1;
            let step = |h: u32, m: u32| h.wrapping_add(c1).wrapping_mul(m);
            // the first two bytes are not predicted, unless they are zero
            let m = if byte == 0 { A } else { M };
            let mut h = step(step(0, m), m);
            // h -> a h + b, (lo - 3) times
            let (mut n, mut a, mut b) = (lo - 3, A, A.wrapping_mul(c1));
            while n > 0 {
                if n & 1 == 1 {
                    h = a.wrapping_mul(h).wrapping_add(b);
                }
                b = a.wrapping_mul(b).wrapping_add(b);
                a = a.wrapping_mul(a);
                n >>= 1;
            }
            for at in lo..hi {
                h = step(h, A);
                if (h as u64) < 1u64 << (32 - p) {
                    return Some(at);
                }
            }
            Some(hi)
        }
        _ => None,
    }
}
/// Bytes of the repeated byte that put a windowed chunker where any more of them leave it; None if it
/// has a boundary among them.
fn settled(cfg: &Cfg, push: bool, byte: u8) -> Option<usize> {
    let w = cfg.window()?;
    if let Cfg::Gzip { w, m } = cfg {
        if *w > 1 << 16 {
            return (1..=*w as u64).all(|n| n * byte as u64 % m != 0).then_some(*w);
        }
    }
    if matches!(cfg, Cfg::Mii { .. }) {
        return Some(2);
    }
    let p = w + 70;
    model::cuts(cfg, push, &vec![byte; p]).is_empty().then_some(p)
}
/// Boundaries of `n` bytes of one kind followed by the tail.
fn expect(cfg: &Cfg, push: bool, byte: u8, n: u64, tail: &[u8]) -> Option<Vec<u64>> {
    let cfg = cfg.resolved();
    let limited = matches!(cfg, Cfg::Buz { max, .. } if max != u64::MAX);
    if cfg.window().is_none() || limited {
        let mut v = vec![];
        let mut at = 0;
        while let Some(k) = first(&cfg, byte).filter(|k| at + k <= n) {
            at += k;
            v.push(at);
            if n - at < 100_000 {
                break;
            }
        }
        if n - at > 100_000 {
            // still open, and long: tails are for what comes after
            return tail.is_empty().then_some(v);
        }
        let rest: Vec<u8> = std::iter::repeat(byte).take((n - at) as usize).chain(tail.iter().copied()).collect();
        v.extend(model::cuts(&cfg, push, &rest).iter().map(|b| b + at as usize).map(|b| b as u64));
        return Some(v);
    }
    let p = settled(&cfg, push, byte)?;
    if let (Cfg::Gzip { w, m }, true) = (&cfg, p > 1 << 16) {
        let mut sum = *w as u64 * byte as u64;
        for (i, b) in tail.iter().enumerate() {
            sum = sum - byte as u64 + *b as u64;
            if sum % m == 0 {
                let mut v = vec![n + i as u64 + 1];
                v.extend(model::cuts(&cfg, push, &tail[i + 1..]).iter().map(|x| n + (i + 1 + x) as u64));
                return Some(v);
            }
        }
        return Some(vec![]);
    }
    let rest: Vec<u8> = std::iter::repeat(byte).take(p).chain(tail.iter().copied()).collect();
    Some(model::cuts(&cfg, push, &rest).iter().map(|b| *b as u64 + n - p as u64).collect())
}
pub fn gen(r: &mut Rng, prop: &str, idx: u64) -> Scenario {
    loop {
        let d = r.log(300) as u64;
        let g = if r.chance(1, 5) { 1 << 31 } else { G };
        let past = g + d;
        let kinds: &[usize] = match prop {
            "C13" => &[2, 6, 7, 8, 9, 10, 11, 12],
            "C14" => &[0, 1, 3, 4, 5, 13],
            _ => &[0, 1, 2, 3, 4],
        };
        let mut byte = r.byte();
        let cfg = match kinds[idx as usize % kinds.len()] {
            0 => {
                let min = r.log(4000) as u64;
                let norm = min + r.log(4000) as u64;
                Cfg::Fast { min, norm, max: past, gear: r.below(NTABLES) as u8 }
            }
            1 => {
                let min = past;
                let norm = min + r.log(100) as u64 - 1;
                Cfg::Fast { min, norm, max: norm + r.log(100) as u64, gear: r.below(NTABLES) as u8 }
            }
            2 => Cfg::Buz { k: r.range(1, 70), mask: (1 << r.range(3, 20)) - 1, table: r.pick(&[BuzTable::Salt(3), BuzTable::Go]), max: past },
            3 => Cfg::ZpaqAvg { p: r.range(1, 20) as u8, lo: B::Inc(past), hi: B::Inc(past + r.log(200) as u64) },
            4 => Cfg::ZpaqAvg { p: 32, lo: r.pick(&[B::Un, B::Inc(7)]), hi: r.pick(&[B::Inc(past), B::Exc(past + 1)]) },
            5 => Cfg::Ram { w: past },
            6 => Cfg::Bup { w: r.log(5000) },
            7 => {
                // a sum of the window past 2^32, and the modulus that it is, or is not, a multiple of
                let w = (1usize << 24) + r.range(100_000, 200_000);
                byte = 255;
                Cfg::Gzip { w, m: w as u64 * 255 - r.log(4000) as u64 }
            }
            8 => Cfg::Gzip { w: r.log(9000), m: r.log(5000) as u64 },
            9 => Cfg::Gear { log2: r.range(1, 13) },
            10 => Cfg::Buz { k: r.log(300), mask: (1 << r.range(3, 13)) - 1, table: r.pick(&[BuzTable::Salt(3), BuzTable::Go, BuzTable::Own(2)]), max: r.pick(&[u64::MAX, u64::MAX, 1 << 40]) },
            11 => Cfg::Pigz { bits: r.range(1, 16) as u8 },
            12 => Cfg::Zstd { size: 1 << 20 },
            _ => Cfg::Mii { w: r.range(1, 6) as u64 },
        };
        let iface = if r.chance(1, 2) { Iface::Fce } else { Iface::Push };
        let push = iface == Iface::Push;
        // from the start an average of 2^32 is met once in 2^32 bytes, by zeros at the very end
        if matches!(cfg, Cfg::ZpaqAvg { p: 32, .. }) {
            byte = 0;
        }
        let limited = cfg.window().is_none() || matches!(cfg, Cfg::Buz { max, .. } if max < 1 << 40);
        let cut = if limited {
            match first(&cfg, byte) {
                Some(n) => n,
                None => continue,
            }
        } else {
            if settled(&cfg, push, byte).is_none() {
                continue;
            }
            g - r.log(1500) as u64
        };
        let mut tail = if cfg.window().is_some_and(|w| w > 20_000) { (0..3000).map(|_| r.byte()).collect() } else if limited { gen::plain(r, &cfg, push).0 } else { gen::after(r, &cfg, push, &vec![byte; cfg.window().unwrap_or(0) + 70]) };
        tail.truncate(8000);
        let mut cfg = cfg;
        if let (Cfg::Gzip { w, m }, true) = (&mut cfg, kinds[idx as usize % kinds.len()] == 7) {
            let t = r.log(tail.len());
            let sum = (*w - t) as u64 * 255 + tail[..t].iter().map(|b| *b as u64).sum::<u64>();
            *m = if r.chance(1, 2) { sum } else { sum % G };
        }
        if !limited && settled(&cfg, push, byte).is_none() {
            continue;
        }
        let mut runs: Vec<(u64, usize)> = vec![];
        let mut at = 0u64;
        let mut to = |runs: &mut Vec<(u64, usize)>, end: u64, k: usize| {
            if end > at {
                let k = (k as u64).min(end - at);
                runs.push(((end - at) / k, k as usize));
                if (end - at) % k > 0 {
                    runs.push((1, ((end - at) % k) as usize));
                }
                at = end;
            }
        };
        to(&mut runs, r.log(3000) as u64, 1);
        let near = (g - r.log(500) as u64).min(cut);
        // a large look-back is copied around by some callers: fewer, larger reads
        let k = if cfg.carry() > 1 << 20 { r.range(20_000_000, 40_000_000) } else { r.range(100_000, 2_000_000) };
        to(&mut runs, near, k);
        runs.push((1, 0));
        if limited {
            to(&mut runs, (g + r.log(20) as u64).min(cut - r.below(2) as u64), r.range(1, 40));
            to(&mut runs, cut + 3, r.range(1, 60));
        } else {
            to(&mut runs, cut, r.range(1, 60));
        }
        let mut sc = Scenario { prop: prop.into(), ..Default::default() };
        if limited && expect(&cfg, push, byte, cut + 3, &tail).is_none() {
            tail.clear();
        }
        sc.insts.push(cfg);
        sc.parts.push(tail);
        sc.haul = Some(Haul { iface, byte, runs });
        return sc;
    }
}
struct Feed {
    base: u64,
    fed: u64,
    cuts: Vec<u64>,
}
enum End {
    Fine,
    Bad(String),
}
pub fn judge(sc: &Scenario) -> (Verdict, crate::engine::RunOut) {
    let h = sc.haul.as_ref().unwrap();
    let cfg = &sc.insts[0];
    let (mut v, mut o) = (Verdict::default(), crate::engine::RunOut::default());
    let inst = match sut::try_build(cfg) {
        Ok(i) => i,
        Err(m) => {
            v.bad(format!("panic: {}", m));
            return (v, o);
        }
    };
    let none = vec![];
    let tail = sc.parts.first().unwrap_or(&none);
    let total: u64 = h.runs.iter().map(|(n, k)| n * *k as u64).sum();
    let largest = h.runs.iter().map(|r| r.1).max().unwrap_or(0);
    let most = cfg.carry() + 64;
    let mut buf = vec![h.byte; largest + most];
    let mut fce = inst.fce(0);
    let mut psh = inst.psh(0);
    let mut f = Feed { base: 0, fed: 0, cuts: vec![] };
    // slow is not wrong: give up on the run rather than call it hung (one call that does not return
    // is the watchdog's)
    let (c0, mut slow) = (crate::cpu_s(), false);
    let push = h.iface == Iface::Push;
    let mut sizes = Rng::new(h.byte as u64 + total);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut step = |f: &mut Feed, buf: &[u8], k: usize| -> End {
            f.fed += k as u64;
            let mut once = true;
            while once || f.base < f.fed {
                once = false;
                let at = buf.len() - (f.fed - f.base) as usize;
                let b = &buf[at..];
                let (c, d) = if push {
                    let c = psh.push(b);
                    (c, c.unwrap_or(b.len()))
                } else {
                    fce.call(b)
                };
                if d > b.len() || c.is_some_and(|c| c > b.len() || d > c) {
                    return End::Bad(format!("reports {:?} and discards {} of {} bytes", c, d, b.len()));
                }
                if let Some(c) = c {
                    let x = f.base + c as u64;
                    if f.cuts.last().map_or(0, |y| *y) >= x {
                        return End::Bad(format!("reports boundary {} after {:?}", x, f.cuts.last()));
                    }
                    f.cuts.push(x);
                }
                f.base += d as u64;
                if c.is_none() {
                    break;
                }
            }
            if (f.fed - f.base) as usize > most {
                return End::Bad(format!("asks the caller to keep {} bytes", f.fed - f.base));
            }
            End::Fine
        };
        for &(n, k) in &h.runs {
            for _ in 0..n {
                o.calls += 1;
                if o.calls % 64 == 0 && crate::cpu_s() - c0 > 110. {
                    slow = true;
                    return End::Fine;
                }
                o.bytes += k as u64;
                o.sim_us += 10 + k as u64 / 1000;
                let held = (f.fed - f.base) as usize;
                if let End::Bad(m) = step(&mut f, &buf[..held + k], k) {
                    return End::Bad(m);
                }
            }
        }
        // the tail, in small pieces
        let held = (f.fed - f.base) as usize;
        buf.truncate(held);
        let mut at = 0;
        while at < tail.len() {
            let k = sizes.log(200).min(tail.len() - at);
            buf.extend_from_slice(&tail[at..at + k]);
            at += k;
            o.calls += 1;
            o.bytes += k as u64;
            if let End::Bad(m) = step(&mut f, &buf, k) {
                return End::Bad(m);
            }
        }
        End::Fine
    }));
    if slow {
        *o.faults.entry("long-haul given up").or_insert(0) += 1;
        return (v, o);
    }
    let name = format!("{} {}", if h.iface == Iface::Fce { "search" } else { "incremental" }, cfg.ser());
    let cut = f.cuts.first().copied();
    let stop = cut.unwrap_or(f.fed);
    v.probe("chunks beyond 2 GiB", (stop > 1 << 31) as u64);
    v.probe("chunks beyond 4 GiB", (stop > 1 << 32) as u64);
    v.probe("boundaries", f.cuts.len() as u64);
    v.checks = 1 + f.cuts.len() as u64;
    v.hits = cut.is_some() as u64;
    *o.faults.entry("long-haul").or_insert(0) += 1;
    o.trace = f.cuts.iter().fold(f.fed, |t, c| mix(t ^ c));
    o.shape = hash_bytes(1, name.as_bytes());
    match r {
        Err(_) => v.bad(format!("panic: {} after {} bytes {:02x} of one chunk", name, f.fed, h.byte)),
        Ok(End::Bad(m)) => v.bad(format!("{}: {} after {} bytes of one chunk", name, m, f.fed)),
        Ok(End::Fine) => {
            let (lo, hi) = cfg.limits();
            let mut last = 0;
            for (i, b) in f.cuts.iter().chain([&f.fed]).enumerate() {
                let (n, done) = (b - last, i < f.cuts.len());
                last = *b;
                if hi.is_some_and(|x| n > x) || done && lo.is_some_and(|x| n < x) {
                    v.bad(format!("{}: {} chunk of {} bytes, configured limits {:?}..{:?}", name, if done { "completed" } else { "open" }, n, lo, hi));
                    return (v, o);
                }
            }
            if sc.prop != "C10" {
                if let Some(want) = expect(cfg, push, h.byte, total, tail) {
                    let i = f.cuts.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    if f.cuts != want {
                        v.bad(format!("reference model: {}: {} bytes {:02x} and {} more: boundary {} at {:?}, expected {:?}", name, total, h.byte, tail.len(), i, f.cuts.get(i), want.get(i)));
                    }
                }
            }
        }
    }
    (v, o)
}
