//! The reel: one object played over and over, for streams of tens of megabytes with up to millions of
//! boundaries and calls, so that what counts, ages or piles up over a stream's life gets to do so.
use crate::alloc::tracked;
use crate::cfg::*;
use crate::gen;
use crate::model;
use crate::props::Verdict;
use crate::rng::*;
use crate::scenario::{Iface, Scenario};
use crate::sut::{self, Fce, Inst, ItKind, Psh, Pull};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Side {
    pub iface: Iface,
    /// delivery sizes, in turn; from `AIM` on: up to the next boundary, give or take a few bytes
    pub sizes: Vec<usize>,
}
impl Side {
    fn sizes(&self) -> String {
        self.sizes.iter().map(|&k| if k >= AIM { format!(" @{}", k - AIM) } else { format!(" {}", k) }).collect()
    }
}
/// A delivery that ends `k - AIM - NEAR` bytes past the next boundary.
const AIM: usize = 1 << 60;
const NEAR: usize = 4;
#[derive(Clone, Debug, PartialEq)]
pub struct Reel {
    /// length of the stream: `gap` bytes of parts[1] repeated and then parts[0], over and over
    pub total: u64,
    pub gap: usize,
    /// decides the instants of crashes and copies
    pub salt: u64,
    pub sides: [Side; 2],
}
impl Reel {
    pub fn ser(&self) -> String {
        let mut o = format!("reel {} {} {}", self.total, self.salt, self.gap);
        for s in &self.sides {
            let _ = write!(o, " {}", if s.iface == Iface::Fce { "search" } else { "incr" });
            o += &s.sizes();
        }
        o
    }
    pub fn parse(t: &[&str]) -> Reel {
        let mut sides = vec![];
        for x in &t[4..] {
            match *x {
                "search" => sides.push(Side { iface: Iface::Fce, sizes: vec![] }),
                "incr" => sides.push(Side { iface: Iface::Push, sizes: vec![] }),
                k => {
                    let k = match k.strip_prefix('@') {
                        Some(k) => AIM + k.parse::<usize>().unwrap(),
                        None => k.parse().unwrap(),
                    };
                    sides.last_mut().unwrap().sizes.push(k)
                }
            }
        }
        let b = sides.pop().unwrap();
        let a = sides.pop().unwrap();
        Reel { total: t[1].parse().unwrap(), salt: t[2].parse().unwrap(), gap: t[3].parse().unwrap(), sides: [a, b] }
    }
}
const CAP: usize = 4_000_000;

pub fn gen(r: &mut Rng, prop: &str, idx: u64) -> Scenario {
    loop {
        let cfg = gen::cfg_for(r, prop);
        let either = r.chance(1, 2);
        let ifaces = match prop {
            "C01" => [Iface::Fce, Iface::Fce],
            "C02" => [Iface::Push, Iface::Push],
            "C03" => [Iface::Fce, Iface::Push],
            "C04" => [Iface::Push, Iface::Push],
            _ => [if either { Iface::Push } else { Iface::Fce }; 2],
        };
        // (C03: where FastCDC's two interfaces cut is a known finding)
        if prop == "C03" && cfg.algo() == Algo::Fast || prop == "C07" && sut::build(&cfg).fce(0).dup().is_none() && sut::build(&cfg).psh(0).dup().is_none() {
            continue;
        }
        let push = ifaces[0] == Iface::Push;
        let mut cfg = cfg;
        if r.chance(1, 3) {
            if let Cfg::Bup { w } | Cfg::Gzip { w, .. } | Cfg::Buz { k: w, .. } = &mut cfg {
                *w = if r.chance(1, 2) { 65_536 + r.log(6000) } else { large_window(r) };
            }
        }
        if let Cfg::Buz { k, max, .. } = &mut cfg {
            if *k > 250 {
                *max = r.pick(&[u64::MAX, 1 << 24, 100_000]);
            }
        }
        // half have a long stretch without boundaries, if there is one
        let gap = if r.chance(1, 2) { (1usize << r.range(if prop == "C11" { 20 } else { 16 }, 23)) + r.log(300) - r.log(300) } else { 0 };
        let mut pat = vec![];
        let mut lead = vec![];
        if gap > 0 {
            for _ in 0..20 {
                let n = r.pick(&[1, 1, 2, 3, 5, 7, 16, 31, 64, 100]);
                pat = (0..n).map(|_| r.byte()).collect();
                let m = cfg.window().unwrap_or(2).min(1 << 20) + 70 + 2 * n;
                let m = m.min(gap) / n * n;
                lead = pat.iter().copied().cycle().take(m + gap % n).collect::<Vec<u8>>();
                if cfg.window().is_none() || model::cuts(&cfg, push, &lead).is_empty() {
                    break;
                }
            }
        }
        let (data, cuts) = if gap > 0 && cfg.window().is_some() {
            let d = gen::after(r, &cfg, push, &lead);
            let c = model::cuts(&cfg, push, &[&lead[..], &d[..]].concat());
            (d, c)
        } else {
            gen::plain(r, &cfg, push)
        };
        if data.is_empty() || cuts.is_empty() && r.chance(3, 4) {
            continue;
        }
        let mut sides = ifaces.map(|iface| {
            let n = r.range(1, 5);
            let top = r.pick(&[8usize, 100, 5000, 100_000]);
            let mut sizes: Vec<usize> = (0..n)
                .map(|_| match r.below(6) {
                    0 => 1,
                    1 => cfg.carry().clamp(1, 100_000) + r.below(3),
                    2 => data.len() + gap,
                    4 if gap > 0 => gap + r.log(1000) - r.log(1000).min(gap),
                    // large reads
                    3 if r.chance(1, 3) => (1usize << r.range(15, 24)) + r.range(0, 2) - 1,
                    _ => r.log(top),
                })
                .collect();
            if r.chance(1, 4) {
                sizes.push(0);
            }
            if sizes.iter().all(|k| *k == 0) {
                sizes.push(1);
            }
            Side { iface, sizes }
        });
        if gap > 0 && r.chance(1, 2) {
            // some reads take all of it
            let k = r.below(2);
            let at = r.below(sides[k].sizes.len() + 1);
            sides[k].sizes.insert(at, gap + r.log(3000));
        }
        if gap > 0 && prop == "C11" {
            sides[0].sizes.push(gap);
        }
        if r.chance(1, if gap > 0 { 2 } else { 4 }) {
            // reads that end next to boundaries
            for s in sides.iter_mut() {
                if r.chance(2, 3) {
                    if r.chance(1, 2) {
                        s.sizes.clear();
                    }
                    for _ in 0..r.range(1, 4) {
                        let any = r.below(2 * NEAR + 1);
                        s.sizes.push(AIM + r.pick(&[NEAR, NEAR - 1, NEAR - 1, NEAR + 1, any]));
                    }
                }
            }
        }
        if prop == "C16" {
            sides[1] = sides[0].clone();
        }
        let total = match idx % 4 {
            3 => r.range(1 << 25, 3 << 25),
            _ => (1 << 24) + r.range(100_000, 2_000_000),
        } as u64;
        let mut sc = Scenario { prop: prop.into(), ..Default::default() };
        sc.parts.push(data);
        sc.parts.push(pat);
        sc.insts.push(cfg.clone());
        if prop == "C16" {
            sc.insts.push(cfg.twin());
        }
        sc.reel = Some(Reel { total, gap, salt: r.u64() >> 8, sides });
        return sc;
    }
}

enum St {
    F(Box<dyn Fce>),
    P(Box<dyn Psh>),
}
struct Player<'a> {
    st: St,
    tape: &'a [u8],
    l: u64,
    aims: &'a [u64],
    most: usize,
    sizes: Vec<usize>,
    si: usize,
    /// start of what the caller holds
    base: u64,
    /// end of what was delivered
    fed: u64,
    start: u64,
    cuts: Vec<u64>,
    calls: u64,
    mem: i64,
    mem_base: i64,
    mem_max: i64,
    held: usize,
    open: u64,
    polls: bool,
    slices: bool,
}
impl<'a> Player<'a> {
    fn new(inst: &dyn Inst, side: &Side, tape: &'a [u8], l: usize, aims: &'a [u64], most: usize, start: u64) -> Player<'a> {
        let (st, mem) = tracked(|| if side.iface == Iface::Fce { St::F(inst.fce(0)) } else { St::P(inst.psh(0)) });
        Player { st, tape, l: l as u64, aims, most, sizes: side.sizes.clone(), si: 0, base: start, fed: start, start, cuts: vec![], calls: 0, mem, mem_base: mem, mem_max: mem, held: 0, open: 0, polls: false, slices: false }
    }
    fn dup(&self) -> Option<Player<'a>> {
        let st = match &self.st {
            St::F(f) => St::F(f.dup()?),
            St::P(p) => St::P(p.dup()?),
        };
        Some(Player { st, cuts: vec![], sizes: self.sizes.clone(), ..*self })
    }
    fn cut(&mut self, at: u64, to: u64) -> Result<(), String> {
        let last = self.cuts.last().copied().unwrap_or(self.start);
        if at > to {
            return Err(format!("reports a boundary beyond the data after {}", last));
        }
        if at <= last {
            return Err(format!("reports boundary {} after {}", at, last));
        }
        self.open = self.open.max(at - last);
        self.cuts.push(at);
        Ok(())
    }
    /// Deliver up to `to`, draining after every piece.
    fn play(&mut self, to: u64) -> Result<(), String> {
        while self.fed < to && self.cuts.len() < CAP {
            let mut k = self.sizes[self.si % self.sizes.len()] as u64;
            if let Some(d) = k.checked_sub(AIM as u64) {
                let p = self.fed % self.l;
                let c = match self.aims.get(self.aims.partition_point(|c| *c <= p)) {
                    Some(c) => *c,
                    None => self.l + self.aims.first().copied().unwrap_or(0),
                };
                k = (c - p + d).saturating_sub(NEAR as u64).clamp(1, self.l);
            }
            let k = k.min(to - self.fed);
            self.si += 1;
            self.fed += k;
            let mut first = true;
            while first || self.base < self.fed {
                first = false;
                self.calls += 1;
                let n = (self.fed - self.base) as usize;
                if n > self.most {
                    return Err(format!("asks the caller to keep {} bytes", n as u64 - k));
                }
                let p = (self.base % self.l) as usize;
                let buf = &self.tape[p..p + n];
                let (base, fed) = (self.base, self.fed);
                match &mut self.st {
                    St::F(f) => {
                        let ((c, d), m) = tracked(|| f.call(buf));
                        self.mem += m;
                        if d > n || c.is_some_and(|c| d > c) {
                            return Err(format!("discards {} of {} bytes with boundary {:?}", d, n, c));
                        }
                        self.base += d as u64;
                        match c {
                            Some(c) => self.cut(base + c as u64, fed)?,
                            None => {
                                self.held = self.held.max(n - d);
                                if self.polls && self.calls % 64 < 2 {
                                    let n = n - d;
                                    let p = (self.base % self.l) as usize;
                                    let buf = &self.tape[p..p + n];
                                    let St::F(f) = &mut self.st else { unreachable!() };
                                    if f.call(buf) != (None, 0) {
                                        return Err("a call that supplies no new byte is not without effect".into());
                                    }
                                }
                                break;
                            }
                        }
                    }
                    St::P(p) if self.slices => {
                        let kind = if self.calls % 2 == 0 { ItKind::Strict } else { ItKind::StrictTake };
                        let s = p.slices(buf, usize::MAX, kind, [Pull::Next, Pull::Take, Pull::Collect][self.calls as usize % 3]);
                        if !s.intact || s.runaway || s.lens.iter().sum::<usize>() + s.rem != n {
                            return Err(format!("slices do not tile bytes {}..{}", base, fed));
                        }
                        let mut at = base;
                        for x in s.lens {
                            at += x as u64;
                            self.cut(at, fed)?;
                        }
                        self.base = self.fed;
                    }
                    St::P(p) => {
                        let (c, m) = tracked(|| p.push(buf));
                        self.mem += m;
                        match c {
                            Some(c) => {
                                self.base += c as u64;
                                self.cut(base.saturating_add(c as u64), fed)?;
                            }
                            None => self.base = self.fed,
                        }
                    }
                }
                self.mem_max = self.mem_max.max(self.mem);
            }
            let last = self.cuts.last().copied().unwrap_or(self.start);
            self.open = self.open.max(self.fed - last);
        }
        Ok(())
    }
}
fn differ(got: &[u64], want: &[u64]) -> Option<String> {
    if got == want {
        return None;
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Some(format!("first difference at boundary {}: got {:?}, expected {:?}", i, got.get(i), want.get(i)))
}
/// Three boundaries to look closer at, among them late ones.
fn spots(r: &mut Rng, cuts: &[u64]) -> Vec<u64> {
    let n = cuts.len();
    let mut v = vec![];
    for _ in 0..3 {
        if n > 0 {
            let k = if r.chance(1, 2) { n - 1 - r.below(n.min(300)) } else { r.below(n) };
            v.push(cuts[k]);
        }
    }
    // one of the longest chunks
    if let Some(w) = cuts.windows(2).take(1_000_000).max_by_key(|w| w[1] - w[0]) {
        v.push(w[0]);
    }
    v
}
pub fn judge(sc: &Scenario) -> (Verdict, crate::engine::RunOut) {
    let (mut v, mut o) = (Verdict::default(), crate::engine::RunOut::default());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(sc, &mut v, &mut o)));
    let h = sc.reel.as_ref().unwrap();
    let name = |m: String| format!("reel of {} bytes, {}: {}", h.total, sc.insts[0].ser(), m);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => v.bad(name(m)),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            v.bad(name(format!("panic: {}", m)));
        }
    }
    *o.faults.entry("reel").or_insert(0) += 1;
    o.shape = hash_bytes(2, h.ser().as_bytes());
    (v, o)
}
fn go(sc: &Scenario, v: &mut Verdict, o: &mut crate::engine::RunOut) -> Result<(), String> {
    let h = sc.reel.as_ref().unwrap();
    let cfg = &sc.insts[0];
    let inst = sut::try_build(cfg)?;
    let obj: Vec<u8> = sc.parts.get(1).into_iter().flatten().copied().cycle().take(h.gap).chain(sc.parts[0].iter().copied()).collect();
    let obj = &obj;
    let piece = h.sides.iter().flat_map(|s| s.sizes.iter().map(|&k| if k >= AIM { obj.len() } else { k })).max().unwrap();
    let most = piece + 2 * cfg.carry() + 4096;
    let tape: Vec<u8> = obj.iter().copied().cycle().take(obj.len() + most.max(1)).collect();
    // where boundaries are on a first lap
    let mut aims: Vec<u64> = vec![];
    if h.sides.iter().any(|s| s.sizes.iter().any(|k| *k >= AIM)) {
        let mut p = inst.psh(0);
        let mut at = 0;
        while at < obj.len() && aims.len() < 1 << 20 {
            match p.push(&obj[at..]) {
                Some(c) if c > 0 && at + c <= obj.len() => at += c,
                _ => break,
            }
            aims.push(at as u64);
        }
    }
    let player = |inst: &dyn Inst, k: usize, start: u64| Player::new(inst, &h.sides[k], &tape, obj.len(), &aims, most, start);
    let prop = sc.prop.as_str();
    let mut r = Rng::new(h.salt);
    let mut a = player(&*inst, 0, 0);
    let label = |k: usize| format!("{} in pieces of{}", if h.sides[k].iface == Iface::Fce { "search" } else { "incremental" }, h.sides[k].sizes());
    let l = cfg.lag(h.sides[0].iface == Iface::Push) as u64;
    let mut res = Ok(());
    match prop {
        "C12" => {
            let mut b = player(&*inst, 1, 0);
            let mut at = 0;
            while at < h.total && a.cuts.len() < CAP / 2 && res.is_ok() {
                at = (at + r.range(1, 600_000) as u64).min(h.total);
                a.play(at)?;
                b.play(at)?;
                v.checks += 1;
                let (x, y) = (a.cuts.len(), b.cuts.len());
                if x != y {
                    res = Err(format!("with {} bytes delivered, {} boundaries are known to the {}, {} to the {}", at, x, label(0), y, label(1)));
                }
            }
            if let (Ok(()), Some(m)) = (&res, differ(&b.cuts, &a.cuts)) {
                res = Err(m);
            }
        }
        "C08" => {
            let mut b = player(&*inst, 1, r.below(obj.len()) as u64);
            let from = b.start;
            while a.fed < h.total && a.cuts.len() < CAP / 2 && b.cuts.len() < CAP / 2 {
                a.play((a.fed + r.log(300_000) as u64).min(h.total))?;
                let n = b.fed + r.log(300_000) as u64;
                b.play(n)?;
            }
            for (x, k) in [(&a, 0), (&b, 1)] {
                let again = sut::try_build(cfg)?;
                let mut y = player(&*again, k, if k == 0 { 0 } else { from });
                y.play(x.fed)?;
                v.checks += 1 + y.cuts.len() as u64;
                if let (Ok(()), Some(m)) = (&res, differ(&x.cuts, &y.cuts)) {
                    res = Err(format!("{}, next to another stream and alone: {}", label(k), m));
                }
            }
        }
        "C07" => {
            for k in 0..3 {
                a.play((h.total * (k + 1) / 3).saturating_sub(2_000_000 + h.gap as u64 + r.below(100_000) as u64))?;
                let Some(mut b) = a.dup() else { break };
                let (from, done) = (a.fed, a.cuts.len());
                let to = (from + 1_900_000 + h.gap as u64).min(h.total);
                b.start = a.cuts.last().copied().unwrap_or(0);
                b.sizes = h.sides[1].sizes.clone();
                let mut c = a.dup().unwrap();
                c.cuts = vec![];
                c.start = b.start;
                b.play(to)?;
                a.play(to)?;
                v.checks += 1 + b.cuts.len() as u64;
                if b.fed == a.fed {
                    if let Some(m) = differ(&b.cuts, &a.cuts[done..]) {
                        res = Err(format!("{}: copy taken at {}: {}", label(0), from, m));
                        break;
                    }
                }
            }
        }
        _ => {
            a.polls = prop == "C05";
            a.play(h.total)?;
        }
    }
    let end = a.fed;
    res?;
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C16" => {
            let other = if prop == "C16" { sut::try_build(&sc.insts[1])? } else { inst };
            let mut b = player(&*other, 1, 0);
            b.slices = prop == "C04";
            b.play(end)?;
            v.checks += 1 + a.cuts.len() as u64;
            if b.fed != end {
                // stopped by the cap in mid-piece
                let n = a.cuts.len().min(b.cuts.len());
                a.cuts.truncate(n);
                b.cuts.truncate(n);
            }
            if let Some(m) = differ(&b.cuts, &a.cuts) {
                return Err(format!("{} against {}: {}", label(1), label(0), m));
            }
        }
        "C06" => {
            for p in spots(&mut r, &a.cuts) {
                let lead = if cfg.algo() == Algo::Zstd { 32.min(p) } else { 0 };
                let to = (p + 3_000_000 + h.gap as u64).min(end);
                let mut b = player(&*inst, 1, p - lead);
                b.play(to)?;
                // (it may have been stopped by the cap)
                let to = to.min(b.fed);
                let got: Vec<u64> = b.cuts.iter().copied().filter(|x| *x > p).collect();
                let want: Vec<u64> = a.cuts.iter().copied().filter(|x| *x > p && *x <= to - l.min(to)).collect();
                v.checks += 1 + want.len() as u64;
                let n = want.len().min(got.len());
                if let Some(m) = differ(&got[..n], &want).or_else(|| got[n..].iter().any(|x| *x <= to - l.min(to)).then(|| "more boundaries".to_string())) {
                    return Err(format!("{}: restarted at {}: {}", label(1), p, m));
                }
            }
        }
        "C10" => {
            let (lo, hi) = cfg.limits();
            let mut prev = 0;
            for &c in &a.cuts {
                v.checks += 1;
                if lo.is_some_and(|x| c - prev < x) || hi.is_some_and(|x| c - prev > x) {
                    return Err(format!("{}: chunk {}..{} of {} bytes, configured limits {:?}..{:?}", label(0), prev, c, c - prev, lo, hi));
                }
                prev = c;
            }
            if hi.is_some_and(|x| a.open > x) {
                return Err(format!("{}: {} bytes without a boundary, configured maximum {:?}", label(0), a.open, hi));
            }
        }
        "C11" => {
            v.checks += a.calls;
            if h.sides[0].iface == Iface::Fce && a.held > cfg.carry() {
                return Err(format!("{}: asks the caller to keep {} bytes, look-back is {}", label(0), a.held, cfg.carry()));
            }
            let bound = a.mem_base + 4096 + 8 * cfg.carry() as i64;
            if a.mem_max > bound {
                return Err(format!("{}: holds {} heap bytes, {} when new (bound {})", label(0), a.mem_max, a.mem_base, bound));
            }
        }
        "C13" | "C14" => {
            for p in spots(&mut r, &a.cuts) {
                let lead = if cfg.algo() == Algo::Zstd { 32.min(p) } else { 0 };
                let to = (p + 200_000 + h.gap as u64).min(end);
                let part: Vec<u8> = (p - lead..to).map(|i| obj[(i % obj.len() as u64) as usize]).collect();
                let want: Vec<u64> = model::cuts(cfg, h.sides[0].iface == Iface::Push, &part).into_iter().map(|x| x as u64 + p - lead).filter(|x| *x > p && *x < to).collect();
                let got: Vec<u64> = a.cuts.iter().copied().filter(|x| *x > p && *x < to).collect();
                v.checks += 1 + want.len() as u64;
                if let Some(m) = differ(&got, &want) {
                    return Err(format!("{} against the reference model from boundary {}: {}", label(0), p, m));
                }
            }
        }
        _ => v.checks += 1,
    }
    o.calls += a.calls;
    o.bytes += end;
    o.sim_us += 10 * a.calls + end / 1000;
    o.trace = a.cuts.iter().fold(mix(end), |t, c| mix(t ^ c));
    v.hits = a.cuts.len() as u64;
    v.probe("boundaries", v.hits);
    v.probe("reels with chunks beyond 64 KiB", (a.open > 1 << 16) as u64);
    v.probe("reels with chunks beyond 1 MiB", (a.open > 1 << 20) as u64);
    v.probe("reels beyond 16 MiB", (end > 1 << 24) as u64);
    v.probe("reels with more than 65535 boundaries", (v.hits > 65535) as u64);
    v.probe("reels with more than 1000000 calls", (a.calls > 1_000_000) as u64);
    Ok(())
}
