//! Seed -> scenario.  Never looks at the library: data is steered by the reference models, so the
//! same seed gives the same scenario whatever the code under test does.
use crate::cfg::{self, *};
use crate::model::*;
use crate::rng::*;
use crate::scenario::*;
use crate::sut::{ItKind, PULLS};

const P: u64 = 0xCF1BBCDCB7A56463;

pub struct Data<'a> {
    r: &'a mut Rng,
    cfg: Cfg,
    m: Model,
    pub out: Vec<u8>,
    pub cuts: Vec<usize>,
    cost: usize,
    budget: usize,
}
/// Work per byte of the reference model.
pub fn cost(cfg: &Cfg) -> usize {
    match cfg.resolved() {
        Cfg::Pigz { bits } => bits as usize + 2,
        Cfg::Gear { .. } | Cfg::Zstd { .. } => 34,
        Cfg::Buz { .. } | Cfg::Bup { .. } => 4,
        Cfg::Fast { .. } => 66,
        Cfg::Mii { w } => w.min(60) as usize / 2 + 2,
        _ => 3,
    }
}
impl<'a> Data<'a> {
    pub fn new(r: &'a mut Rng, cfg: &Cfg, push: bool, budget: usize) -> Data<'a> {
        Data { r, cfg: cfg.clone(), m: Model::new(cfg, push), out: vec![], cuts: vec![], cost: cost(cfg), budget }
    }
    fn put(&mut self, b: u8) -> bool {
        self.budget = self.budget.saturating_sub(self.cost);
        let c = self.m.step(b);
        let hit = match c {
            Cut::No => false,
            Cut::After => {
                self.cuts.push(self.out.len() + 1);
                true
            }
            Cut::Before => {
                self.cuts.push(self.out.len());
                true
            }
        };
        self.out.push(b);
        hit
    }
    fn spent(&self) -> bool {
        self.budget == 0
    }
    fn random(&mut self, n: usize) {
        for _ in 0..n {
            if self.spent() {
                return;
            }
            let b = self.r.byte();
            self.put(b);
        }
    }
    fn avoid(&mut self, n: usize, alphabet: &[u8]) {
        for _ in 0..n {
            if self.spent() {
                return;
            }
            let mut b = self.r.pick(alphabet);
            for k in 0..12 {
                if self.m.peek(b) == Cut::No {
                    break;
                }
                b = if k < 4 { self.r.pick(alphabet) } else { self.r.byte() };
            }
            self.put(b);
        }
    }
    /// Bytes until one triggers, at most `tries` positions.
    fn seek(&mut self, tries: usize) -> bool {
        if let Cfg::Zstd { size } = self.cfg.resolved() {
            return self.seek_zstd(size);
        }
        if let Cfg::ZpaqAvg { p, .. } = self.cfg.resolved() {
            if self.r.chance(1, 400) && self.seek_zpaq(p) {
                return true;
            }
        }
        for _ in 0..tries {
            if self.spent() {
                return false;
            }
            let o = self.r.byte();
            let mut found = None;
            for d in 0..=255u8 {
                let b = o.wrapping_add(d);
                if self.m.peek(b) != Cut::No {
                    found = Some(b);
                    break;
                }
            }
            self.budget = self.budget.saturating_sub(self.cost * 64);
            match found {
                Some(b) => {
                    self.put(b);
                    return true;
                }
                None => {
                    self.put(o);
                }
            }
        }
        false
    }
    /// Four unpredicted bytes that bring zpaq's hash to its threshold, or as close below as it gets.
    fn seek_zpaq(&mut self, p: u8) -> bool {
        const M: u32 = 271828182;
        if p >= 32 {
            return false;
        }
        let t = (1u32 << (32 - p as u32)).wrapping_sub(self.r.pick(&[0u32, 0, 2]));
        // the inverse of M / 2, by Newton's method
        let mut inv = M / 2;
        for _ in 0..5 {
            inv = inv.wrapping_mul(2u32.wrapping_sub((M / 2).wrapping_mul(inv)));
        }
        let before = |t: u32, b: u32| -> [u32; 2] {
            let x = (t / 2).wrapping_mul(inv);
            [0, 1 << 31].map(|k| (x & 0x7fff_ffff | k).wrapping_sub(b + 1))
        };
        let (h, last, pred) = self.m.zpaq();
        let mut there: Vec<(u32, u8, u8)> = vec![];
        for a in 0..=255u8 {
            let ha = h.wrapping_add(a as u32 + 1).wrapping_mul(M);
            for b in 0..=255u8 {
                there.push((ha.wrapping_add(b as u32 + 1).wrapping_mul(M), a, b));
            }
        }
        there.sort_unstable();
        let mut found = vec![];
        for d in 0..=255u8 {
            for x in before(t, d as u32) {
                if x % 2 != 0 {
                    continue;
                }
                for c in 0..=255u8 {
                    for y in before(x, c as u32) {
                        let i = there.partition_point(|e| e.0 < y);
                        if let Some(&(v, a, b)) = there.get(i) {
                            if v == y && a != pred[last as usize] && b != pred[a as usize] && c != pred[b as usize] && d != pred[c as usize] {
                                found.push([a, b, c, d]);
                            }
                        }
                    }
                }
            }
        }
        if found.is_empty() {
            return false;
        }
        for b in self.r.pick(&found) {
            self.put(b);
        }
        true
    }
    fn seek_zstd(&mut self, size: u64) -> bool {
        // with 29, the first window of the stream is the one that matches
        let least = 30 - self.r.below(2);
        while self.out.len() < least {
            let b = self.r.byte();
            self.put(b);
        }
        let mb = size >> 20;
        let mask = (1u64 << (63 - mb.leading_zeros() + 20)) - 1;
        // now and then a near miss: every bit but the highest
        let goal = if self.r.chance(1, 3) { mask >> 1 } else { mask };
        for _ in 0..4 {
            let n = self.out.len();
            let mut h = 0u64;
            for &x in &self.out[n - 29..] {
                h = h.wrapping_mul(P).wrapping_add(x as u64 + 10);
            }
            let (oa, ob) = (self.r.byte(), self.r.byte());
            for a in 0..=255u8 {
                let a = a.wrapping_add(oa);
                let ha = h.wrapping_mul(P).wrapping_add(a as u64 + 10);
                for b in 0..=255u8 {
                    let b = b.wrapping_add(ob);
                    let v = ha.wrapping_mul(P).wrapping_add(b as u64 + 10).wrapping_mul(P);
                    let c = goal.wrapping_sub(10).wrapping_sub(v) & mask;
                    if c < 256 {
                        self.put(a);
                        self.put(b);
                        self.put(c as u8);
                        return true;
                    }
                }
            }
            let b = self.r.byte();
            self.put(b);
        }
        false
    }
    fn last_cut(&self) -> usize {
        self.cuts.last().copied().unwrap_or(0)
    }
    fn lengths_of_interest(&mut self) -> usize {
        let (lo, hi) = self.cfg.limits();
        let w = self.cfg.scale().max(1);
        let mut v = vec![w, 2 * w, w / 2 + 1, self.cfg.window().unwrap_or(w)];
        if let Some(l) = lo.filter(|l| *l < 1 << 21) {
            v.push(l as usize);
            v.push(l as usize);
        }
        if let Some(h) = hi {
            if h < 1 << 21 {
                v.push(h as usize);
                v.push(h as usize);
            }
        }
        if let Cfg::Fast { norm, .. } = self.cfg.resolved() {
            v.push(norm.min(1 << 21) as usize);
        }
        v.retain(|n| *n <= 1 << 22);
        let x = self.r.pick(&v);
        (x + self.r.range(0, 4)).saturating_sub(2)
    }
    fn segment(&mut self, kind: usize, room: usize) {
        let s = self.cfg.scale().max(4);
        match kind {
            0 => {
                let n = self.r.log((4 * s).max(64));
                self.random(n.min(room));
            }
            1 => {
                let mut b = self.r.byte();
                if self.r.chance(1, 2) {
                    b = self.r.pick(&[0, 255, 1, 254, 128]);
                }
                let n = self.r.log(4 * s).min(room);
                for _ in 0..n {
                    if self.spent() {
                        return;
                    }
                    self.put(b);
                }
            }
            2 => {
                let k = self.r.range(2, 4);
                let a: Vec<u8> = (0..k).map(|_| self.r.byte()).collect();
                let n = self.r.log(4 * s).min(room);
                for _ in 0..n {
                    if self.spent() {
                        return;
                    }
                    let b = self.r.pick(&a);
                    self.put(b);
                }
            }
            3 => {
                let mut b = self.r.byte();
                let st = self.r.pick(&[1u8, 1, 1, 255, 2, 3, 254]);
                let mut n = self.r.log(200.min(room.max(1)));
                let mut st = st;
                if let Cfg::Mii { w } = self.cfg.resolved() {
                    if w > 100 && self.r.chance(2, 3) {
                        // the longest rises there are
                        b = self.r.below(4) as u8;
                        n = 252 + self.r.below(6);
                        st = 1;
                    }
                }
                for _ in 0..n {
                    if self.spent() {
                        return;
                    }
                    self.put(b);
                    b = b.wrapping_add(st);
                }
            }
            4 => {
                self.seek(48);
            }
            5 => {
                // triggers packed closely behind a boundary
                for _ in 0..self.r.range(2, 5) {
                    if self.out.len() >= room + s * 64 || !self.seek(24) {
                        break;
                    }
                }
            }
            6 => {
                let n = self.r.log(8 * s).min(room);
                let a = self.alphabet();
                self.avoid(n, &a);
            }
            7 => {
                // an earlier piece again
                let l = self.out.len();
                if l > 0 {
                    let a = self.r.below(l);
                    let n = self.r.log((l - a).min(4 * s).max(1)).min(room).min(l - a);
                    for i in a..a + n {
                        if self.spent() {
                            return;
                        }
                        let b = self.out[i];
                        self.put(b);
                    }
                }
            }
            8 => {
                // the bytes that led to the latest boundary, right after it
                let c = self.last_cut();
                let w = (self.cfg.window().unwrap_or(16).saturating_add(self.r.range(0, 2))).min(c).min(room);
                let off = self.r.below(3).min(c - w);
                for i in c - w - off..c - off {
                    if self.spent() {
                        return;
                    }
                    let b = self.out[i];
                    self.put(b);
                }
            }
            9 => {
                // quiet up to an interesting chunk length, then a trigger as soon as possible
                let to = self.lengths_of_interest();
                let a = self.alphabet();
                while self.out.len() - self.last_cut() < to && self.out.len() < room + 3 * to {
                    if self.spent() {
                        return;
                    }
                    let before = self.cuts.len();
                    self.avoid(1, &a);
                    if self.cuts.len() != before {
                        break;
                    }
                }
                if self.r.chance(3, 4) {
                    self.seek(6);
                }
            }
            _ => {
                // the latest whole chunk again and again
                let n = self.cuts.len();
                if n >= 2 {
                    let (a, b) = (self.cuts[n - 2], self.cuts[n - 1]);
                    let reps = if self.r.chance(1, 6) { self.r.range(200, 1500) } else { self.r.range(2, 30) };
                    for _ in 0..reps {
                        if self.spent() || self.out.len() > room + 60_000 {
                            return;
                        }
                        for i in a..b {
                            let x = self.out[i];
                            self.put(x);
                        }
                    }
                }
            }
        }
    }
    fn alphabet(&mut self) -> Vec<u8> {
        match self.r.below(4) {
            0 => {
                let b = self.r.byte();
                vec![b]
            }
            1 => (0..3).map(|_| self.r.byte()).collect(),
            _ => (0..=255).collect(),
        }
    }
    pub fn fill(&mut self, target: usize, swarm: &[usize]) {
        while self.out.len() < target && !self.spent() {
            let k = self.r.pick(swarm);
            let room = target - self.out.len();
            let before = self.out.len();
            self.segment(k, room);
            if self.out.len() == before {
                self.random(1 + room.min(3));
            }
        }
    }
}
pub fn swarm(r: &mut Rng) -> Vec<usize> {
    let mut v = vec![];
    for k in 0..11usize {
        if r.chance(1, 2) {
            v.push(k);
            if matches!(k, 4 | 5 | 9) {
                v.push(k);
            }
        }
    }
    if v.is_empty() {
        v = (0..11).collect();
    }
    if r.chance(3, 4) {
        v.push(4);
    }
    v
}
/// Typical object length for a configuration.
pub fn object_len(r: &mut Rng, cfg: &Cfg, big: bool) -> usize {
    let c = cfg.resolved();
    let base = match &c {
        Cfg::Gzip { w, .. } => 1500 + 3 * w,
        Cfg::Fast { min, max, .. } => (600 + 3 * (*max).min(1 << 20) as usize + 5 * (*min).min(1 << 20) as usize).min(160_000),
        Cfg::Ram { .. } => 600 + 6 * c.scale(),
        Cfg::ZpaqPow { .. } | Cfg::ZpaqAvg { .. } | Cfg::ZpaqRange { .. } | Cfg::ZpaqMax { .. } => {
            let (lo, hi) = c.limits();
            let l = lo.unwrap_or(0).min(1 << 20) as usize;
            let h = hi.unwrap_or(0).min(1 << 20) as usize;
            (600 + 4 * l + if h < 40_000 || r.chance(1, 4) { 2 * h } else { 0 }).min(1_400_000)
        }
        Cfg::Buz { k, max, .. } => 900 + 4 * k + if *max < 5000 { 3 * *max as usize } else { 0 },
        Cfg::Bup { w } => 900 + 4 * w,
        Cfg::Pigz { .. } | Cfg::Gear { .. } | Cfg::Zstd { .. } => 2000,
        _ => 800,
    };
    match r.below(16) {
        0 => r.below(4),
        1 | 2 => r.log(200),
        3 | 4 if big => base * r.range(4, 30),
        _ => base / 2 + r.below(base),
    }
}
/// An object that takes counters past 16 (rarely 20 or 24) bits: one very long open chunk, or very
/// many boundaries.
fn jumbo(r: &mut Rng, cfg: &Cfg, push: bool) -> (Vec<u8>, Vec<usize>) {
    let sw = swarm(r);
    let head = r.log(1500);
    let mut len = match r.below(8) {
        0..=3 => 65_500 + r.below(80),
        4 => 131_000 + r.below(200),
        _ => r.range(66_000, 160_000),
    };
    let huge = r.chance(1, 25);
    if huge && cost(cfg) < 10 {
        len = (1 << 20) + r.below(4000);
    }
    if let Cfg::Buz { max, .. } = cfg.resolved() {
        if max == 1 << 24 && r.chance(1, 8) {
            len = (1 << 24) + r.below(40);
        }
    }
    let tail = r.range(50, 1500);
    let many = len < 200_000 && r.chance(1, 3);
    let mut d = Data::new(r, cfg, push, usize::MAX);
    d.fill(head, &sw);
    if many {
        d.segment(5, head + 100);
        d.segment(5, head + 300);
        if let Some(n) = d.cuts.len().checked_sub(2) {
            // the shortest chunk so far, again and again
            let k = (0..=n).min_by_key(|&k| d.cuts[k + 1] - d.cuts[k]).unwrap();
            let (a, b) = (d.cuts[k], d.cuts[k + 1]);
            while d.cuts.len() < 65_600 && d.out.len() < 400_000 {
                for i in a..b {
                    let x = d.out[i];
                    d.put(x);
                }
            }
        }
    } else {
        let a = if len > 1 << 19 { vec![d.r.byte()] } else { d.alphabet() };
        d.avoid(len, &a);
    }
    d.segment(4, 100);
    let n = d.out.len() + tail;
    d.fill(n, &sw);
    (d.out, d.cuts)
}
fn is_jumbo(r: &mut Rng, cfg: &Cfg, prop: &str) -> bool {
    let n = match (prop, cfg.resolved()) {
        ("C10" | "C16", Cfg::Buz { max, .. }) if max == 1 << 24 => 80,
        ("C11", _) => 60,
        ("C08", _) => 500,
        _ => 200,
    };
    r.chance(1, n)
}
pub fn object(r: &mut Rng, cfg: &Cfg, push: bool, big: bool, prop: &str) -> (Vec<u8>, Vec<usize>) {
    if is_jumbo(r, cfg, prop) {
        return jumbo(r, cfg, push);
    }
    plain_of(r, cfg, push, big)
}
/// An object of ordinary length.
pub fn plain(r: &mut Rng, cfg: &Cfg, push: bool) -> (Vec<u8>, Vec<usize>) {
    plain_of(r, cfg, push, false)
}
fn plain_of(r: &mut Rng, cfg: &Cfg, push: bool, big: bool) -> (Vec<u8>, Vec<usize>) {
    let n = object_len(r, cfg, big);
    let sw = swarm(r);
    let budget = if big { 12_000_000 } else { 4_000_000 };
    let calm = if r.chance(1, 25) { (1usize << r.range(11, 15)) + r.log(200) } else { 0 };
    let mut d = Data::new(r, cfg, push, budget);
    if calm > 0 {
        // one stretch without boundaries that takes a large read
        d.fill(n / 3, &sw);
        let a = d.alphabet();
        d.avoid(calm, &a);
        d.segment(4, 100);
        d.fill(calm + n, &sw);
    }
    d.fill(n, &sw);
    (d.out, d.cuts)
}

/// An object that goes on from `lead`.
pub fn after(r: &mut Rng, cfg: &Cfg, push: bool, lead: &[u8]) -> Vec<u8> {
    let len = object_len(r, cfg, false);
    let sw = swarm(r);
    let mut d = Data::new(r, cfg, push, 4_000_000);
    for &b in lead {
        d.put(b);
    }
    d.budget = 4_000_000;
    d.fill(lead.len() + len, &sw);
    d.out.split_off(lead.len())
}

// ---- schedules -------------------------------------------------------------------------------
#[derive(Clone, Copy, Default, Debug)]
pub struct Mix {
    pub crash: usize,
    pub snap: usize,
    pub roll: usize,
    pub branch: usize,
    pub inspect: usize,
    pub trunc: usize,
    pub abandon: usize,
    pub recreate: usize,
    pub slices: usize,
    pub poll: usize,
    pub empty: usize,
    pub drain: usize,
    pub hand: usize,
}
fn piece(r: &mut Rng, style: usize, cfg: &Cfg, at: usize, len: usize, cuts: &[usize]) -> usize {
    let w = cfg.scale().max(1);
    let left = len - at.min(len);
    match style {
        0 => 1,
        1 => r.range(1, 4),
        2 => (r.pick(&[w, w + 1, w.saturating_sub(1), 2 * w, w / 2, 2 * w + 1, 3 * w]) + r.below(2)).max(1),
        3 => {
            // end exactly on, just before or just after a boundary
            let nx = cuts.partition_point(|&c| c <= at);
            let k = nx + r.below(2);
            match cuts.get(k) {
                // around where the window that decides it begins
                Some(&c) if r.chance(1, 5) && c > at + w => (c + r.range(0, 2)).saturating_sub(at + w + 1).max(1),
                Some(&c) => (c + r.range(0, 2)).saturating_sub(at + 1).max(1),
                None => r.range(1, left.max(1)),
            }
        }
        4 => {
            let k = r.range(2, 12);
            r.range(1, (len / k).max(1))
        }
        5 => {
            let n = 1usize << if r.chance(1, 12) { r.range(14, 17) } else { r.range(0, 13) };
            match r.below(6) {
                0 => (n + r.range(0, 2)).saturating_sub(1).max(1),
                // with what is kept from before
                1 => n.saturating_sub(cfg.carry()).max(1),
                // the open chunk gets that long
                2 => {
                    let from = cuts[..cuts.partition_point(|&c| c <= at)].last().copied().unwrap_or(0);
                    (from + n + r.below(2)).saturating_sub(at).max(1)
                }
                _ => n,
            }
        }
        6 => left.max(1),
        7 => r.log(left.max(1)),
        _ => {
            let s = r.below(8);
            piece(r, s, cfg, at, len, cuts)
        }
    }
}
/// One session's operations, in order.
pub fn ops(r: &mut Rng, cfg: &Cfg, iface: Iface, len: usize, cuts: &[usize], mx: &Mix, max_steps: usize) -> Vec<Op> {
    let long = std::iter::once(&0).chain(cuts).zip(cuts).any(|(a, b)| b - a > 2000);
    let style = if long && r.chance(1, 3) {
        3
    } else if len > 60_000 && r.chance(2, 3) { r.pick(&[3usize, 4, 4, 6, 7, 8]) } else { r.below(10) };
    let mut v = vec![];
    let mut at = 0usize;
    let mut over = 0;
    let drain = if mx.drain > 0 { mx.drain } else { r.pick(&[0usize, 20, 60, 100]) };
    while v.len() < max_steps {
        if at >= len {
            over += 1;
            if over > 3 {
                break;
            }
        }
        // faults
        if r.chance(mx.crash, 100) {
            let j = match r.below(4) {
                0 => 0,
                1 => r.below(cuts.len() + 2),
                _ => r.below(4),
            };
            v.push(Op::C(j));
            // roughly where it resumes
            let done = cuts.partition_point(|&c| c <= at);
            at = if j < done { cuts[done - 1 - j] } else { 0 };
        }
        if r.chance(mx.snap, 100) {
            v.push(Op::K);
        }
        if r.chance(mx.roll, 100) {
            v.push(Op::R(r.below(6)));
            at = r.below(at + 1);
        }
        if r.chance(mx.branch, 100) {
            let n = piece(r, 8, cfg, at, len, cuts);
            v.push(Op::V(r.below(6), n));
        }
        if r.chance(mx.inspect, 100) {
            v.push(Op::I);
        }
        if r.chance(mx.recreate, 100) {
            v.push(if r.chance(1, 2) { Op::G } else { Op::H });
        }
        if iface == Iface::Push && mx.hand > 0 && cfg.algo() == Algo::Mii && r.chance(mx.hand, 100) {
            v.push(Op::M);
        }
        if r.chance(mx.empty, 100) {
            v.push(Op::D(0));
        }
        if r.chance(mx.poll, 100) {
            v.push(Op::P(match r.below(4) {
                0 => 0,
                1 => 1,
                2 => r.range(1, 9),
                _ => r.log(4000),
            }));
        }
        if v.len() > 2 && r.chance(mx.abandon, 300) {
            v.push(Op::A);
            break;
        }
        if v.len() > 2 && r.chance(mx.trunc, 100) {
            v.push(Op::T);
            break;
        }
        let n = piece(r, style, cfg, at, len, cuts);
        if iface == Iface::Push && r.chance(mx.slices, 100) {
            let take = match r.below(5) {
                0 => 0,
                1 => 1,
                2 => r.range(1, 6),
                _ => 1 << 30,
            };
            let kind = r.pick(&[ItKind::Loose, ItKind::Strict, ItKind::StrictTake]);
            let pull = r.pick(&PULLS);
            v.push(Op::It(n, take, kind, pull));
            at += n;
            continue;
        }
        if n <= 4 && r.chance(1, 6) {
            // a long trickle
            let tot = r.log(len.max(1)).min(4000);
            v.push(Op::B(tot, n));
            at += tot;
            continue;
        }
        if at < len && r.chance(1, 14) {
            // by way of one buffer that is kept full
            let least = if iface == Iface::Fce { cfg.carry() } else { 0 };
            let k = match r.below(6) {
                0 => least + 1 + r.below(4),
                1 | 2 => (1 << r.range(6, 14)).max(least + 1),
                3 => least + 1 + r.log(20_000),
                4 => n.max(least + 1),
                _ => least + r.range(100, 5000),
            };
            // what goes through memory for it is bounded
            let tot = r.log(len - at).max((len - at) / 4).min((k - least).saturating_mul(2_000_000 / k.max(1)).max(1));
            v.push(Op::F(tot, k, r.chance(1, 3)));
            at += tot;
            continue;
        }
        v.push(Op::D(n));
        at += n;
        if r.chance(drain, 100) {
            v.push(Op::X);
        }
    }
    v
}
/// Merge the sessions' operations by their simulated times.
pub fn merge(r: &mut Rng, lists: Vec<Vec<Op>>, threads: bool) -> Vec<Step> {
    let n = lists.len();
    let mut clock: Vec<u64> = (0..n).map(|_| r.log(5000) as u64).collect();
    let pace: Vec<usize> = (0..n).map(|_| r.pick(&[10usize, 200, 200, 3000])).collect();
    let mut its: Vec<std::vec::IntoIter<Op>> = lists.into_iter().map(|l| l.into_iter()).collect();
    let mut live: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !live.is_empty() {
        let k = (0..live.len()).min_by_key(|&i| (clock[live[i]], live[i])).unwrap();
        let s = live[k];
        match its[s].next() {
            None => {
                live.swap_remove(k);
            }
            Some(op) => {
                let w = if threads { r.below(4) as u8 } else { 0 };
                out.push(Step { t: clock[s], w, s, op });
                // latency, with the odd stall
                clock[s] += if r.chance(1, 25) { r.log(2_000_000) as u64 } else { 1 + r.below(pace[s]) as u64 };
            }
        }
    }
    out
}

fn algo_for(r: &mut Rng, prop: &str) -> Algo {
    match prop {
        "C07" => r.pick(&[Algo::Bup, Algo::Gzip, Algo::Pigz, Algo::Gear, Algo::Buz, Algo::Fast, Algo::Ram, Algo::Bup, Algo::Buz, Algo::Mii, Algo::Zpaq, Algo::Zstd]),
        "C09" => r.pick(&[Algo::Bup, Algo::Gzip, Algo::Pigz, Algo::Gear, Algo::Buz, Algo::Mii, Algo::Zstd, Algo::Bup, Algo::Buz, Algo::Fast, Algo::Ram, Algo::Zpaq]),
        "C10" => r.pick(&[Algo::Fast, Algo::Zpaq, Algo::Ram, Algo::Buz]),
        "C13" => r.pick(&[Algo::Bup, Algo::Gzip, Algo::Pigz, Algo::Gear, Algo::Buz, Algo::Zstd]),
        "C14" => r.pick(&[Algo::Fast, Algo::Ram, Algo::Mii, Algo::Zpaq]),
        _ => r.pick(&ALGOS),
    }
}
pub fn cfg_for(r: &mut Rng, prop: &str) -> Cfg {
    let a = algo_for(r, prop);
    let c = cfg::gen(r, a);
    if prop == "C16" && r.chance(1, 2) {
        if let Some(c) = cfg::gen_default(r, a) {
            return c;
        }
    }
    c
}
fn sess(r: &mut Rng, inst: usize, obj: usize, iface: Iface) -> Sess {
    Sess { inst, obj, iface, buf: r.pick(&[0u8, 0, 1, 1, 2]), from: r.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3]) }
}
fn other(i: Iface) -> Iface {
    if i == Iface::Fce {
        Iface::Push
    } else {
        Iface::Fce
    }
}

pub fn scenario(prop: &str, seed: u64, thorough: bool) -> Scenario {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut sc = Scenario { prop: prop.into(), ..Default::default() };
    let big = r.chance(1, if thorough { 12 } else { 40 });
    let flavour = r.chance(1, 2);
    let any = if r.chance(1, 2) { Iface::Fce } else { Iface::Push };
    let sometimes = |r: &mut Rng, p: usize| if r.chance(1, 2) { r.range(1, p) } else { 0 };
    let mut mx = Mix { poll: sometimes(r, 20), empty: sometimes(r, 15), inspect: if r.chance(1, 10) { 5 } else { 0 }, ..Default::default() };
    let steps = if r.chance(1, 12) { 300 } else { 60 };
    match prop {
        "C08" => return multi(r, sc, big),
        "C09" => return edited(r, sc, big),
        "C18" => return alike(r, sc),
        "C05" => {
            mx.hand = sometimes(r, 5);
            mx.crash = sometimes(r, 8);
            mx.snap = sometimes(r, 10);
            mx.roll = sometimes(r, 5);
            mx.branch = sometimes(r, 4);
            mx.trunc = sometimes(r, 3);
            mx.slices = sometimes(r, 40);
            mx.recreate = sometimes(r, 4);
            mx.inspect = sometimes(r, 6);
        }
        "C03" => {
            mx.recreate = sometimes(r, 4);
            mx.hand = sometimes(r, 8);
        }
        "C04" => {
            mx.slices = r.pick(&[50, 80, 100]);
            mx.crash = if r.chance(1, 4) { 3 } else { 0 };
            mx.trunc = if r.chance(1, 4) { 2 } else { 0 };
        }
        "C06" => {
            mx.crash = r.pick(&[2, 5, 12, 30]);
            mx.recreate = sometimes(r, 5);
        }
        "C07" => {
            mx.snap = r.pick(&[5, 15, 30]);
            mx.roll = r.pick(&[0, 3, 8, 20]);
            mx.branch = r.pick(&[0, 3, 8]);
            mx.inspect = r.pick(&[0, 10, 20]);
        }
        "C10" => {
            mx.crash = sometimes(r, 8);
            mx.slices = sometimes(r, 20);
        }
        "C11" => {
            mx.drain = 100;
            mx.crash = if r.chance(1, 4) { 3 } else { 0 };
        }
        "C12" => {
            mx.drain = 100;
            mx.trunc = r.pick(&[0, 2, 5]);
            mx.crash = if r.chance(1, 4) { 3 } else { 0 };
        }
        "C13" | "C14" => {
            mx.crash = sometimes(r, 10);
            mx.hand = sometimes(r, 5);
            mx.snap = sometimes(r, 6);
            mx.roll = sometimes(r, 4);
        }
        _ => {}
    }
    let cfg = cfg_for(r, prop);
    if prop == "C16" {
        mx.crash = sometimes(r, 4);
        mx.slices = sometimes(r, 20);
    }
    let (data, cuts) = object(r, &cfg, flavour, big, prop);
    let len = data.len();
    sc.parts.push(data);
    sc.objs.push(vec![0]);
    sc.insts.push(cfg.clone());
    if prop == "C16" {
        // the same chunker with its parameters spelled out gets the same schedule
        sc.insts.push(cfg.twin());
    }
    let ifaces: Vec<Iface> = match prop {
        "C01" => (0..r.range(1, 3)).map(|_| Iface::Fce).collect(),
        "C02" => (0..r.range(1, 3)).map(|_| Iface::Push).collect(),
        "C03" => vec![Iface::Fce, Iface::Push, Iface::Push],
        "C04" => (0..r.range(1, 2)).map(|_| Iface::Push).collect(),
        _ => {
            if r.chance(1, 2) {
                vec![any, other(any)]
            } else {
                vec![any]
            }
        }
    };
    let mut lists = vec![];
    for (i, &f) in ifaces.iter().enumerate() {
        sc.sess.push(sess(r, 0, 0, f));
        let mut m = mx;
        if prop == "C03" {
            m.slices = if i == 2 { 70 } else { 0 };
        }
        let l = if prop == "C11" { trickle(r, &cfg, len) } else { ops(r, &cfg, f, len, &cuts, &m, steps) };
        lists.push(l);
    }
    if prop == "C16" {
        for i in 0..lists.len() {
            let mut t = sc.sess[i].clone();
            t.inst = 1;
            sc.sess.push(t);
            lists.push(lists[i].clone());
        }
    }
    let th = r.chance(1, 20);
    sc.steps = merge(r, lists, th);
    sc
}
/// C11: a consumer that keeps no more than it must.
fn trickle(r: &mut Rng, cfg: &Cfg, len: usize) -> Vec<Op> {
    let mut v = vec![];
    let mut at = 0;
    while at < len && v.len() < 30 {
        let n = r.log(len).max(len / 20);
        let k = match r.below(5) {
            0 | 1 => 1,
            2 => r.range(1, 5),
            3 => cfg.carry().max(1) + r.below(3),
            _ => r.log(5000),
        };
        v.push(if r.chance(1, 5) { Op::F(n.min(40_000), cfg.carry() + k, r.chance(1, 2)) } else { Op::B(n, k) });
        at += n;
        if r.chance(1, 6) {
            v.push(Op::X);
            v.push(Op::P(0));
        }
        if r.chance(1, 8) {
            v.push(Op::C(r.below(3)));
        }
    }
    v
}
fn multi(r: &mut Rng, mut sc: Scenario, big: bool) -> Scenario {
    let hook = r.chance(3, 5);
    let ni = r.range(1, 4);
    for i in 0..ni {
        let c = if hook && i == 0 {
            loop {
                if let Cfg::Buz { k, mask, max, .. } = cfg::gen(r, Algo::Buz) {
                    break Cfg::Buz { k, mask, table: BuzTable::Hook, max };
                }
            }
        } else if i > 0 && r.chance(1, 2) {
            // a near twin of the previous one
            let a = sc.insts[i - 1].algo();
            if r.chance(1, 4) {
                sc.insts[i - 1].clone()
            } else {
                cfg::gen(r, a)
            }
        } else {
            cfg_for(r, "C08")
        };
        sc.insts.push(c);
    }
    let mut cuts = vec![];
    for i in 0..ni {
        let c = sc.insts[i].clone();
        let fl = r.chance(1, 2);
        let (d, k) = object(r, &c, fl, big && i == 0, "C08");
        sc.parts.push(d);
        sc.objs.push(vec![i]);
        cuts.push(k);
    }
    let ns = r.range(2, 7);
    let sometimes = |r: &mut Rng, p: usize| if r.chance(1, 2) { r.range(1, p) } else { 0 };
    let mx = Mix {
        crash: sometimes(r, 4),
        snap: sometimes(r, 6),
        roll: sometimes(r, 3),
        inspect: sometimes(r, 5),
        trunc: sometimes(r, 2),
        abandon: sometimes(r, 10),
        recreate: sometimes(r, 6),
        slices: sometimes(r, 30),
        poll: sometimes(r, 15),
        empty: sometimes(r, 10),
        branch: sometimes(r, 2),
        drain: 0,
        hand: 3,
    };
    let mut lists = vec![];
    for _ in 0..ns {
        let inst = r.below(ni);
        let obj = if r.chance(3, 4) { inst } else { r.below(ni) };
        let iface = if r.chance(1, 2) { Iface::Fce } else { Iface::Push };
        sc.sess.push(sess(r, inst, obj, iface));
        let c = sc.insts[inst].clone();
        let len = sc.parts[obj].len();
        let st = if r.chance(1, 6) { 80 } else { 25 };
        lists.push(ops(r, &c, iface, len, &cuts[obj], &mx, st));
    }
    let th = r.chance(1, 2);
    let steps = merge(r, lists, th);
    // callback faults on the streams whose byte hash is ours
    let nest = r.pick(&[0usize, 20, 40]);
    let pan = r.pick(&[0usize, 0, 4, 10]);
    let mut out: Vec<Step> = vec![];
    let mut it = steps.into_iter().peekable();
    while let Some(mut s) = it.next() {
        let hooked = matches!(sc.insts[sc.sess[s.s].inst], Cfg::Buz { table: BuzTable::Hook, .. });
        let callable = matches!(s.op, Op::D(_) | Op::B(..) | Op::F(..) | Op::X | Op::It(..));
        if hooked && callable {
            if r.chance(pan, 100) {
                s.op = Op::Panic(r.log(60) as u32 - 1, Box::new(s.op.clone()));
            } else if r.chance(nest, 100) {
                if let Some(nx) = it.peek() {
                    if nx.s != s.s && !matches!(nx.op, Op::G | Op::H) {
                        let mut nx = it.next().unwrap();
                        if r.chance(pan, 50) && matches!(sc.insts[sc.sess[nx.s].inst], Cfg::Buz { table: BuzTable::Hook, .. }) {
                            nx.op = Op::Panic(r.log(60) as u32 - 1, Box::new(nx.op));
                        }
                        s.op = Op::Nest(r.log(60) as u32 - 1, Box::new(s.op.clone()), nx.s, Box::new(nx.op));
                    }
                }
            }
        }
        out.push(s);
    }
    sc.steps = out;
    sc
}
/// C09: two copies of a stream, one damaged.
fn edited(r: &mut Rng, mut sc: Scenario, big: bool) -> Scenario {
    let mut cfg = cfg_for(r, "C09");
    if let Cfg::Buz { max, .. } = &mut cfg {
        if r.chance(3, 4) {
            *max = u64::MAX;
        }
    }
    let fl = r.chance(1, 2);
    let sw = swarm(r);
    let n = object_len(r, &cfg, big);
    let edits = r.range(1, 3);
    let w = cfg.scale().max(4);
    let (mut a, mut b) = (vec![], vec![]);
    let long = r.chance(1, 300);
    let mut d = Data::new(r, &cfg, fl, if long { usize::MAX } else { 4_000_000 });
    d.fill(if n % 3 == 0 { n % 200 } else { n / 3 }, &sw);
    let mut from = 0;
    // shared part
    let push = |sc: &mut Scenario, v: Vec<u8>| -> usize {
        sc.parts.push(v);
        sc.parts.len() - 1
    };
    for e in 0..edits {
        let p = push(&mut sc, d.out[from..].to_vec());
        a.push(p);
        b.push(p);
        from = d.out.len();
        let kind = d.r.below(5);
        match kind {
            0 => {
                // flipped bits
                let k = d.r.log(12);
                d.random(k);
                let x = d.out[from..].to_vec();
                let mut y = x.clone();
                for v in y.iter_mut() {
                    *v ^= 1 << d.r.below(8);
                }
                let (px, py) = (push(&mut sc, x), push(&mut sc, y));
                a.push(px);
                b.push(py);
            }
            1 => {
                // lost bytes
                let k = d.r.log(3 * w);
                d.random(k);
                let x = d.out[from..].to_vec();
                let px = push(&mut sc, x);
                a.push(px);
            }
            2 => {
                // inserted bytes
                let k = d.r.log(3 * w);
                let y: Vec<u8> = (0..k).map(|_| d.r.byte()).collect();
                let py = push(&mut sc, y);
                b.push(py);
            }
            3 => {
                // a stretch delivered twice
                let l = d.out.len();
                let k = d.r.log(l.clamp(1, 2 * w)).min(l);
                let y = d.out[l - k..].to_vec();
                let py = push(&mut sc, y);
                b.push(py);
            }
            _ => {
                // replaced
                let k = d.r.log(2 * w);
                d.random(k);
                let x = d.out[from..].to_vec();
                let k2 = d.r.log(2 * w);
                let y: Vec<u8> = (0..k2).map(|_| d.r.byte()).collect();
                let (px, py) = (push(&mut sc, x), push(&mut sc, y));
                a.push(px);
                b.push(py);
            }
        }
        from = d.out.len();
        // what follows the edit: quiet for a while, then triggers
        let rest = if e + 1 == edits { n } else { n / 3 };
        let target = d.out.len() + rest / 2 + 1;
        let k = if d.r.chance(1, 2) { 9 } else { 6 };
        d.segment(k, 4 * w);
        if long {
            d.avoid(65_600, &(0..=255).collect::<Vec<u8>>());
        }
        d.fill(target, &sw);
        d.segment(9, 4 * w);
    }
    let tail = d.out[from..].to_vec();
    let cuts = d.cuts.clone();
    let p = push(&mut sc, tail);
    a.push(p);
    b.push(p);
    sc.objs = vec![a, b];
    sc.insts.push(cfg.clone());
    let iface = if r.chance(1, 2) { Iface::Fce } else { Iface::Push };
    let mx = Mix { poll: 3, empty: 3, crash: if r.chance(1, 3) { 4 } else { 0 }, recreate: 1, ..Default::default() };
    let mut lists = vec![];
    for o in 0..2 {
        sc.sess.push(sess(r, 0, o, iface));
        let len = sc.objs[o].iter().map(|&p| sc.parts[p].len()).sum();
        lists.push(ops(r, &cfg, iface, len, &cuts, &mx, 40));
    }
    sc.steps = merge(r, lists, false);
    sc
}
/// Two endings for the past `p` that leave different hashes agreeing in the bits of a random mask.
fn near(r: &mut Rng, cfg: &Cfg, push: bool, p: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let e = r.range(2, 9).min(p.len());
    let cut = p.len() - e;
    let mut base = crate::model::Model::new(cfg, push);
    for &b in &p[..cut] {
        base.step(b);
    }
    let wide = match cfg.algo() {
        Algo::Fast | Algo::Zstd | Algo::Bup => 64,
        _ => 32,
    };
    // how many bits agree: more take more endings
    let big = r.chance(1, 12);
    let s = if big { r.pick(&[28, 30, 31, 32]) } else { r.pick(&[4, 8, 8, 10, 12, 13, 15, 16, 16, 18, 20, 24, 24]) };
    let low = (1u64 << s) - 1;
    let all = if wide == 64 { !0 } else { 0xffff_ffff };
    let mask = match (cfg, r.below(5)) {
        (Cfg::Fast { .. }, 0) => crate::model::MASK_S,
        (Cfg::Fast { .. }, 1) => crate::model::MASK_L,
        (Cfg::Fast { .. }, 2) => crate::model::MASK_L & crate::model::MASK_S,
        (Cfg::Buz { mask, .. }, 0) => *mask as u64,
        (Cfg::Bup { .. }, 0) => 0x1fff,
        (Cfg::Bup { .. }, 1) => low << 32,
        (Cfg::Gear { log2 }, 0) => all & !(all >> *log2),
        (_, 0..=2) => low,
        // the top bits
        _ => all & !(all >> s.min(31)),
    };
    let n = if big { 1 << 16 } else if s > 20 { 1 << 13 } else { 1 << r.range(9, 12) };
    let mut seen = std::collections::HashMap::new();
    for _ in 0..n {
        let mut m = base.clone();
        let t: Vec<u8> = (0..e).map(|_| r.byte()).collect();
        if t.iter().any(|&b| m.step(b) != crate::model::Cut::No) {
            continue;
        }
        let d = m.digest();
        match seen.get(&(d & mask)) {
            Some((o, u)) if *o != d => {
                let f = |x: &Vec<u8>| [&p[..cut], &x[..]].concat();
                return Some((f(u), f(&t)));
            }
            Some(_) => {}
            None => {
                seen.insert(d & mask, (d, t));
            }
        }
    }
    None
}
/// The past `p` with its open chunk longer by `n` bytes and the same end.
fn lap(r: &mut Rng, cfg: &Cfg, push: bool, p: &[u8], last: usize, n: usize) -> Option<Vec<u8>> {
    use crate::model::Cut;
    let keep = (p.len() - last).min(cfg.window().unwrap_or(64).max(64));
    let keep = if r.chance(1, 2) { keep } else { r.below(p.len() - last + 1) };
    let cut = p.len() - keep;
    let mut m = crate::model::Model::new(cfg, push);
    for &b in &p[..cut] {
        m.step(b);
    }
    // small bytes, or some of the open chunk
    let mut few = vec![0, r.byte()];
    if let Some(x) = p[last..].iter().min() {
        few.push(*x);
        few.push(p[r.range(last, p.len() - 1)]);
    }
    few.remove(r.below(few.len()));
    let mut v = p[..cut].to_vec();
    for _ in 0..n {
        let b = if r.chance(1, 50) { r.pick(&few) } else { few[0] };
        let b = std::iter::once(b).chain(few.iter().copied()).find(|b| m.peek(*b) == Cut::No)?;
        m.step(b);
        v.push(b);
    }
    for &b in &p[cut..] {
        if m.step(b) != Cut::No {
            return None;
        }
    }
    v.extend(&p[cut..]);
    Some(v)
}
/// Bytes that only one of two streams has a boundary in, if there are any within reach.
fn telling(r: &mut Rng, cfg: &Cfg, push: bool, a: &[u8], b: &[u8]) -> Vec<u8> {
    let [mut x, mut y] = [a, b].map(|p| {
        let mut m = crate::model::Model::new(cfg, push);
        for &b in p {
            m.step(b);
        }
        m
    });
    let mut v = vec![];
    while v.len() < 100 {
        let o = r.byte();
        let mut calm = None;
        let mut pick = None;
        for i in 0..=255u8 {
            let c = i ^ o;
            let (p, q) = (x.peek(c), y.peek(c));
            if p != q {
                pick = Some(c);
                break;
            }
            if p == crate::model::Cut::No && calm.is_none() {
                calm = Some(c);
            }
        }
        let c = pick.or(calm).unwrap_or(o);
        v.push(c);
        if pick.is_some() {
            return v;
        }
        x.step(c);
        y.step(c);
    }
    v
}
/// Change bytes of the last window without changing its buzhash: a linear dependency among the
/// differences that single changes make.
fn collide(r: &mut Rng, cfg: &Cfg, p: &mut [u8], w: usize) {
    let l = p.len();
    let oldest = w.min(l);
    let from = if oldest > 40 { r.below(oldest - 36) } else { 0 };
    let mut rows: Vec<(u32, u64)> = vec![];
    let mut picks: Vec<(usize, u8)> = vec![];
    while picks.len() < 48 {
        let age = from + r.below(oldest - from);
        let x = r.byte();
        let at = l - 1 - age;
        if picks.iter().any(|y| y.0 == at) || p[at] == x {
            if picks.len() >= oldest - from || r.chance(1, 50) {
                return;
            }
            continue;
        }
        let mut v = (crate::tables::GO[p[at] as usize] ^ crate::tables::GO[x as usize]).rotate_left((age % 32) as u32);
        let mut m = 1u64 << picks.len();
        picks.push((at, x));
        for &(rv, rm) in &rows {
            if v ^ rv < v {
                v ^= rv;
                m ^= rm;
            }
        }
        if v == 0 {
            for (i, &(at, x)) in picks.iter().enumerate() {
                if m >> i & 1 == 1 {
                    p[at] = x;
                }
            }
            debug_assert!(matches!(cfg, Cfg::Buz { .. }));
            return;
        }
        rows.push((v, m));
        rows.sort_by(|a, b| b.0.cmp(&a.0));
    }
}
/// C18: streams whose pasts differ in ways that states may or may not tell apart, and whose futures
/// are the same.
fn alike(r: &mut Rng, mut sc: Scenario) -> Scenario {
    let a = r.pick(&[Algo::Bup, Algo::Bup, Algo::Buz, Algo::Buz, Algo::Buz, Algo::Gear, Algo::Gear, Algo::Ram, Algo::Ram, Algo::Fast, Algo::Fast, Algo::Fast, Algo::Zstd, Algo::Zstd, Algo::Pigz, Algo::Gzip, Algo::Zpaq, Algo::Mii]);
    let mut cfg = cfg::gen(r, a);
    if let Cfg::Buz { table, .. } = &mut cfg {
        // the callback's type can be compared
        *table = BuzTable::Hook;
    }
    if let (Cfg::Buz { k, mask, max, .. }, true) = (&mut cfg, r.chance(1, 2)) {
        // windows long enough for different ones of the same hash
        *k = r.range(34, 130);
        *max = u64::MAX;
        *mask = 0;
        for _ in 0..r.range(4, 7) {
            *mask |= 1 << r.below(32);
        }
    }
    sc.insts.push(cfg.clone());
    if r.chance(2, 3) {
        let n = r.range(1, 3);
        for _ in 0..n {
            let c = cfg::tweak(r, &cfg);
            sc.insts.push(c);
        }
    }
    let iface = if r.chance(1, 3) { Iface::Fce } else { Iface::Push };
    let (mut data, mut cuts) = object(r, &cfg, iface == Iface::Push, false, "C18");
    let (w, mut len) = (cfg.window().filter(|w| *w < 1 << 20).unwrap_or(64).max(4), data.len());
    let nc = cuts.len();
    // within a chunk longer than the window
    let long: Vec<(usize, usize)> = std::iter::once(0)
        .chain(cuts.iter().copied())
        .zip(cuts.iter().copied().chain([len]))
        .filter(|(a, b)| b - a > w + 1)
        .collect();
    let q = match r.below(6) {
        4 if !long.is_empty() => {
            let (a, b) = r.pick(&long);
            a + w + 1 + r.below(b - a - w)
        }
        // few bytes in, boundaries soon after
        5 if nc > 0 => (cuts[0] - cuts[0].min(w + 1) + r.below(3)).min(len),
        0 if nc > 0 => (cuts[r.below(nc)] + r.log(w) - 1).min(len),
        1 if nc > 0 => (cuts[r.below(nc)] + r.log(2 * w)).min(len),
        _ => r.below(len + 1),
    };
    let last = cuts[..cuts.partition_point(|&c| c <= q)].last().copied().unwrap_or(0);
    let nv = r.range(2, 6);
    let hashes = !matches!(a, Algo::Ram | Algo::Mii);
    let twins = if hashes && q > 1 && q < 20_000 && r.chance(1, 5) { near(r, &cfg.resolved(), iface == Iface::Push, &data[..q]) } else { None };
    // lengths that narrow counters cannot tell apart
    let lapped = if twins.is_none() && q > 0 && q < 20_000 && r.chance(1, 6) {
        let n = match r.below(8) {
            0 => r.pick(&[1 << 16, 1 << 16, 1 << 16, 1 << 17, 1 << 15]),
            1..=3 => 256,
            4 => w,
            5 => 2 * w,
            _ => 1 << r.range(3, 13),
        };
        lap(r, &cfg.resolved(), iface == Iface::Push, &data[..q], last.min(q), n)
    } else {
        None
    };
    let mut pasts: Vec<Vec<u8>> = vec![];
    for i in 0..nv {
        let mut p = data[..q].to_vec();
        if let (1, Some(l)) = (i, &lapped) {
            p.clone_from(l);
        }
        if let Some((a, b)) = &twins {
            p.clone_from(if i % 2 == 0 { a } else { b });
        }
        let times = if i == 0 || (twins.is_some() || lapped.is_some()) && i == 1 { 0 } else { r.range(0, 2) };
        for _ in 0..times {
            let l = p.len();
            // positions counted back from the end, mostly in the last window
            let back = |r: &mut Rng, l: usize| -> usize { l - 1 - (if r.chance(4, 5) { r.below(w + 2) } else { r.log(l) }).min(l - 1) };
            let hashed = matches!(cfg, Cfg::Buz { k, .. } if k > 33);
            match if hashed && r.chance(1, 3) { 10 } else { r.below(11) } {
                9 => p = vec![0; r.below(w + 2)],
                10 if matches!(cfg, Cfg::Buz { .. }) && l >= 4 => {
                    collide(r, &cfg, &mut p, w);
                }
                _ if l < 4 => {
                    for _ in 0..r.log(5) {
                        p.insert(0, r.byte());
                    }
                }
                0 => {
                    // sums and weighted sums of the window stay the same
                    let d = r.pick(&[1usize, 1, 2, 5]);
                    let e = back(r, l);
                    if e >= 2 * d {
                        let x = r.range(1, 3) as u8;
                        p[e] = p[e].wrapping_add(x);
                        p[e - d] = p[e - d].wrapping_sub(2 * x);
                        p[e - 2 * d] = p[e - 2 * d].wrapping_add(x);
                    }
                }
                1 => {
                    // one turn of the hash apart
                    let e = back(r, l);
                    if e >= 32 {
                        p.swap(e, e - 32);
                    }
                }
                2 => {
                    // sum stays the same
                    let (e, f) = (back(r, l), back(r, l));
                    if p[e] < 255 && p[f] > 0 {
                        p[e] += 1;
                        p[f] -= 1;
                    }
                }
                3 => {
                    // the open chunk alone
                    p = data[last.min(q)..q].to_vec();
                }
                4 => {
                    let n = r.log(2 * w);
                    let at = last.min(l);
                    for _ in 0..n {
                        p.insert(at, r.byte());
                    }
                }
                5 => {
                    let e = back(r, l);
                    p[e] ^= 1 << r.below(8);
                }
                6 => {
                    // longer open chunk, same end
                    let at = l - w.min(l);
                    let n = r.log(w);
                    for _ in 0..n {
                        p.insert(at, r.byte());
                    }
                }
                7 => {
                    let e = back(r, l);
                    p.remove(e);
                }
                _ => {
                    let (e, f) = (back(r, l), back(r, l));
                    p.swap(e, f);
                }
            }
        }
        if i > 0 && r.chance(1, 12) && lapped.is_none() {
            p = vec![];
        }
        pasts.push(p);
    }
    if q < 20_000 && (twins.is_some() || lapped.is_some() || r.chance(1, 4)) {
        // a future that tells two of them apart
        let k = if twins.is_some() || lapped.is_some() { 1 } else { r.range(1, nv - 1) };
        let t = telling(r, &cfg, iface == Iface::Push, &pasts[0], &pasts[k]);
        data = [&data[..q], &t[..], &data[q..]].concat();
        cuts = crate::model::cuts(&cfg, iface == Iface::Push, &data);
        len = data.len();
    }
    sc.parts.push(data[q..].to_vec());
    let mut lens = vec![];
    for (i, p) in pasts.into_iter().enumerate() {
        lens.push(p.len());
        sc.parts.push(p);
        sc.objs.push(vec![i + 1, 0]);
        let inst = if r.chance(2, 3) { 0 } else { r.below(sc.insts.len()) };
        sc.sess.push(sess(r, inst, i, iface));
    }
    let rest = len - q;
    let deliver = |r: &mut Rng, from: usize, to: usize, cuts: &[usize]| -> Vec<Op> {
        let style = r.below(10);
        let (mut v, mut at) = (vec![], from);
        while at < to {
            let n = if v.len() > 25 { to - at } else { piece(r, style, &cfg, at, to, cuts).min(to - at) };
            if n <= 4 && r.chance(1, 4) {
                let t = r.log(to - at);
                v.push(Op::B(t, n));
                at += t;
            } else {
                v.push(Op::D(n));
                at += n;
            }
            if r.chance(1, 3) {
                v.push(Op::X);
            }
            if r.chance(1, 12) {
                v.push([Op::K, Op::I, Op::P(1), Op::D(0)][r.below(4)].clone());
            }
        }
        v
    };
    let mut lists = vec![];
    for &l in &lens {
        let mut v = deliver(r, 0, l, &cuts);
        if v.is_empty() {
            v.push(Op::D(0));
        }
        v.push(Op::X);
        v.push(Op::K);
        lists.push(v);
    }
    let mut steps = merge(r, lists, false);
    let mut at = 0;
    let mut left = rest;
    loop {
        let t = steps.last().map_or(0, |s| s.t) + 1;
        for i in 0..nv {
            for j in 0..i {
                steps.push(Step { t, w: 0, s: j, op: Op::E(i) });
            }
        }
        if left == 0 || steps.len() > 300 || r.chance(1, 3) {
            break;
        }
        // on together, and compare again
        let n = r.log(left.min(3 * w));
        let lists = (0..nv).map(|_| { let mut v = deliver(r, q + at, q + at + n, &cuts); v.push(Op::X); v }).collect();
        let more = merge(r, lists, false);
        steps.extend(more.into_iter().map(|s| Step { t: s.t + t, ..s }));
        at += n;
        left -= n;
    }
    let t = steps.last().map_or(0, |s| s.t) + 1;
    let lists = (0..nv).map(|_| if r.chance(1, 2) { vec![] } else { deliver(r, q + at, len, &cuts) }).collect();
    let more = merge(r, lists, false);
    steps.extend(more.into_iter().map(|s| Step { t: s.t + t, ..s }));
    sc.steps = steps;
    sc
}
pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(0, prop.as_bytes())) ^ idx.wrapping_mul(0x9E3779B97F4A7C15))
}
/// The scenario of run `idx`.
pub fn of_run(seed: u64, prop: &str, idx: u64, thorough: bool) -> Scenario {
    let s = run_seed(seed, prop, idx);
    let hauls = match (thorough, prop) {
        (true, _) => 64,
        (false, "C13") => 12,
        _ => 8,
    };
    if matches!(prop, "C10" | "C13" | "C14") && idx % BATCH == 0 && idx / BATCH < hauls {
        return crate::haul::gen(&mut Rng::new(s), prop, idx / BATCH);
    }
    let reels = if thorough { 3000 } else { 400 };
    if !matches!(prop, "C09" | "C18") && idx % BATCH == 1 && idx / BATCH < reels {
        return crate::reel::gen(&mut Rng::new(s), prop, idx / BATCH);
    }
    scenario(prop, s, thorough)
}
/// Runs per worker process.
pub const BATCH: u64 = 250;
