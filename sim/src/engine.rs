//! Executes a scenario against the real library: one logical thread of control, every call, fault
//! and thread switch taken from the scenario.
use crate::alloc::tracked;
use crate::cfg::*;
use crate::rng::mix;
use crate::scenario::*;
use crate::sut::*;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Fail {
    /// panic | range | order | progress | discard | repoll | tiling
    pub class: &'static str,
    pub msg: String,
    pub sess: usize,
}

pub enum St {
    F(Box<dyn Fce>),
    P(Box<dyn Psh>),
}
impl St {
    fn dup(&self) -> Option<St> {
        match self {
            St::F(f) => f.dup().map(St::F),
            St::P(p) => p.dup().map(St::P),
        }
    }
    fn restore(&mut self, from: &St) -> bool {
        match (self, from) {
            (St::F(a), St::F(b)) => a.restore(&**b),
            (St::P(a), St::P(b)) => a.restore(&**b),
            _ => false,
        }
    }
    pub fn same(&self, o: &St) -> Same {
        match (self, o) {
            (St::F(a), St::F(b)) => a.same(&**b),
            (St::P(a), St::P(b)) => a.same(&**b),
            _ => None,
        }
    }
    fn debug(&self) -> usize {
        match self {
            St::F(f) => f.debug().len(),
            St::P(p) => p.debug().len(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Status {
    Idle,
    Live,
    /// ended by truncation or by reaching the end
    Ended,
    /// its state died in a callback panic
    Aborted,
    Abandoned,
    /// broke the call contract
    Broken,
}

/// The part of a session that a snapshot saves.
pub struct Core {
    st: Option<St>,
    /// search: absolute offset of the buffer; incremental: of the next byte to hand over
    base: usize,
    pub fed: usize,
    pub bounds: Vec<usize>,
    /// ends of loose slices that may or may not be boundaries
    pub maybe: Vec<usize>,
    last: usize,
    /// where the latest restart resumed: the boundaries up to here are from the log
    floor: usize,
    /// the latest call found nothing, with this much delivered
    none_at: Option<usize>,
    pub mem: i64,
    pub hash: u64,
    /// boundaries known at quiescent points: (delivered, number, hash of boundaries)
    pub quiet: Vec<(usize, usize, u64)>,
}
pub struct Episode {
    pub kind: &'static str,
    pub fed: usize,
    pub bounds: Vec<usize>,
    pub maybe: Vec<usize>,
}
pub struct SessRun {
    pub id: usize,
    pub spec: Sess,
    pub cfg: Cfg,
    pub data: Arc<Vec<u8>>,
    pub limit: usize,
    pub status: Status,
    pub core: Core,
    pub snaps: Vec<Core>,
    pub episodes: Vec<Episode>,
    pub branches: Vec<Episode>,
    pub restarts: Vec<usize>,
    pub mem_base: i64,
    pub mem_max: i64,
    pub keep_max: usize,
    /// a caller whose buffer has a fixed size cannot go on
    pub stuck: Option<String>,
    pub open_max: usize,
    pub calls: u64,
    pub trace: u64,
    fail: Option<Fail>,
    cov: HashSet<u64>,
    pub faults: BTreeMap<&'static str, u64>,
    cov_tag: u64,
    buf: Buf,
}
/// The caller's buffer, when it is not the object itself: `data[from..to]`, `pad` bytes in.
#[derive(Default)]
struct Buf {
    v: Vec<u8>,
    pad: usize,
    from: usize,
    to: usize,
}

fn lg(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}
fn bh(h: u64, b: usize) -> u64 {
    mix(h ^ (b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15))
}
pub fn bounds_hash(b: &[usize]) -> u64 {
    b.iter().fold(0, |h, &x| bh(h, x))
}

impl Core {
    fn dup(&self) -> Option<Core> {
        Some(Core {
            st: Some(self.st.as_ref()?.dup()?),
            base: self.base,
            fed: self.fed,
            bounds: self.bounds.clone(),
            maybe: self.maybe.clone(),
            last: self.last,
            floor: self.floor,
            none_at: self.none_at,
            mem: self.mem,
            hash: self.hash,
            quiet: vec![],
        })
    }
}

impl SessRun {
    pub fn new(id: usize, spec: &Sess, cfg: &Cfg, data: Arc<Vec<u8>>) -> SessRun {
        SessRun {
            id,
            spec: spec.clone(),
            cfg: cfg.clone(),
            limit: data.len(),
            data,
            status: Status::Idle,
            core: Core {
                st: None,
                base: 0,
                fed: 0,
                bounds: vec![],
                maybe: vec![],
                last: 0,
                floor: 0,
                none_at: None,
                mem: 0,
                hash: 0,
                quiet: vec![],
            },
            snaps: vec![],
            episodes: vec![],
            branches: vec![],
            restarts: vec![],
            mem_base: 0,
            mem_max: 0,
            keep_max: 0,
            stuck: None,
            open_max: 0,
            calls: 0,
            trace: 0,
            fail: None,
            cov: HashSet::new(),
            faults: BTreeMap::new(),
            cov_tag: (cfg.algo() as u64) << 8 | (spec.iface == Iface::Push) as u64,
            buf: Buf::default(),
        }
    }
    fn bump(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    pub fn open(&mut self, inst: &dyn Inst, at: usize) {
        let (st, m) = tracked(|| match self.spec.iface {
            Iface::Fce => St::F(inst.fce(self.spec.from)),
            Iface::Push => St::P(inst.psh(if self.spec.from == 3 && !self.cfg.is_default() { 0 } else { self.spec.from })),
        });
        self.core.st = Some(st);
        self.core.base = at;
        self.core.fed = at;
        self.core.none_at = None;
        self.core.mem = m;
        self.mem_base = m;
        self.mem_max = self.mem_max.max(m);
        self.status = Status::Live;
    }
    fn broke(&mut self, class: &'static str, msg: String) {
        if self.fail.is_none() {
            self.fail = Some(Fail {
                class,
                msg: format!("{} [{}] {}", if self.spec.iface == Iface::Fce { "search" } else { "incremental" }, self.cfg.ser(), msg),
                sess: self.id,
            });
        }
        self.status = Status::Broken;
    }
    fn tr(&mut self, a: u64, b: u64) {
        self.trace = mix(self.trace ^ mix(a ^ mix(b)));
    }
    fn boundary(&mut self, abs: usize) -> bool {
        if abs <= self.core.last {
            self.broke("order", format!("boundary {} reported after boundary {}", abs, self.core.last));
            return false;
        }
        self.core.last = abs;
        self.core.bounds.push(abs);
        self.core.hash = bh(self.core.hash, abs);
        true
    }
    fn cover(&mut self, kind: u64, newb: usize, hit: bool) {
        let open = self.core.fed - self.core.last.min(self.core.fed);
        let k = self.cov_tag << 40 | kind << 32 | lg(open) << 24 | lg(newb) << 16 | lg(self.core.bounds.len()).min(12) << 8 | hit as u64;
        self.cov.insert(mix(k ^ (self.cfg.scale() as u64 % 61) << 52));
    }
    /// Bring the caller's buffer up to date and take it: what has been delivered from `base` on.
    fn buffer(&mut self) -> Buf {
        let mut b = std::mem::take(&mut self.buf);
        let (base, fed) = (self.core.base, self.core.fed);
        if self.spec.buf == 0 || b.to == fed && b.from <= base && !b.v.is_empty() {
            return b;
        }
        if self.spec.buf == 1 {
            // what is left moves to the front of the same memory; what was there is overwritten
            b.v.fill(0x5a);
            b.v.clear();
            b.pad = 0;
        } else {
            b.pad = 1 + (fed ^ base) % 15;
            let old = std::mem::replace(&mut b.v, vec![0xa5; b.pad]);
            drop(old);
        }
        b.v.extend_from_slice(&self.data[base..fed]);
        b.v.push(0xc3);
        (b.from, b.to) = (base, fed);
        b
    }
    /// One library call. None: session broke or panicked; Some(true): a boundary was reported.
    fn once(&mut self, chunk: usize, newb: usize) -> Option<bool> {
        if self.status != Status::Live {
            return None;
        }
        let data = self.data.clone();
        let (base, fed) = (self.core.base, self.core.fed);
        let quiet = self.core.none_at == Some(fed);
        self.calls += 1;
        let own = self.buffer();
        macro_rules! view {
            ($to:expr) => {
                if self.spec.buf == 0 { &data[base..$to] } else { &own.v[own.pad + base - own.from..own.pad + $to - own.from] }
            };
        }
        let mut st = self.core.st.take().unwrap();
        match &mut st {
            St::F(f) => {
                let buf = view!(fed);
                let blen = buf.len();
                let r = catch_unwind(AssertUnwindSafe(|| tracked(|| f.call(buf))));
                self.buf = own;
                let ((cut, disc), m) = match r {
                    Ok(v) => v,
                    Err(e) => {
                        self.panicked(e);
                        return None;
                    }
                };
                self.core.st = Some(st);
                self.mem(m);
                self.tr(cut.map_or(0, |c| c as u64 + 1), disc as u64);
                if disc > blen || cut.is_some_and(|c| c > blen) {
                    self.broke("range", format!("returned ({:?}, {}) for a buffer of {} bytes", cut, disc, blen));
                    return None;
                }
                if quiet && (cut.is_some() || disc != 0) {
                    self.broke("repoll", format!("re-poll without new data returned ({:?}, {})", cut, disc));
                    return None;
                }
                self.core.base += disc;
                self.cover(0, newb, cut.is_some());
                match cut {
                    Some(c) => {
                        if disc > c {
                            self.broke("discard", format!("discard {} passes the boundary {} reported with it", disc, c));
                            return None;
                        }
                        self.core.none_at = None;
                        if !self.boundary(base + c) {
                            return None;
                        }
                        Some(true)
                    }
                    None => {
                        self.keep_max = self.keep_max.max(blen - disc);
                        self.core.none_at = Some(fed);
                        self.settled();
                        Some(false)
                    }
                }
            }
            St::P(p) => {
                let end = base.saturating_add(chunk).min(fed);
                let buf = view!(end);
                let blen = buf.len();
                let r = catch_unwind(AssertUnwindSafe(|| tracked(|| p.push(buf))));
                self.buf = own;
                let (cut, m) = match r {
                    Ok(v) => v,
                    Err(e) => {
                        self.panicked(e);
                        return None;
                    }
                };
                self.core.st = Some(st);
                self.mem(m);
                self.tr(cut.map_or(0, |c| c as u64 + 1), blen as u64);
                if cut.is_some_and(|c| c > blen) {
                    self.broke("range", format!("returned {:?} for {} bytes", cut, blen));
                    return None;
                }
                if quiet && blen == 0 && cut.is_some() {
                    self.broke("repoll", format!("push of no bytes returned {:?}", cut));
                    return None;
                }
                self.cover(1, newb, cut.is_some());
                match cut {
                    Some(c) => {
                        self.core.base += c;
                        self.core.none_at = None;
                        if !self.boundary(base + c) {
                            return None;
                        }
                        Some(true)
                    }
                    None => {
                        self.core.base = end;
                        if end == fed {
                            self.core.none_at = Some(fed);
                            self.settled();
                        }
                        Some(false)
                    }
                }
            }
        }
    }
    /// Everything delivered has been examined and no boundary is pending.
    fn settled(&mut self) {
        self.open_max = self.open_max.max(self.core.fed - self.core.last.min(self.core.fed));
        if self.core.fed < self.core.floor {
            return;
        }
        let q = (self.core.fed, self.core.bounds.len(), self.core.hash);
        if self.core.quiet.last() != Some(&q) {
            self.core.quiet.push(q);
        }
    }
    fn mem(&mut self, m: i64) {
        self.core.mem += m;
        self.mem_max = self.mem_max.max(self.core.mem);
    }
    fn panicked(&mut self, e: Box<dyn std::any::Any + Send>) {
        let injected = e.downcast_ref::<&str>() == Some(&CALLBACK_PANIC);
        let msg = match (e.downcast_ref::<&str>(), e.downcast_ref::<String>()) {
            (Some(s), _) => s.to_string(),
            (_, Some(s)) => s.clone(),
            _ => "?".into(),
        };
        if injected {
            self.bump("callback-panic");
            self.episode("callback-panic");
            self.status = Status::Aborted;
            self.tr(77, 77);
        } else {
            self.broke("panic", format!("panicked: {}", msg));
        }
    }
    fn episode(&mut self, kind: &'static str) {
        self.episodes.push(Episode {
            kind,
            fed: self.core.fed,
            bounds: self.core.bounds.clone(),
            maybe: self.core.maybe.clone(),
        });
    }
    pub fn drain(&mut self) {
        let mut left = self.core.fed - self.core.base + 2;
        loop {
            let quiet = self.core.none_at == Some(self.core.fed);
            match self.once(usize::MAX, 0) {
                None => return,
                Some(true) => {}
                Some(false) => {
                    if quiet || self.core.none_at == Some(self.core.fed) {
                        return;
                    }
                }
            }
            if left == 0 {
                self.broke("progress", "draining takes more calls than there are bytes".into());
                return;
            }
            left -= 1;
        }
    }
    fn deliver(&mut self, n: usize) -> usize {
        let n = n.min(self.limit - self.core.fed.min(self.limit));
        self.core.fed += n;
        n
    }
    fn slices(&mut self, n: usize, take: usize, kind: ItKind, pull: Pull) {
        if !matches!(self.core.st, Some(St::P(_))) {
            let n = self.deliver(n);
            self.once(usize::MAX, n);
            return;
        }
        let newb = self.deliver(n);
        let data = self.data.clone();
        let base = self.core.base;
        let own = self.buffer();
        let fed = self.core.fed;
        let buf = if self.spec.buf == 0 { &data[base..fed] } else { &own.v[own.pad + base - own.from..own.pad + fed - own.from] };
        let blen = buf.len();
        let mut st = self.core.st.take().unwrap();
        let St::P(p) = &mut st else { unreachable!() };
        self.calls += 1;
        let r = catch_unwind(AssertUnwindSafe(|| p.slices(buf, take, kind, pull)));
        self.buf = own;
        let o = match r {
            Ok(v) => v,
            Err(e) => {
                self.panicked(e);
                return;
            }
        };
        self.core.st = Some(st);
        self.bump(if kind == ItKind::Loose { "slices-loose" } else { "slices-strict" });
        match pull {
            Pull::Next => {}
            Pull::Nth => self.bump("slices-by-nth"),
            Pull::Take => self.bump("slices-by-take"),
            Pull::Skip => self.bump("slices-skipping"),
            _ => self.bump("slices-by-value"),
        }
        if !o.ended {
            self.bump("consumer-cancel");
        }
        for &l in &o.lens {
            self.tr(l as u64, 3);
        }
        self.tr(o.rem as u64, o.ended as u64);
        self.cover(2, newb, !o.lens.is_empty());
        if o.runaway {
            self.broke("progress", format!("slice iterator yields more than {} items for {} bytes", o.lens.len(), blen));
            return;
        }
        let total: usize = o.lens.iter().sum();
        if !o.intact || total + o.rem != blen || (kind == ItKind::Loose && o.ended && o.rem != 0) {
            self.broke(
                "tiling",
                format!("slices {:?} and remainder {} do not tile {} bytes (items taken {:?}, {:?})", o.lens, o.rem, blen, take, kind),
            );
            return;
        }
        let fast = self.cfg.algo() == Algo::Fast;
        let mut at = base;
        for (i, &l) in o.lens.iter().enumerate() {
            at += l;
            if l == 0 && !(fast && i == 0) {
                self.broke("tiling", format!("empty slice at {}", at));
                return;
            }
            if kind == ItKind::Loose && at == self.core.fed {
                self.core.maybe.push(at);
            } else if !self.boundary(at) {
                return;
            }
        }
        self.core.none_at = None;
        if kind != ItKind::Loose && o.ended {
            // the chunker has seen the remainder: it is the open chunk
            self.core.base = self.core.fed;
            self.core.none_at = Some(self.core.fed);
            self.settled();
        } else {
            self.core.base = at;
        }
    }
    pub fn restart_point(&self, j: usize) -> usize {
        let b = &self.core.bounds;
        if j < b.len() {
            b[b.len() - 1 - j]
        } else {
            0
        }
    }
    fn simple(&mut self, op: &Op, inst: &dyn Inst) {
        match op {
            Op::Panic(n, a) => {
                with_callback(*n, None, || self.simple(a, inst));
                return;
            }
            Op::C(j) => {
                if matches!(self.status, Status::Live | Status::Aborted) {
                    if self.status == Status::Live {
                        self.episode("crash");
                    }
                    self.bump("crash");
                    let r = self.restart_point(*j);
                    self.restarts.push(r);
                    self.core.st = None;
                    self.core.bounds.retain(|&b| b <= r);
                    self.core.maybe.retain(|&b| b <= r);
                    self.core.hash = bounds_hash(&self.core.bounds);
                    self.core.last = r;
                    self.core.floor = r;
                    // zstd's state spans chunks: start one hash window earlier
                    let at = if self.cfg.algo() == Algo::Zstd { r.saturating_sub(32) } else { r };
                    self.buf = Buf::default();
                    self.open(inst, at);
                    self.tr(9, r as u64);
                }
                return;
            }
            _ => {}
        }
        if self.status != Status::Live {
            return;
        }
        match op {
            Op::D(n) => {
                let k = self.deliver(*n);
                if k == 0 {
                    self.bump("empty-read");
                }
                self.once(usize::MAX, k);
            }
            Op::P(n) => {
                self.bump(if *n == 0 { "spurious-wakeup" } else { "partial-read" });
                self.once(*n, 0);
            }
            Op::X => self.drain(),
            Op::B(n, k) => {
                let mut n = *n;
                let k = (*k).max(1);
                while n > 0 && self.status == Status::Live {
                    let got = self.deliver(k.min(n));
                    if got == 0 {
                        break;
                    }
                    n -= got;
                    if self.once(usize::MAX, got) == Some(true) {
                        self.drain();
                    }
                }
                self.bump("burst");
            }
            Op::F(n, k, d) => {
                let mut n = *n;
                let k = (*k).max(1);
                let was = std::mem::replace(&mut self.spec.buf, 1);
                self.buf.v.clear();
                self.buf.v.reserve(k + 1);
                let mut stuck = false;
                while n > 0 && self.status == Status::Live {
                    let held = self.core.fed - self.core.base;
                    let room = if held < k { k - held } else { stuck as usize };
                    let got = self.deliver(room.min(n));
                    if got == 0 && self.core.fed >= self.limit {
                        break;
                    }
                    n -= got;
                    let base = self.core.base;
                    let hit = self.once(usize::MAX, got);
                    if hit == Some(true) && *d {
                        self.drain();
                    }
                    // nothing said and nothing let go
                    stuck = hit == Some(false) && self.core.base == base;
                    if stuck && self.spec.iface == Iface::Fce && self.core.fed - base > self.cfg.carry().max(k - 1) && self.stuck.is_none() {
                        self.stuck = Some(format!("a buffer of {} bytes is full and nothing may be discarded, look-back is {}", self.core.fed - base, self.cfg.carry()));
                    }
                }
                self.spec.buf = was;
                self.bump("full-buffer");
            }
            Op::It(n, t, k, p) => self.slices(*n, *t, *k, *p),
            Op::I => {
                self.bump("inspect");
                let st = self.core.st.as_ref().unwrap();
                if catch_unwind(AssertUnwindSafe(|| st.debug() + inst.debug().len())).is_err() {
                    self.broke("inspect", "Debug formatting panicked".into());
                }
            }
            Op::M => {
                let mut st = self.core.st.take();
                if let Some(St::P(p)) = &mut st {
                    match catch_unwind(AssertUnwindSafe(|| tracked(|| p.hand_over()))) {
                        Ok((Some(f), m)) => {
                            self.bump("hand-over");
                            st = Some(St::F(f));
                            self.mem(m);
                        }
                        Ok(_) => {}
                        Err(e) => {
                            self.panicked(e);
                            return;
                        }
                    }
                }
                self.core.st = st;
            }
            Op::K => {
                if let Some(s) = self.core.dup() {
                    self.bump("snapshot");
                    match self.core.st.as_ref().unwrap().same(s.st.as_ref().unwrap()) {
                        None | Some(Ok(true)) => {}
                        Some(Ok(false)) => self.broke("equality", "a copy does not equal its original".into()),
                        Some(Err(m)) => self.broke("equality", m.into()),
                    }
                    self.snaps.push(s);
                }
            }
            Op::R(j) => {
                if !self.snaps.is_empty() {
                    self.bump("rollback");
                    self.episode("rollback");
                    let j = j % self.snaps.len();
                    if let Some(c) = self.snaps[j].dup() {
                        let q = std::mem::take(&mut self.core.quiet);
                        let old = self.core.st.take();
                        self.core = c;
                        self.core.quiet = q;
                        self.buf.v.clear();
                        if let (Some(mut o), 0) = (old, self.calls % 2) {
                            // into the existing state rather than in place of it
                            if o.restore(self.core.st.as_ref().unwrap()) {
                                self.core.st = Some(o);
                            }
                        }
                        self.tr(11, self.core.base as u64);
                    }
                }
            }
            Op::V(j, n) => {
                let src = if *j < self.snaps.len() { self.snaps[*j].dup() } else { self.core.dup() };
                if let Some(c) = src {
                    self.bump("branch");
                    let mut f = SessRun::new(self.id, &self.spec, &self.cfg, self.data.clone());
                    f.core = c;
                    f.status = Status::Live;
                    let from = f.core.fed;
                    let left = f.data.len() - from;
                    let piece = (*n).max(left / 500).max(1);
                    f.simple(&Op::B(left, piece), inst);
                    f.drain();
                    self.calls += f.calls;
                    if let Some(x) = f.fail.take() {
                        self.broke(x.class, format!("(copy) {}", x.msg));
                    } else {
                        self.branches.push(Episode { kind: "branch", fed: from, bounds: f.core.bounds, maybe: f.core.maybe });
                    }
                }
            }
            Op::T => {
                self.bump("truncate");
                self.limit = self.core.fed.max(self.core.floor);
                let left = self.limit - self.core.fed;
                self.deliver(left);
                self.drain();
                if self.status == Status::Live {
                    self.status = Status::Ended;
                }
            }
            Op::A => {
                self.bump("abandon");
                self.episode("abandon");
                self.core.st = None;
                self.status = Status::Abandoned;
            }
            _ => {}
        }
    }
    /// Faults have stopped: the rest arrives and is drained.
    pub fn finish(&mut self, inst: &dyn Inst) {
        if self.status == Status::Aborted {
            self.simple(&Op::C(0), inst);
        }
        if self.status == Status::Live {
            let n = self.limit - self.core.fed.min(self.limit);
            if n > 0 {
                self.deliver(n);
            }
            self.drain();
            if self.status == Status::Live {
                self.status = Status::Ended;
            }
        }
    }
    pub fn take_fail(&mut self) -> Option<Fail> {
        self.fail.take()
    }
}

#[derive(Default)]
pub struct RunOut {
    pub sess: Vec<SessRun>,
    pub fails: Vec<Fail>,
    pub trace: u64,
    pub cov: HashSet<u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub calls: u64,
    pub bytes: u64,
    pub shape: u64,
    pub sim_us: u64,
    /// a type that must be able to move between threads cannot
    pub stuck: Option<String>,
    /// states that compared equal
    pub equal: Vec<Equal>,
    pub compared: u64,
}
/// The states of sessions `s` compared equal, `at` bytes and `n` boundaries into each object.
pub struct Equal {
    pub s: [usize; 2],
    pub at: [usize; 2],
    pub n: [usize; 2],
    /// how often each had been rolled back or restarted by then
    pub ep: [usize; 2],
}

/// Run on worker thread `w` (0: here), one at a time.
fn on_worker<R: Send>(w: u8, f: impl FnOnce() -> R + Send) -> R {
    if w == 0 {
        return f();
    }
    use std::sync::mpsc::*;
    type Job = Box<dyn FnOnce() + Send>;
    static POOL: std::sync::OnceLock<Vec<std::sync::Mutex<Sender<Job>>>> = std::sync::OnceLock::new();
    let pool = POOL.get_or_init(|| {
        (0..3)
            .map(|_| {
                let (tx, rx) = channel::<Job>();
                std::thread::spawn(move || {
                    for j in rx {
                        j();
                    }
                });
                std::sync::Mutex::new(tx)
            })
            .collect()
    });
    let (tx, rx) = channel();
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
        let r = f();
        let _ = tx.send(r);
    });
    // the job is finished before this function returns
    let job: Job = unsafe { std::mem::transmute(job) };
    pool[(w as usize - 1) % 3].lock().unwrap().send(job).unwrap();
    rx.recv().expect("worker died")
}

/// Execute. `only`: that session alone, everything else left out.
pub fn run(sc: &Scenario, only: Option<usize>) -> RunOut {
    let mut out = RunOut::default();
    let data: Vec<Arc<Vec<u8>>> = (0..sc.objs.len()).map(|o| Arc::new(sc.data(o))).collect();
    let mut insts: Vec<Option<Box<dyn Inst>>> = sc.insts.iter().map(|_| None).collect();
    let mut sess: Vec<Option<SessRun>> = sc
        .sess
        .iter()
        .enumerate()
        .map(|(i, s)| Some(SessRun::new(i, s, &sc.insts[s.inst], data[s.obj].clone())))
        .collect();
    for (k, s) in sc.sess.iter().enumerate() {
        if only.is_none_or(|o| o == k) && insts[s.inst].is_none() {
            match try_build(&sc.insts[s.inst]) {
                Ok(i) => insts[s.inst] = Some(i),
                Err(msg) => {
                    out.fails.push(Fail { class: "panic", msg, sess: k });
                    return out;
                }
            }
        }
    }
    for (c, i) in sc.insts.iter().zip(&insts) {
        if let Some(m) = i.as_ref().and_then(|i| i.stuck()) {
            out.stuck = Some(format!("{}: {}", c.ser(), m));
        }
    }
    let mut last_w = 0u8;
    let mut last_s = usize::MAX;
    for st in &sc.steps {
        let mut st = st.clone();
        if let Some(o) = only {
            match st.op {
                Op::Nest(_, a, s2, b) => {
                    if st.s == o {
                        st.op = *a;
                    } else if s2 == o {
                        st.s = s2;
                        st.op = *b;
                    } else {
                        continue;
                    }
                }
                Op::G | Op::H | Op::E(_) => continue,
                _ => {
                    if st.s != o {
                        continue;
                    }
                }
            }
            st.w = 0;
        }
        out.sim_us = out.sim_us.max(st.t);
        if st.s >= sess.len() {
            continue;
        }
        if st.w != last_w {
            *out.faults.entry("thread-migration").or_insert(0) += 1;
            last_w = st.w;
        }
        if st.s != last_s {
            if last_s != usize::MAX {
                *out.faults.entry("context-switch").or_insert(0) += 1;
            }
            last_s = st.s;
        }
        let ii = sc.sess[st.s].inst;
        if matches!(st.op, Op::G | Op::H) {
            let new = match st.op {
                Op::G => Some(build(&sc.insts[ii])),
                _ => insts[ii].as_ref().unwrap().dup(),
            };
            if let Some(n) = new {
                *out.faults.entry(if st.op == Op::G { "recreate-instance" } else { "clone-instance" }).or_insert(0) += 1;
                for s in sess.iter_mut().flatten().filter(|s| s.spec.inst == ii) {
                    if let Some(St::F(f)) = &mut s.core.st {
                        f.rebind(&*n);
                    }
                }
                insts[ii] = Some(n);
            }
            continue;
        }
        if let Op::E(o) = st.op {
            if o == st.s || o >= sess.len() {
                continue;
            }
            let [a, b] = [st.s, o].map(|i| sess[i].as_ref().unwrap());
            let (ia, ib) = (a.spec.inst, b.spec.inst);
            let (Some(sa), Some(sb)) = (&a.core.st, &b.core.st) else { continue };
            if a.status != Status::Live || b.status != Status::Live {
                continue;
            }
            *out.faults.entry("compare").or_insert(0) += 1;
            let r = catch_unwind(AssertUnwindSafe(|| {
                // a search state goes with its instance and the bytes the caller kept
                if a.spec.iface == Iface::Fce {
                    let ok = ia == ib || insts[ia].as_ref().unwrap().same(insts[ib].as_deref().unwrap()) == Some(Ok(true));
                    if !ok || a.data[a.core.base..a.core.fed] != b.data[b.core.base..b.core.fed] {
                        return None;
                    }
                }
                sa.same(sb)
            }));
            match r {
                Ok(None) => {}
                Ok(Some(Ok(eq))) => {
                    out.compared += 1;
                    if eq {
                        out.equal.push(Equal {
                            s: [st.s, o],
                            at: [a.core.base, b.core.base],
                            n: [a.core.bounds.len(), b.core.bounds.len()],
                            ep: [a.episodes.len(), b.episodes.len()],
                        });
                    }
                }
                Ok(Some(Err(m))) => out.fails.push(Fail { class: "equality", msg: format!("{} [{}]", m, a.cfg.ser()), sess: st.s }),
                Err(_) => out.fails.push(Fail { class: "equality", msg: format!("comparing panicked [{}]", a.cfg.ser()), sess: st.s }),
            }
            continue;
        }
        let mut cur = sess[st.s].take().unwrap();
        let inst = insts[ii].as_deref().unwrap();
        if cur.status == Status::Idle {
            cur.open(inst, 0);
        }
        match &st.op {
            Op::Nest(n, a, s2, b) if *s2 < sess.len() && *s2 != st.s => {
                let mut other = sess[*s2].take().unwrap();
                let oi = insts[sc.sess[*s2].inst].as_deref().unwrap();
                if other.status == Status::Idle {
                    other.open(oi, 0);
                }
                let fired = on_worker(st.w, || {
                    let mut done = false;
                    let mut inner = || {
                        done = true;
                        other.simple(b, oi);
                    };
                    let ((), fired) = with_callback(*n, Some(&mut inner), || cur.simple(a, inst));
                    if !done {
                        other.simple(b, oi);
                    }
                    fired
                });
                if fired {
                    *out.faults.entry("nested-call").or_insert(0) += 1;
                }
                sess[*s2] = Some(other);
            }
            Op::Nest(_, a, _, _) => on_worker(st.w, || cur.simple(a, inst)),
            op => on_worker(st.w, || cur.simple(op, inst)),
        }
        out.shape = mix(out.shape ^ (st.s as u64) << 32 ^ (st.w as u64) << 24 ^ mix(st.op.kind().len() as u64 ^ cur.core.bounds.len() as u64 ^ lg(cur.core.fed) << 16 ^ cur.cov_tag << 20));
        sess[st.s] = Some(cur);
    }
    for i in 0..sess.len() {
        let s = sess[i].as_mut().unwrap();
        if only.is_some_and(|o| o != i) {
            continue;
        }
        let inst = insts[s.spec.inst].as_deref().unwrap();
        if s.status == Status::Idle {
            s.open(inst, 0);
        }
        s.finish(inst);
    }
    for s in sess {
        let mut s = s.unwrap();
        out.trace = mix(out.trace ^ s.trace ^ bounds_hash(&s.core.bounds));
        out.cov.extend(s.cov.drain());
        for (k, v) in &s.faults {
            *out.faults.entry(k).or_insert(0) += v;
        }
        out.calls += s.calls;
        out.bytes += s.core.fed as u64;
        if let Some(f) = s.take_fail() {
            out.fails.push(f);
        }
        out.sess.push(s);
    }
    out
}

/// Whole-object delivery with nothing else going on.
pub fn canon(cfg: &Cfg, data: &Arc<Vec<u8>>, iface: Iface) -> Result<Vec<usize>, Fail> {
    let inst = build(cfg);
    let mut s = SessRun::new(0, &Sess { inst: 0, obj: 0, iface, buf: 0, from: 0 }, cfg, data.clone());
    s.open(&*inst, 0);
    s.finish(&*inst);
    match s.fail {
        Some(mut f) => {
            f.msg = format!("(whole delivery) {}", f.msg);
            Err(f)
        }
        None => Ok(s.core.bounds),
    }
}
