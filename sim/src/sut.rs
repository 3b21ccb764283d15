//! The real library behind object-safe traits, plus the callback seam of buzhash.
use crate::cfg::*;
use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};
use std::any::{Any, TypeId};
use std::cell::Cell;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::Arc;

/// What a slice-iterator consumer saw.
#[derive(Debug, Default)]
pub struct Slices {
    /// lengths of the items taken, in order
    pub lens: Vec<usize>,
    /// did the concatenation of items (and remainder) equal the data?
    pub intact: bool,
    pub rem: usize,
    /// the iterator reported its end
    pub ended: bool,
    /// more items than bytes + 1: it would never end
    pub runaway: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ItKind {
    /// `iter_slices`, then `into_parts`
    Loose,
    /// `iter_slices_strict`, then `into_parts`
    Strict,
    /// `iter_slices_strict`, then `take_rem`, then `into_parts`
    StrictTake,
}
/// How a consumer takes items from an iterator.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pull {
    /// `next`
    Next,
    /// `nth(0)`
    Nth,
    /// `by_ref().take(n)` and internal iteration
    Take,
    /// `nth(1)`, `nth(2)`, ...: items are passed over
    Skip,
    /// to the end, by value: `for_each`
    Each,
    /// to the end, by value: `collect`
    Collect,
    /// to the end, by value: `count`
    Count,
    /// to the end, by value: `last`
    Last,
}
pub const PULLS: [Pull; 11] = [
    Pull::Next,
    Pull::Next,
    Pull::Nth,
    Pull::Take,
    Pull::Skip,
    Pull::Take,
    Pull::Skip,
    Pull::Each,
    Pull::Collect,
    Pull::Count,
    Pull::Last,
];
/// The chunker inside a slice iterator whose consumer passes over items, so that it is still known
/// where they were.
struct Rec<I> {
    i: I,
    /// bytes the chunker has seen, by its own account
    at: usize,
    cuts: Vec<usize>,
    /// calls left before it is clear that the iterator never ends
    left: usize,
}
const RUNAWAY: &str = "iterator does not end";
impl<I> Rec<I> {
    fn new(i: I, data: &[u8]) -> Rec<I> {
        Rec { i, at: 0, cuts: vec![], left: data.len() * 2 + 16 }
    }
}
impl<I: ChunkIncr> ChunkIncr for &mut Rec<I> {
    fn push(&mut self, data: &[u8]) -> Option<usize> {
        (**self).push(data)
    }
}
impl<I: ChunkIncr> ChunkIncr for Rec<I> {
    fn push(&mut self, data: &[u8]) -> Option<usize> {
        if self.left == 0 {
            std::panic::panic_any(RUNAWAY);
        }
        self.left -= 1;
        let r = self.i.push(data);
        self.at += r.unwrap_or(data.len());
        if r.is_some() {
            self.cuts.push(self.at);
        }
        r
    }
}

pub trait Fce: Send {
    fn call(&mut self, data: &[u8]) -> (Option<usize>, usize);
    fn dup(&self) -> Option<Box<dyn Fce>>;
    /// `clone_from` another state of the same type
    fn restore(&mut self, from: &dyn Fce) -> bool;
    /// go on under another instance of the same type
    fn rebind(&mut self, inst: &dyn Inst) -> bool;
    fn same(&self, o: &dyn Fce) -> Same;
    fn debug(&self) -> String;
    fn any(&self) -> &dyn Any;
}
pub trait Psh: Send {
    fn push(&mut self, data: &[u8]) -> Option<usize>;
    fn slices(&mut self, data: &[u8], take: usize, kind: ItKind, pull: Pull) -> Slices;
    /// the search session this one can become
    fn hand_over(&mut self) -> Option<Box<dyn Fce>>;
    fn dup(&self) -> Option<Box<dyn Psh>>;
    fn restore(&mut self, from: &dyn Psh) -> bool;
    fn same(&self, o: &dyn Psh) -> Same;
    fn debug(&self) -> String;
    fn any(&self) -> &dyn Any;
}
pub trait Inst: Send + Sync {
    /// `way`: see `Sess::from`
    fn fce(&self, way: u8) -> Box<dyn Fce>;
    fn psh(&self, way: u8) -> Box<dyn Psh>;
    fn dup(&self) -> Option<Box<dyn Inst>>;
    fn same(&self, o: &dyn Inst) -> Same;
    fn debug(&self) -> String;
    fn any(&self) -> &dyn Any;
    /// what about this type cannot be shared between or moved to other threads
    fn stuck(&self) -> Option<&'static str>;
}

type Dup<T> = Option<(fn(&T) -> T, fn(&mut T, &T))>;
type Eq<T> = Option<fn(&T, &T) -> bool>;
/// `==` of two of a kind, where the type has it; None where it has not. Some(Err) for one that is
/// not symmetric or not reflexive.
pub type Same = Option<Result<bool, &'static str>>;
fn same<T>(eq: Eq<T>, a: &T, b: &T) -> Same {
    let eq = eq?;
    Some(if !eq(a, a) || !eq(b, b) {
        Err("does not equal itself")
    } else if eq(a, b) != eq(b, a) {
        Err("comparison depends on the order")
    } else {
        Ok(eq(a, b))
    })
}

/// An exhausted iterator stays exhausted (and does not feed the chunker again).
fn spent<'a>(it: &mut impl Iterator<Item = &'a [u8]>, o: &mut Slices) {
    if o.ended && (it.next().is_some() || it.by_ref().take(2).count() > 0) {
        o.intact = false;
    }
}

struct FceS<C: Chunk> {
    c: Arc<C>,
    st: C::SearchState,
    dup: Dup<C::SearchState>,
    eq: Eq<C::SearchState>,
}
// The scheduler hands objects from thread to thread, one running at a time; whether the types allow
// that is checked at run time (`Inst::stuck`), so that the harness builds either way.
unsafe impl<C: Chunk> Send for FceS<C> {}
impl<C> Fce for FceS<C>
where
    C: Chunk + ToChunkIncr + 'static,
    C::SearchState: Debug + 'static,
{
    fn call(&mut self, data: &[u8]) -> (Option<usize>, usize) {
        self.c.find_chunk_edge(&mut self.st, data)
    }
    fn dup(&self) -> Option<Box<dyn Fce>> {
        let d = self.dup?.0;
        Some(Box::new(FceS { c: self.c.clone(), st: d(&self.st), dup: self.dup, eq: self.eq }))
    }
    fn restore(&mut self, from: &dyn Fce) -> bool {
        match (self.dup, from.any().downcast_ref::<FceS<C>>()) {
            (Some((_, f)), Some(o)) => {
                f(&mut self.st, &o.st);
                true
            }
            _ => false,
        }
    }
    fn rebind(&mut self, inst: &dyn Inst) -> bool {
        match inst.any().downcast_ref::<InstS<C>>() {
            Some(i) => {
                self.c = i.c.clone();
                true
            }
            None => false,
        }
    }
    fn same(&self, o: &dyn Fce) -> Same {
        same(self.eq, &self.st, &o.any().downcast_ref::<FceS<C>>()?.st)
    }
    fn debug(&self) -> String {
        format!("{:?} {:#?}", self.st, self.st)
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
type Hand<I> = Option<Arc<dyn Fn(I) -> Box<dyn Fce> + Send + Sync>>;
struct PshS<I: ChunkIncr> {
    i: Option<I>,
    hand: Hand<I>,
    dup: Dup<I>,
    eq: Eq<I>,
}
unsafe impl<I: ChunkIncr> Send for PshS<I> {}
impl<I> Psh for PshS<I>
where
    I: ChunkIncr + Debug + 'static,
{
    fn push(&mut self, data: &[u8]) -> Option<usize> {
        self.i.as_mut().unwrap().push(data)
    }
    fn slices(&mut self, data: &[u8], take: usize, kind: ItKind, pull: Pull) -> Slices {
        if let Pull::Each | Pull::Collect | Pull::Count | Pull::Last = pull {
            let (c, o) = whole(self.i.take().unwrap(), data, kind, pull);
            self.i = Some(c);
            return o;
        }
        if pull == Pull::Skip {
            let (c, o) = skipping(self.i.take().unwrap(), data, take, kind);
            self.i = Some(c);
            return o;
        }
        let mut o = Slices { intact: true, ..Default::default() };
        let mut at = 0;
        let c = self.i.take().unwrap();
        let cap = data.len() + 2;
        let (mut low, mut high) = (0, usize::MAX);
        // one loop for both iterator types
        macro_rules! run {
            ($it:ident) => {{
                let mut item = |o: &mut Slices, s: &[u8]| {
                    if at + s.len() > data.len() || s != &data[at..at + s.len()] {
                        o.intact = false;
                    }
                    at += s.len();
                    o.lens.push(s.len());
                    if o.lens.len() > cap {
                        o.runaway = true;
                    }
                };
                match pull {
                    Pull::Take => {
                        $it.by_ref().take(take.min(cap + 1)).for_each(|s| item(&mut o, s));
                        o.ended = !o.runaway && o.lens.len() < take;
                    }
                    _ => {
                        while o.lens.len() < take && !o.runaway {
                            let (lo, hi) = $it.size_hint();
                            let n = o.lens.len();
                            (low, high) = (low.max(n.saturating_add(lo)), high.min(n.saturating_add(hi.unwrap_or(usize::MAX))));
                            let x = if pull == Pull::Nth { $it.nth(0) } else { $it.next() };
                            match x {
                                None => {
                                    o.ended = true;
                                    break;
                                }
                                Some(s) => {
                                    item(&mut o, s);
                                }
                            }
                        }
                    }
                }
                // size_hint bounds how many items there are
                if o.lens.len() > high || o.ended && o.lens.len() < low {
                    o.intact = false;
                }
            }};
        }
        let (c, rem) = match kind {
            ItKind::Loose => {
                let mut it = c.iter_slices(data);
                run!(it);
                spent(&mut it, &mut o);
                it.into_parts()
            }
            ItKind::Strict => {
                let mut it = c.iter_slices_strict(data);
                run!(it);
                spent(&mut it, &mut o);
                it.into_parts()
            }
            ItKind::StrictTake => {
                let mut it = c.iter_slices_strict(data);
                run!(it);
                spent(&mut it, &mut o);
                let r = it.take_rem();
                // (nothing is left to iterate over)
                let more = !r.is_empty() && it.next().is_some();
                let (c, r2) = it.into_parts();
                if more || !r2.is_empty() {
                    o.intact = false;
                }
                (c, r)
            }
        };
        if at + rem.len() != data.len() || rem != &data[data.len() - rem.len()..] {
            o.intact = false;
        }
        o.rem = rem.len();
        self.i = Some(c);
        o
    }
    fn hand_over(&mut self) -> Option<Box<dyn Fce>> {
        let h = self.hand.as_ref()?;
        Some(h(self.i.take().unwrap()))
    }
    fn dup(&self) -> Option<Box<dyn Psh>> {
        let d = self.dup?.0;
        Some(Box::new(PshS { i: Some(d(self.i.as_ref().unwrap())), hand: self.hand.clone(), dup: self.dup, eq: self.eq }))
    }
    fn restore(&mut self, from: &dyn Psh) -> bool {
        match (self.dup, from.any().downcast_ref::<PshS<I>>()) {
            (Some((_, f)), Some(o)) => {
                f(self.i.as_mut().unwrap(), o.i.as_ref().unwrap());
                true
            }
            _ => false,
        }
    }
    fn same(&self, o: &dyn Psh) -> Same {
        same(self.eq, self.i.as_ref()?, o.any().downcast_ref::<PshS<I>>()?.i.as_ref()?)
    }
    fn debug(&self) -> String {
        format!("{:?} {:#?}", self.i, self.i)
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
/// (as for `FceS`)
struct Shared<C>(Arc<C>);
unsafe impl<C> Send for Shared<C> {}
unsafe impl<C> Sync for Shared<C> {}
struct InstS<C: Chunk + ToChunkIncr> {
    c: Arc<C>,
    dc: Dup<C>,
    dst: Dup<C::SearchState>,
    dinc: Dup<C::Incr>,
    ec: Eq<C>,
    est: Eq<C::SearchState>,
    einc: Eq<C::Incr>,
    ways: [Option<fn(&C) -> C::Incr>; 3],
    sway: Option<fn(&C) -> C::SearchState>,
    into: Option<fn(C::Incr) -> C::SearchState>,
    stuck: Option<&'static str>,
}
unsafe impl<C: Chunk + ToChunkIncr> Send for InstS<C> {}
unsafe impl<C: Chunk + ToChunkIncr> Sync for InstS<C> {}
impl<C> Inst for InstS<C>
where
    C: Chunk + ToChunkIncr + Debug + 'static,
    C::SearchState: Debug + 'static,
    C::Incr: Debug + 'static,
{
    fn fce(&self, way: u8) -> Box<dyn Fce> {
        let st = match self.sway {
            Some(f) if way > 0 => f(&self.c),
            _ => self.c.to_search_state(),
        };
        Box::new(FceS { c: self.c.clone(), st, dup: self.dst, eq: self.est })
    }
    fn psh(&self, way: u8) -> Box<dyn Psh> {
        let i = match (way as usize).checked_sub(1).and_then(|w| self.ways[w]) {
            Some(f) => f(&self.c),
            None => self.c.to_chunk_incr(),
        };
        let hand: Hand<C::Incr> = self.into.filter(|_| TypeId::of::<C::Incr>() != TypeId::of::<C::SearchState>()).map(|f| {
            let (c, dup, eq) = (self.c.clone(), self.dst, self.est);
            let c = Shared(c);
            Arc::new(move |i| {
                let c = &c;
                Box::new(FceS { c: c.0.clone(), st: f(i), dup, eq }) as Box<dyn Fce>
            }) as _
        });
        Box::new(PshS { i: Some(i), hand, dup: self.dinc, eq: self.einc })
    }
    fn dup(&self) -> Option<Box<dyn Inst>> {
        let d = self.dc?.0;
        Some(Box::new(InstS { c: Arc::new(d(&self.c)), dc: self.dc, dst: self.dst, dinc: self.dinc, ec: self.ec, est: self.est, einc: self.einc, ways: self.ways, sway: self.sway, into: self.into, stuck: self.stuck }))
    }
    fn same(&self, o: &dyn Inst) -> Same {
        same(self.ec, &*self.c, &*o.any().downcast_ref::<InstS<C>>()?.c)
    }
    fn debug(&self) -> String {
        format!("{:?} {:#?}", self.c, self.c)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn stuck(&self) -> Option<&'static str> {
        self.stuck
    }
}

/// Picks `Clone`, `Send` and `Sync` up where a type has them, without requiring them.
struct Probe<T>(PhantomData<T>);
trait NoDup<T> {
    const DUP: Dup<T> = None;
}
impl<T> NoDup<T> for Probe<T> {}
impl<T: Clone> Probe<T> {
    const DUP: Dup<T> = Some((|t| t.clone(), |t, o| t.clone_from(o)));
}
struct EqProbe<T>(PhantomData<T>);
#[allow(dead_code)]
trait NoEq<T> {
    const EQ: Eq<T> = None;
}
impl<T> NoEq<T> for EqProbe<T> {}
impl<T: PartialEq> EqProbe<T> {
    const EQ: Eq<T> = Some(|a, b| a == b);
}
struct FromRef<T, C>(PhantomData<(T, C)>);
struct FromOwn<T, C>(PhantomData<(T, C)>);
/// (a type that is both is no conversion)
struct Turn<T, C>(PhantomData<(T, C)>);
#[allow(dead_code)]
trait NoTurn<T, C> {
    const F: Option<fn(C) -> T> = None;
}
impl<T, C> NoTurn<T, C> for Turn<T, C> {}
impl<T: From<C> + 'static, C: 'static> Turn<T, C> {
    const F: Option<fn(C) -> T> = Some(|c| T::from(c));
}
struct Fresh<T, C>(PhantomData<(T, C)>);
#[allow(dead_code)]
trait NoWay<T, C> {
    const F: Option<fn(&C) -> T> = None;
}
impl<T, C> NoWay<T, C> for FromRef<T, C> {}
impl<T, C> NoWay<T, C> for FromOwn<T, C> {}
impl<T, C> NoWay<T, C> for Fresh<T, C> {}
impl<T, C> FromRef<T, C>
where
    T: for<'x> From<&'x C>,
{
    const F: Option<fn(&C) -> T> = Some(|c| T::from(c));
}
impl<T: From<C>, C: Clone> FromOwn<T, C> {
    const F: Option<fn(&C) -> T> = Some(|c| T::from(c.clone()));
}
impl<T: Default, C> Fresh<T, C> {
    const F: Option<fn(&C) -> T> = Some(|_| T::default());
}
struct SendProbe<T>(PhantomData<T>);
#[allow(dead_code)]
trait NotSend {
    const SEND: bool = false;
}
impl<T> NotSend for SendProbe<T> {}
impl<T: Send> SendProbe<T> {
    const SEND: bool = true;
}
struct SyncProbe<T>(PhantomData<T>);
#[allow(dead_code)]
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSync for SyncProbe<T> {}
impl<T: Sync> SyncProbe<T> {
    const SYNC: bool = true;
}
macro_rules! inst {
    ($ty:ty, $e:expr) => {{
        let c: $ty = $e;
        type S = <$ty as Chunk>::SearchState;
        type I = <$ty as ToChunkIncr>::Incr;
        let stuck = if !SendProbe::<$ty>::SEND || !SyncProbe::<$ty>::SYNC {
            Some("the configured instance cannot be shared between threads")
        } else if !SendProbe::<S>::SEND {
            Some("the search state cannot move to another thread")
        } else if !SendProbe::<I>::SEND {
            Some("the incremental chunker cannot move to another thread")
        } else {
            None
        };
        Box::new(InstS::<$ty> {
            c: Arc::new(c),
            dc: Probe::<$ty>::DUP,
            dst: Probe::<S>::DUP,
            dinc: Probe::<I>::DUP,
            ec: EqProbe::<$ty>::EQ,
            est: EqProbe::<S>::EQ,
            einc: EqProbe::<I>::EQ,
            ways: [FromRef::<I, $ty>::F, FromOwn::<I, $ty>::F, Fresh::<I, $ty>::F],
            sway: FromRef::<S, $ty>::F,
            into: Turn::<S, I>::F,
            stuck,
        }) as Box<dyn Inst>
    }};
}

// ---- callback seam ---------------------------------------------------------------------------
/// User-supplied byte hash: the crate's table, with a hook the simulator arms per call.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SimHash;
thread_local! {
    static COUNT: Cell<i64> = const { Cell::new(-1) };
    static NEST: Cell<Option<*mut dyn FnMut()>> = const { Cell::new(None) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}
pub const CALLBACK_PANIC: &str = "simulated callback panic";
impl hash_roll::buzhash::BuzHashHash for SimHash {
    fn hash(&self, v: u8) -> u32 {
        let n = COUNT.with(|c| c.get());
        if n >= 0 {
            COUNT.with(|c| c.set(n - 1));
            if n == 0 {
                FIRED.with(|f| f.set(true));
                match NEST.with(|n| n.take()) {
                    Some(p) => crate::alloc::untracked(|| unsafe { (*p)() }),
                    None => std::panic::panic_any(CALLBACK_PANIC),
                }
            }
        }
        crate::tables::GO[v as usize]
    }
}
struct Disarm;
impl Drop for Disarm {
    fn drop(&mut self) {
        COUNT.with(|c| c.set(-1));
        NEST.with(|n| n.set(None));
    }
}
/// Run `f`; at its `n`-th byte-hash callback run `inner` (or panic when there is none).
/// Says whether the callback happened.
pub fn with_callback<R>(n: u32, inner: Option<&mut dyn FnMut()>, f: impl FnOnce() -> R) -> (R, bool) {
    let _d = Disarm;
    FIRED.with(|f| f.set(false));
    NEST.with(|c| {
        // the pointer is only used before `f` returns
        c.set(inner.map(|i| unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(i as *mut dyn FnMut()) }))
    });
    COUNT.with(|c| c.set(n as i64));
    let r = f();
    (r, FIRED.with(|f| f.get()))
}

pub fn try_build(cfg: &Cfg) -> Result<Box<dyn Inst>, String> {
    std::panic::catch_unwind(|| build(cfg)).map_err(|e| {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned());
        format!("constructing {} panicked: {}", cfg.ser(), m.unwrap_or_default())
    })
}
pub fn build(cfg: &Cfg) -> Box<dyn Inst> {
    use hash_roll::buzhash::*;
    use hash_roll::buzhash_table::{borg_buzhash_table, GO_BUZHASH};
    use hash_roll::*;
    match cfg.clone() {
        Cfg::BupDefault => inst!(bup::RollSum, bup::RollSum::default()),
        Cfg::Bup { w } => inst!(bup::RollSum, bup::RollSum::with_window(w)),
        Cfg::GzipDefault => inst!(gzip::GzipRsyncable, gzip::GzipRsyncable::default()),
        Cfg::Gzip { w, m } => inst!(gzip::GzipRsyncable, gzip::GzipRsyncable::with_window_and_modulus(w, m)),
        Cfg::PigzDefault => inst!(pigz::PigzRsyncable, pigz::PigzRsyncable::default()),
        Cfg::Pigz { bits } => inst!(pigz::PigzRsyncable, pigz::PigzRsyncable::with_bits(bits)),
        Cfg::GearDefault => inst!(gear::Gear32<'static>, gear::Gear32::default()),
        Cfg::Gear { log2 } => inst!(gear::Gear32<'static>, gear::Gear32::with_average_size_log2(log2)),
        Cfg::BuzNom { salt } => inst!(BuzHash<BuzHashTableByteSaltHash<'static>>, BuzHash::new_nom(salt)),
        Cfg::Buz { k, mask, table, max } => match table {
            BuzTable::Go => inst!(
                BuzHash<BuzHashTableHash<'static>>,
                BuzHash::new(k, mask, BuzHashTableHash::from(&GO_BUZHASH), max)
            ),
            BuzTable::Salt(s) => inst!(
                BuzHash<BuzHashTableByteSaltHash<'static>>,
                BuzHash::new(k, mask, BuzHashTableByteSaltHash::from((s, &GO_BUZHASH)), max)
            ),
            BuzTable::SaltOn(s, c) => inst!(
                BuzHash<BuzHashTableByteSaltHash<'static>>,
                BuzHash::new(k, mask, BuzHashTableByteSaltHash::from((s, ref32(c))), max)
            ),
            BuzTable::Ref(c) => inst!(BuzHash<BuzHashTableHash<'static>>, BuzHash::new(k, mask, BuzHashTableHash::from(ref32(c)), max)),
            BuzTable::Own(c) => inst!(
                BuzHash<BuzHashTableBufHash>,
                BuzHash::new(k, mask, BuzHashTableBufHash::from(own32(c)), max)
            ),
            BuzTable::Borg(s) if s & 1 == 0 => inst!(
                BuzHash<BuzHashTableBufHash>,
                BuzHash::new(k, mask, BuzHashTableBufHash::from(borg_buzhash_table(s)), max)
            ),
            BuzTable::Borg(s) => {
                // one table for all streams, by reference
                use std::collections::BTreeMap;
                static T: std::sync::Mutex<BTreeMap<u32, &'static [u32; 256]>> = std::sync::Mutex::new(BTreeMap::new());
                let t: &'static [u32; 256] = T.lock().unwrap().entry(s).or_insert_with(|| Box::leak(borg_buzhash_table(s)));
                inst!(BuzHash<BuzHashTableHash<'static>>, BuzHash::new(k, mask, BuzHashTableHash::from(t), max))
            }
            BuzTable::Hook => inst!(BuzHash<SimHash>, BuzHash::new(k, mask, SimHash, max)),
        },
        Cfg::ZstdDefault => inst!(zstd::Zstd, zstd::Zstd::default()),
        Cfg::Zstd { size } => inst!(zstd::Zstd, zstd::Zstd::with_target_section_size(size)),
        Cfg::FastDefault => inst!(fastcdc::FastCdc<'static>, fastcdc::FastCdc::default()),
        Cfg::Fast { min, norm, max, gear } => {
            let table = if gear == 255 { &gear_table::GEAR_64 } else { gear64(gear) };
            inst!(fastcdc::FastCdc<'static>, fastcdc::FastCdc::new(table, min, norm, max))
        }
        Cfg::Ram { w } => inst!(ram::Ram, ram::Ram::with_w(w)),
        Cfg::MiiDefault => inst!(mii::Mii, mii::Mii::default()),
        Cfg::Mii { w } => inst!(mii::Mii, mii::Mii::with_w(w)),
        Cfg::ZpaqDefault => inst!(zpaq::Zpaq, zpaq::Zpaq::default()),
        Cfg::ZpaqPow { p } => inst!(zpaq::Zpaq, zpaq::Zpaq::with_average_size_pow_2(p)),
        Cfg::ZpaqAvg { p, lo, hi } => inst!(zpaq::Zpaq, zpaq::Zpaq::with_average_and_range(p, (lo.bound(), hi.bound()))),
        Cfg::ZpaqRange { lo, hi } => inst!(zpaq::Zpaq, zpaq::Zpaq::with_range((lo.bound(), hi.bound()))),
        Cfg::ZpaqMax { max } => inst!(zpaq::Zpaq, zpaq::Zpaq::with_max_size(max)),
    }
}

fn skipping<I: ChunkIncr>(c: I, data: &[u8], take: usize, kind: ItKind) -> (I, Slices) {
    let mut o = Slices { intact: true, ..Default::default() };
    let rec = Rec::new(c, data);
    // (items passed over, the one got)
    let mut got: Vec<(usize, Option<&[u8]>)> = vec![];
    macro_rules! run {
        ($it:ident) => {
            while got.len() < take && got.len() < data.len() + 2 {
                let k = (got.len() + take) % 4;
                let x = $it.nth(k);
                got.push((k, x));
                if x.is_none() {
                    o.ended = true;
                    break;
                }
            }
        };
    }
    let (rec, rem) = match kind {
        ItKind::Loose => {
            let mut it = rec.iter_slices(data);
            run!(it);
            it.into_parts()
        }
        ItKind::Strict => {
            let mut it = rec.iter_slices_strict(data);
            run!(it);
            it.into_parts()
        }
        ItKind::StrictTake => {
            let mut it = rec.iter_slices_strict(data);
            run!(it);
            let r = it.take_rem();
            (it.into_parts().0, r)
        }
    };
    // all items there were, by what the chunker said
    let mut at = 0;
    for &c in &rec.cuts {
        if c > data.len() || o.lens.len() > data.len() + 2 {
            o.runaway = true;
            return (rec.i, o);
        }
        o.lens.push(c - at);
        at = c;
    }
    if kind == ItKind::Loose && rec.at > at {
        o.lens.push(data.len() - at);
    }
    let (mut n, mut at) = (0, 0);
    for (k, x) in got {
        for _ in 0..k.min(o.lens.len() - n) {
            at += o.lens[n];
            n += 1;
        }
        let want = o.lens.get(n).map(|l| &data[at..at + l]);
        let id = |s: &[u8]| (s.len(), if s.is_empty() { std::ptr::null() } else { s.as_ptr() });
        if want.map(id) != x.map(id) {
            o.intact = false;
        }
        if let Some(s) = want {
            at += s.len();
            n += 1;
        }
    }
    o.rem = rem.len();
    if n != o.lens.len() || at + rem.len() != data.len() || rem != &data[data.len() - rem.len()..] {
        o.intact = false;
    }
    (rec.i, o)
}

/// The whole iterator is used up by value, as by a consumer that lends it its chunker.
fn whole<I: ChunkIncr>(c: I, data: &[u8], kind: ItKind, pull: Pull) -> (I, Slices) {
    let mut o = Slices { intact: true, ended: true, ..Default::default() };
    let mut rec = Rec::new(c, data);
    let mut items: Vec<&[u8]> = vec![];
    let (mut count, mut last) = (None, None);
    macro_rules! run {
        ($it:expr) => {
            match pull {
                Pull::Each => $it.for_each(|s| items.push(s)),
                Pull::Collect => items = $it.collect(),
                Pull::Count => count = Some($it.count()),
                _ => last = Some($it.last()),
            }
        };
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
        ItKind::Loose => run!((&mut rec).iter_slices(data)),
        _ => run!((&mut rec).iter_slices_strict(data)),
    }));
    if let Err(e) = r {
        if e.downcast_ref::<&str>() != Some(&RUNAWAY) {
            std::panic::resume_unwind(e);
        }
        o.runaway = true;
        return (rec.i, o);
    }
    let mut at = 0;
    let mut want: Vec<&[u8]> = vec![];
    for &c in &rec.cuts {
        if c > data.len() {
            o.intact = false;
            return (rec.i, o);
        }
        want.push(&data[at..c]);
        at = c;
    }
    if kind == ItKind::Loose {
        if at < data.len() {
            want.push(&data[at..]);
        }
    } else {
        o.rem = data.len() - at;
    }
    let id = |s: &&[u8]| (s.len(), if s.is_empty() { std::ptr::null() } else { s.as_ptr() });
    o.lens = want.iter().map(|s| s.len()).collect();
    o.intact = rec.at == data.len()
        && match (count, last) {
            (Some(n), _) => n == want.len(),
            (_, Some(l)) => l.as_ref().map(id) == want.last().map(id),
            _ => items.iter().map(id).eq(want.iter().map(id)),
        };
    (rec.i, o)
}
