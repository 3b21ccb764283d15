//! Oracles: what each property says about one execution.
use crate::cfg::*;
use crate::engine::*;
use crate::model;
use crate::scenario::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Default, Debug)]
pub struct Verdict {
    pub viol: Option<String>,
    pub known: Option<String>,
    /// comparisons that could have failed
    pub checks: u64,
    /// boundaries seen in disturbed sessions
    pub hits: u64,
    pub probes: BTreeMap<&'static str, u64>,
}
impl Verdict {
    pub fn bad(&mut self, m: String) {
        if self.viol.is_none() {
            self.viol = Some(m);
        }
    }
    pub fn probe(&mut self, k: &'static str, n: u64) {
        *self.probes.entry(k).or_insert(0) += n;
    }
}

fn brief(b: &[usize]) -> String {
    if b.len() <= 12 {
        format!("{:?}", b)
    } else {
        format!("{:?}...({} in all)", &b[..12], b.len())
    }
}
/// Boundaries of a session against the expected ones up to `fed`.
fn agree(got: &[usize], maybe: &[usize], want: &[usize]) -> Option<String> {
    if maybe.is_empty() {
        if got == want {
            return None;
        }
        let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Some(format!(
            "first difference at boundary {}: got {:?}, expected {:?} (got {}, expected {})",
            i,
            got.get(i),
            want.get(i),
            brief(got),
            brief(want)
        ));
    }
    for &w in want {
        if got.binary_search(&w).is_err() && !maybe.contains(&w) {
            return Some(format!("boundary {} missing: got {}, expected {}", w, brief(got), brief(want)));
        }
    }
    for &g in got {
        if want.binary_search(&g).is_err() {
            return Some(format!("boundary {} not expected: got {}, expected {}", g, brief(got), brief(want)));
        }
    }
    None
}
fn upto<'a>(v: &'a [usize], fed: usize) -> &'a [usize] {
    &v[..v.partition_point(|&b| b <= fed)]
}
fn name(s: &SessRun) -> String {
    format!("session {} ({} {})", s.id, if s.spec.iface == Iface::Fce { "search" } else { "incremental" }, s.cfg.ser())
}
/// An interrupted history: everything known by then must be expected, nothing earlier than the
/// look-ahead may be missing among what was drained (checked at quiescent points by C12).
fn prefix(ep: &Episode, want: &[usize]) -> Option<String> {
    let n = ep.bounds.len();
    let last = ep.bounds.last().copied().unwrap_or(0);
    let w = upto(want, last);
    if ep.maybe.is_empty() {
        if ep.bounds[..] != *w {
            return agree(&ep.bounds, &[], w).map(|m| format!("before {} (after {} boundaries): {}", ep.kind, n, m));
        }
        None
    } else {
        agree(&ep.bounds, &ep.maybe, w).map(|m| format!("before {}: {}", ep.kind, m))
    }
}
fn whole(s: &SessRun, want: &[usize]) -> Option<String> {
    for e in s.episodes.iter() {
        if let Some(m) = prefix(e, want) {
            return Some(format!("{}: {}", name(s), m));
        }
    }
    for b in s.branches.iter() {
        if let Some(m) = agree(&b.bounds, &b.maybe, want) {
            return Some(format!("{}: copy taken at {}: {}", name(s), b.fed, m));
        }
    }
    if s.status == Status::Ended {
        let lagging = s.limit < s.data.len();
        let w = upto(want, s.limit);
        let r = agree(&s.core.bounds, &s.core.maybe, w);
        if let Some(m) = r {
            // a torn stream may end before the byte that decides the boundary at its end
            let w2 = if lagging && s.cfg.lag(s.spec.iface == Iface::Push) > 0 && w.last() == Some(&s.limit) { &w[..w.len() - 1] } else { w };
            if w2.len() == w.len() || agree(&s.core.bounds, &s.core.maybe, w2).is_some() {
                return Some(format!("{}: {}", name(s), m));
            }
        }
    }
    None
}

struct Canon<'a> {
    sc: &'a Scenario,
    memo: BTreeMap<(usize, usize, bool), Result<Vec<usize>, Fail>>,
}
impl Canon<'_> {
    fn get(&mut self, s: &SessRun, iface: Iface, v: &mut Verdict) -> Option<Vec<usize>> {
        let k = (s.spec.inst, s.spec.obj, iface == Iface::Push);
        let e = self.memo.entry(k).or_insert_with(|| canon(&self.sc.insts[s.spec.inst], &s.data, iface));
        match e {
            Ok(b) => Some(b.clone()),
            Err(f) => {
                if fatal(f.class) {
                    v.bad(format!("{}: {}", f.class, f.msg));
                }
                None
            }
        }
    }
}
/// Contract breaks after which no property of the stream can hold.
fn fatal(class: &str) -> bool {
    matches!(class, "panic" | "range" | "order" | "progress")
}

pub fn judge(sc: &Scenario) -> (Verdict, RunOut) {
    if sc.haul.is_some() {
        return crate::haul::judge(sc);
    }
    if sc.reel.is_some() {
        return crate::reel::judge(sc);
    }
    let mut out = run(sc, None);
    let mut v = Verdict::default();
    let prop = sc.prop.as_str();
    for f in &out.fails {
        if fatal(f.class) || prop == "C05" && f.class != "tiling" || prop == "C04" && f.class == "tiling" || prop == "C01" && f.class == "repoll" || prop == "C07" && f.class == "inspect" || prop == "C18" && f.class == "equality" {
            v.bad(format!("{}: session {}: {}", f.class, f.sess, f.msg));
        }
    }
    if matches!(prop, "C01" | "C11") {
        for s in &out.sess {
            if let Some(m) = &s.stuck {
                v.bad(format!("{}: {}", name(s), m));
            }
        }
    }
    if prop == "C08" {
        if let Some(m) = &out.stuck {
            v.bad(format!("{}; streams cannot be served by several threads", m));
        }
    }
    let mut cn = Canon { sc, memo: BTreeMap::new() };
    for s in &out.sess {
        v.hits += s.core.bounds.len() as u64 + s.episodes.iter().map(|e| e.bounds.len() as u64).sum::<u64>();
        v.probe("boundaries", s.core.bounds.len() as u64);
        v.probe("restarts", s.restarts.len() as u64);
        if s.core.bounds.len() > 255 {
            v.probe("sessions with more than 255 boundaries", 1);
        }
        if s.core.bounds.len() > 65535 {
            v.probe("sessions with more than 65535 boundaries", 1);
        }
        if s.open_max > 1 << 20 {
            v.probe("sessions with an open chunk above 1 MiB", 1);
        }
        if s.open_max > 65536 {
            v.probe("sessions with an open chunk above 64 KiB", 1);
        }
        if let Some(w) = s.cfg.window() {
            let n = s.core.bounds.windows(2).filter(|p| p[1] - p[0] < w).count();
            v.probe("boundaries within one window of the previous", n as u64);
            let n = s.core.bounds.windows(2).filter(|p| p[1] - p[0] > w).count();
            v.probe("boundaries after a full window", n as u64);
        }
        if let (_, Some(h)) = s.cfg.limits() {
            let n = s.core.bounds.windows(2).filter(|p| (p[1] - p[0]) as u64 == h).count();
            v.probe("chunks of maximum length", n as u64);
        }
        if let (Some(l), _) = s.cfg.limits() {
            let n = s.core.bounds.windows(2).filter(|p| (p[1] - p[0]) as u64 <= l + 1).count();
            v.probe("chunks of minimum length (+1)", n as u64);
        }
    }
    if v.viol.is_some() {
        return (v, out);
    }
    let usable = |s: &SessRun| s.status != Status::Broken;
    match prop {
        "C01" | "C02" | "C04" | "C06" | "C07" => {
            for s in out.sess.iter().filter(|s| usable(s)) {
                if let Some(w) = cn.get(s, s.spec.iface, &mut v) {
                    v.checks += 1 + s.episodes.len() as u64 + s.branches.len() as u64;
                    if let Some(m) = whole(s, &w) {
                        v.bad(m);
                    }
                }
            }
        }
        "C03" => {
            for s in out.sess.iter().filter(|s| usable(s)) {
                let f = cn.get(s, Iface::Fce, &mut v);
                let p = cn.get(s, Iface::Push, &mut v);
                if let (Some(f), Some(p)) = (f, p) {
                    v.checks += 2;
                    if f == p {
                        if let Some(m) = whole(s, &f) {
                            v.bad(m);
                        }
                    } else if s.cfg.algo() == Algo::Fast && fast_known(&s.cfg, &s.data, &f, &p) {
                        let own = if s.spec.iface == Iface::Fce { &f } else { &p };
                        match whole(s, own) {
                            Some(m) => v.bad(m),
                            None => v.known = Some("FastCDC: the incremental interface places a hash-triggered boundary before the deciding byte, the search interface after it".into()),
                        }
                    } else {
                        let m = agree(&p, &[], &f).unwrap();
                        v.bad(format!("{}: incremental against search interface, both on whole-object delivery: {}", s.cfg.ser(), m));
                    }
                }
            }
        }
        "C05" => {
            v.checks += out.calls;
        }
        "C08" => {
            for i in 0..out.sess.len() {
                let mut solo = run(sc, Some(i));
                let a = &out.sess[i];
                let b = solo.sess.swap_remove(i);
                v.checks += 1;
                let eps = |s: &SessRun| s.episodes.iter().map(|e| e.bounds.clone()).collect::<Vec<_>>();
                if a.core.bounds != b.core.bounds || eps(a) != eps(&b) || a.trace != b.trace {
                    let m = agree(&a.core.bounds, &[], &b.core.bounds).unwrap_or("call results differ".into());
                    v.bad(format!("{} differs from the same stream run alone: {}", name(a), m));
                } else if a.status != b.status && !(a.status == Status::Broken || b.status == Status::Broken) {
                    v.bad(format!("{} ends as {:?}, alone as {:?}", name(a), a.status, b.status));
                }
            }
        }
        "C16" => {
            let n = out.sess.len() / 2;
            for (a, b) in out.sess.iter().zip(out.sess.iter().skip(n)) {
                if sc.insts.len() < 2 || !usable(a) || !usable(b) || a.spec.obj != b.spec.obj || a.spec.iface != b.spec.iface {
                    continue;
                }
                let Some(x) = cn.get(a, a.spec.iface, &mut v) else { continue };
                let Some(y) = cn.get(b, b.spec.iface, &mut v) else { continue };
                v.checks += 2 + x.len() as u64;
                if let Some(m) = agree(&x, &[], &y).or_else(|| whole(a, &y)).or_else(|| whole(b, &x)) {
                    v.bad(format!("{} against the documented parameters, {}: {}", a.cfg.ser(), b.cfg.ser(), m));
                }
                let w = model::cuts(&b.cfg, a.spec.iface == Iface::Push, &a.data);
                if let Some(m) = agree(&x, &[], &w) {
                    v.bad(format!("{} against the rule with the documented parameters, {}: {}", a.cfg.ser(), b.cfg.ser(), m));
                }
            }
        }
        "C09" => resync(sc, &out, &mut v),
        "C18" => equals(sc, &out, &mut v, &mut cn),
        "C10" => {
            for s in out.sess.iter().filter(|s| usable(s)) {
                let (lo, hi) = s.cfg.limits();
                let mut lists: Vec<&[usize]> = vec![&s.core.bounds];
                lists.extend(s.episodes.iter().map(|e| &e.bounds[..]));
                for (k, l) in lists.into_iter().enumerate() {
                    let eps = if k == 0 { &s.core.maybe } else { &s.episodes[k - 1].maybe };
                    let mut prev = 0;
                    for &b in l {
                        let n = (b - prev) as u64;
                        // slices that may have hidden a boundary in between say nothing about the maximum
                        let blurred = eps.iter().any(|&m| m > prev && m < b);
                        let start_blurred = eps.contains(&prev);
                        v.checks += 1;
                        if !blurred && !start_blurred && lo.is_some_and(|x| n < x) || !blurred && hi.is_some_and(|x| n > x) {
                            v.bad(format!("{}: chunk {}..{} of {} bytes, configured limits {:?}..{:?}", name(s), prev, b, n, lo, hi));
                        }
                        prev = b;
                    }
                }
                if s.core.maybe.is_empty() && s.episodes.iter().all(|e| e.maybe.is_empty()) && hi.is_some_and(|x| s.open_max as u64 > x) {
                    v.bad(format!("{}: {} bytes examined without a boundary, configured maximum {:?}", name(s), s.open_max, hi));
                }
            }
        }
        "C11" => {
            for s in out.sess.iter().filter(|s| usable(s)) {
                v.checks += s.calls;
                if s.spec.iface == Iface::Fce && s.keep_max > s.cfg.carry() {
                    v.bad(format!("{}: asks the caller to keep {} bytes, look-back is {}", name(s), s.keep_max, s.cfg.carry()));
                }
                let bound = s.mem_base + 4096 + 8 * s.cfg.carry() as i64;
                if s.mem_max > bound {
                    v.bad(format!("{}: holds {} heap bytes, {} when new (bound {})", name(s), s.mem_max, s.mem_base, bound));
                }
            }
        }
        "C12" => {
            for s in out.sess.iter().filter(|s| usable(s)) {
                let Some(w) = cn.get(s, s.spec.iface, &mut v) else { continue };
                let mut hs = vec![0u64];
                for &b in &w {
                    let h = *hs.last().unwrap();
                    hs.push(bounds_step(h, b));
                }
                let lag = s.cfg.lag(s.spec.iface == Iface::Push);
                for &(fed, n, h) in &s.core.quiet {
                    v.checks += 1;
                    let most = w.partition_point(|&b| b <= fed);
                    let least = w.partition_point(|&b| b + lag <= fed);
                    if n < least || n > most || hs[n] != h {
                        v.bad(format!(
                            "{}: with {} bytes delivered and drained, {} boundaries are known; the full stream has {} by then ({})",
                            name(s),
                            fed,
                            n,
                            most,
                            brief(&w)
                        ));
                        break;
                    }
                }
                if let Some(m) = whole(s, &w) {
                    v.bad(m);
                }
            }
        }
        "C13" | "C14" => {
            let mut memo: BTreeMap<bool, Vec<usize>> = BTreeMap::new();
            for s in out.sess.iter().filter(|s| usable(s)) {
                let push = s.spec.iface == Iface::Push;
                let w = memo.entry(push).or_insert_with(|| model::cuts(&s.cfg, push, &s.data));
                v.checks += 1 + w.len() as u64;
                if let Some(m) = whole(s, w) {
                    v.bad(format!("reference model: {}", m));
                }
                if let Cfg::Bup { w } = s.cfg.resolved() {
                    if let Some(m) = digest(w, s, &mut v) {
                        v.bad(m);
                    }
                }
            }
        }
        _ => panic!("unknown property {}", prop),
    }
    out.sess.shrink_to_fit();
    (v, out)
}
fn bounds_step(h: u64, b: usize) -> u64 {
    crate::rng::mix(h ^ (b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

/// bup's public digest after every delivery of the session, by rolling bytes in one at a time.
fn digest(w: usize, s: &SessRun, v: &mut Verdict) -> Option<String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut d = hash_roll::bup::RollSumIncr::from(&hash_roll::bup::RollSum::with_window(w));
        let stops: std::collections::BTreeSet<usize> = s.core.quiet.iter().map(|q| q.0).collect();
        let mut n = 0;
        let step = (s.data.len() / 400).max(1);
        for (i, &b) in s.data.iter().enumerate() {
            d.roll_byte(b);
            if i % step == 0 || stops.contains(&(i + 1)) {
                n += 1;
                let want = model::bup_digest(w, &s.data[(i + 1).saturating_sub(w)..=i]);
                if d.digest() != want || d.at_split() != (want & 0x1fff == 0x1fff) {
                    return (n, Some(format!("bup digest with window {} after {} bytes is {:#x} (at_split {}), rollsum of the last {} bytes is {:#x}", w, i + 1, d.digest(), d.at_split(), w, want)));
                }
                if i % 7 == 0 {
                    d = d.clone();
                }
            }
        }
        let m = mixed(w, s, &mut n);
        (n, m)
    }));
    match r {
        Ok((n, m)) => {
            v.checks += n;
            v.probe("digest comparisons", n);
            m
        }
        Err(_) => Some(format!("rolling bytes into a bup digest of window {} panicked", w)),
    }
}

/// The same with bytes rolled in and fragments pushed in turn; a boundary reported by a push starts
/// over, one passed while rolling does not.
fn mixed(w: usize, s: &SessRun, n: &mut u64) -> Option<String> {
    let d = &s.data[..s.data.len().min(1 << 20)];
    let mut sums = vec![(0u64, 0u64)];
    for (j, &x) in d.iter().enumerate() {
        let (p, q) = sums[j];
        sums.push((p.wrapping_add(x as u64), q.wrapping_add((x as u64).wrapping_mul(j as u64))));
    }
    let ww = w as u64;
    let want = |start: usize, end: usize| -> u32 {
        let lo = start.max(end.saturating_sub(w));
        let (p, q) = (sums[end].0.wrapping_sub(sums[lo].0), sums[end].1.wrapping_sub(sums[lo].1));
        let s1 = p.wrapping_add(ww.wrapping_mul(31)) as u32;
        let s2 = (end as u64).wrapping_mul(p).wrapping_sub(q).wrapping_add(ww.wrapping_mul(ww.wrapping_sub(1)).wrapping_mul(31)) as u32;
        (s1 << 16) | (s2 & 0xffff)
    };
    let hit = |x: u32| x & 0x1fff == 0x1fff;
    let mut r = crate::rng::Rng::new(crate::rng::mix(w as u64 ^ (d.len() as u64) << 20 ^ s.id as u64));
    let mut c = hash_roll::bup::RollSumIncr::from(&hash_roll::bup::RollSum::with_window(w));
    let (mut start, mut at) = (0, 0);
    let roll = r.below(4);
    let most = r.pick(&[1, 3, w + 1, 2 * w + 1, 4096]);
    while at < d.len() {
        let len = (r.below(most + 1)).min(d.len() - at);
        *n += 1;
        if r.below(4) < roll {
            for &x in &d[at..at + len] {
                c.roll_byte(x);
            }
            at += len;
        } else {
            let first = (at + 1..=at + len).find(|&e| hit(want(start, e)));
            let got = hash_roll::ChunkIncr::push(&mut c, &d[at..at + len]);
            if got.map(|g| at + g) != first {
                return Some(format!("bup incremental chunker of window {}, bytes rolled in and pushed in turn, chunk from {}: pushing {}..{} gives {:?}, expected a boundary at {:?}", w, start, at, at + len, got, first));
            }
            at = match first {
                Some(e) => {
                    start = e;
                    e
                }
                None => at + len,
            };
        }
        let x = want(start, at);
        if c.digest() != x || c.at_split() != hit(x) {
            return Some(format!("bup digest with window {} is {:#x} (at_split {}) after bytes {}..{} were rolled in and pushed in turn, rollsum of the last {} bytes of these is {:#x}", w, c.digest(), c.at_split(), start, at, w, x));
        }
        if r.below(16) == 0 {
            c = c.clone();
        }
    }
    None
}

/// Is the difference between FastCDC's interfaces exactly the known one?  From every chunk start,
/// a fresh incremental chunker and a fresh search must differ by one byte on a hash-triggered
/// boundary and not at all on a maximum-length one.
fn fast_known(cfg: &Cfg, data: &Arc<Vec<u8>>, f: &[usize], p: &[usize]) -> bool {
    let Cfg::Fast { max, .. } = cfg.resolved() else { return false };
    let inst = crate::sut::build(cfg);
    let starts: std::collections::BTreeSet<usize> = f.iter().chain(p).copied().chain([0]).collect();
    let span = (max as usize).saturating_add(2);
    for &s in &starts {
        let d = &data[s..data.len().min(s.saturating_add(span))];
        let a = inst.fce(0).call(d).0;
        let b = inst.psh(0).push(d);
        let ok = match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b + 1 && (b as u64) < max || a == b && b as u64 == max,
            _ => false,
        };
        if !ok {
            return false;
        }
    }
    // and both lists follow from it
    let follows = |l: &[usize], fce: bool| {
        let mut at = 0usize;
        for &b in l {
            let d = &data[at..data.len().min(at.saturating_add(span))];
            let c = if fce { inst.fce(0).call(d).0 } else { inst.psh(0).push(d) };
            if c.map(|c| at + c) != Some(b) {
                return false;
            }
            at = b;
        }
        true
    };
    follows(f, true) && follows(p, false)
}

/// C18
fn equals(sc: &Scenario, out: &RunOut, v: &mut Verdict, cn: &mut Canon<'_>) {
    v.probe("states compared", out.compared);
    v.probe("states equal", out.equal.len() as u64);
    for e in &out.equal {
        let [a, b] = e.s.map(|i| &out.sess[i]);
        if [a, b].iter().any(|s| s.status != Status::Ended || s.limit != s.data.len() || !s.core.maybe.is_empty()) {
            continue;
        }
        if a.episodes.len() != e.ep[0] || b.episodes.len() != e.ep[1] {
            continue;
        }
        let [ra, rb] = [&a.data[e.at[0]..], &b.data[e.at[1]..]];
        let n = ra.iter().zip(rb).take_while(|(x, y)| x == y).count();
        let lag = a.cfg.lag(a.spec.iface == Iface::Push);
        let most = if ra.len() == rb.len() && n == ra.len() { n } else { n.saturating_sub(lag) };
        let after = |s: &SessRun, k: usize| -> Vec<usize> { s.core.bounds[e.n[k]..].iter().map(|b| b - e.at[k]).filter(|b| *b <= most).collect() };
        let (xa, xb) = (after(a, 0), after(b, 1));
        v.checks += 1 + xa.len() as u64;
        if e.at[0] != e.at[1] || a.data[..e.at[0]] != b.data[..e.at[1]] {
            v.probe("equal states with different pasts", 1);
        }
        if let Some(m) = agree(&xa, &[], &xb) {
            v.bad(format!("{} and {} compare equal {} and {} bytes into their objects, then on the same {} bytes: {}", name(a), name(b), e.at[0], e.at[1], n, m));
        }
    }
    for j in 1..sc.insts.len() {
        for i in 0..j {
            let (x, y) = (crate::sut::build(&sc.insts[i]), crate::sut::build(&sc.insts[j]));
            match x.same(&*y) {
                None => continue,
                Some(Err(m)) => v.bad(format!("{} and {}: {}", sc.insts[i].ser(), sc.insts[j].ser(), m)),
                Some(Ok(eq)) => {
                    v.probe("instances compared", 1);
                    if !eq {
                        continue;
                    }
                    v.probe("instances equal", 1);
                }
            }
            for s in &out.sess {
                let mut both = [i, j].map(|k| {
                    let mut t = s.spec.clone();
                    t.inst = k;
                    let t = SessRun::new(0, &t, &sc.insts[k], s.data.clone());
                    cn.get(&t, s.spec.iface, v)
                });
                if let (Some(p), Some(q)) = (both[0].take(), both[1].take()) {
                    v.checks += 1 + p.len() as u64;
                    if let Some(m) = agree(&p, &[], &q) {
                        v.bad(format!("{} and {} compare equal: {}", sc.insts[i].ser(), sc.insts[j].ser(), m));
                    }
                }
            }
        }
        for c in [0, j] {
            let x = crate::sut::build(&sc.insts[c]);
            if let Some(y) = x.dup() {
                if !matches!(x.same(&*y), None | Some(Ok(true))) {
                    v.bad(format!("{}: a copy does not equal its original", sc.insts[c].ser()));
                }
            }
        }
    }
}
/// C09
fn resync(sc: &Scenario, out: &RunOut, v: &mut Verdict) {
    if out.sess.len() < 2 || sc.objs.len() < 2 {
        return;
    }
    let (x, y) = (&out.sess[0], &out.sess[1]);
    if x.status != Status::Ended || y.status != Status::Ended || x.limit != x.data.len() || y.limit != y.data.len() {
        return;
    }
    // shared stretches, as (start in x, start in y, length); neighbours in both are one stretch
    let place = |o: usize| {
        let mut at = 0;
        sc.objs[o]
            .iter()
            .map(|&p| {
                let r = (p, at);
                at += sc.parts[p].len();
                r
            })
            .collect::<Vec<_>>()
    };
    let (px, py) = (place(x.spec.obj), place(y.spec.obj));
    let mut shared: Vec<(usize, usize, usize)> = vec![];
    let mut j = 0;
    for &(p, ax) in &px {
        if let Some(k) = py[j..].iter().position(|q| q.0 == p) {
            let ay = py[j + k].1;
            let n = sc.parts[p].len();
            match shared.last_mut() {
                Some(l) if l.0 + l.2 == ax && l.1 + l.2 == ay => l.2 += n,
                _ => shared.push((ax, ay, n)),
            }
            j += k + 1;
        }
    }
    let (bx, by) = (&x.core.bounds, &y.core.bounds);
    let zstd = x.cfg.algo() == Algo::Zstd;
    let limited = matches!(x.cfg.resolved(), Cfg::Buz { max, .. } if max < 1 << 40);
    for (i, &(ax, ay, n)) in shared.iter().enumerate() {
        let pristine = i == 0 && ax == 0 && ay == 0;
        if pristine {
            continue;
        }
        let inx = &bx[bx.partition_point(|&b| b <= ax)..bx.partition_point(|&b| b <= ax + n)];
        let iny = &by[by.partition_point(|&b| b <= ay)..by.partition_point(|&b| b <= ay + n)];
        let rx: Vec<usize> = inx.iter().map(|b| b - ax).collect();
        let ry: Vec<usize> = iny.iter().map(|b| b - ay).collect();
        // (1) decisions, windowed chunkers
        if let Some(w) = x.cfg.window().filter(|_| !limited) {
            let mut all: Vec<usize> = rx.iter().chain(&ry).copied().collect();
            all.sort();
            all.dedup();
            for &p in &all {
                let hx = rx.binary_search(&p).is_ok();
                let hy = ry.binary_search(&p).is_ok();
                let ok = if zstd {
                    p > 32
                } else {
                    // latest boundary strictly before this position, in absolute terms
                    let lx = bx[..bx.partition_point(|&b| b < ax + p)].last().copied().unwrap_or(0);
                    let ly = by[..by.partition_point(|&b| b < ay + p)].last().copied().unwrap_or(0);
                    p >= w && ax + p - lx >= w && ay + p - ly >= w
                };
                if ok {
                    v.checks += 1;
                    v.probe("decisions compared past a fault", 1);
                    if hx != hy {
                        v.bad(format!(
                            "{}: {} bytes past the edit (window {}), copies at {} and {}: boundary in the {} copy only",
                            name(x),
                            p,
                            w,
                            ax + p,
                            ay + p,
                            if hx { "first" } else { "second" }
                        ));
                    }
                }
            }
        }
        // (2) after a common boundary everything coincides
        let min = if zstd { 32 } else { 0 };
        if let Some(c) = rx.iter().copied().find(|p| *p >= min && ry.binary_search(p).is_ok()) {
            v.checks += 1;
            v.probe("re-synchronised stretches", 1);
            let tx: Vec<usize> = rx.iter().copied().filter(|&p| p > c).collect();
            let mut ty: Vec<usize> = ry.iter().copied().filter(|&p| p > c).collect();
            let mut tx = tx;
            // a boundary at the very end of the stretch may be decided by the byte behind it
            if x.cfg.lag(x.spec.iface == Iface::Push) > 0 {
                tx.retain(|&p| p < n);
                ty.retain(|&p| p < n);
            }
            if tx != ty {
                v.bad(format!(
                    "{}: both copies have a boundary {} bytes past the edit, later ones differ: {} against {}",
                    name(x),
                    c,
                    brief(&tx),
                    brief(&ty)
                ));
            }
        }
    }
}
