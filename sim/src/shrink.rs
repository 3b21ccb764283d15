//! Minimisation: smaller schedule, fewer faults, shorter objects, same violation.
use crate::scenario::*;
use crate::sut::Pull;

fn drop_unused(sc: &Scenario) -> Scenario {
    let mut s = sc.clone();
    // sessions without steps stay (they still run to the end); unused instances, objects and parts go
    let used: Vec<bool> = (0..s.insts.len()).map(|i| s.sess.iter().any(|x| x.inst == i)).collect();
    let map: Vec<usize> = {
        let mut n = 0;
        used.iter()
            .map(|&u| {
                n += u as usize;
                n.saturating_sub(1)
            })
            .collect()
    };
    s.insts = s.insts.into_iter().zip(&used).filter(|x| *x.1).map(|x| x.0).collect();
    for x in s.sess.iter_mut() {
        x.inst = map[x.inst];
    }
    let used: Vec<bool> = (0..s.objs.len()).map(|i| s.sess.iter().any(|x| x.obj == i)).collect();
    let map: Vec<usize> = {
        let mut n = 0;
        used.iter()
            .map(|&u| {
                n += u as usize;
                n.saturating_sub(1)
            })
            .collect()
    };
    s.objs = s.objs.into_iter().zip(&used).filter(|x| *x.1).map(|x| x.0).collect();
    for x in s.sess.iter_mut() {
        x.obj = map[x.obj];
    }
    for (i, p) in s.parts.iter_mut().enumerate() {
        if !s.objs.iter().any(|o| o.contains(&i)) {
            p.clear();
        }
    }
    s
}
fn without_session(sc: &Scenario, k: usize) -> Scenario {
    let mut s = sc.clone();
    s.sess.remove(k);
    let fix = |x: usize| if x > k { x - 1 } else { x };
    let mut steps = vec![];
    for mut st in s.steps.into_iter() {
        if let Op::Nest(n, a, s2, b) = st.op.clone() {
            if st.s == k {
                st.s = s2;
                st.op = *b;
            } else if s2 == k {
                st.op = *a;
            } else {
                st.op = Op::Nest(n, a, fix(s2), b);
            }
        } else if st.s == k || st.op == Op::E(k) {
            continue;
        } else if let Op::E(o) = st.op {
            st.op = Op::E(fix(o));
        }
        if st.s == k {
            continue;
        }
        st.s = fix(st.s);
        steps.push(st);
    }
    s.steps = steps;
    drop_unused(&s)
}
fn simpler_ops(op: &Op) -> Vec<Op> {
    match op {
        Op::D(n) if *n > 0 => vec![Op::D(0), Op::D(n / 2), Op::D(n - 1)],
        Op::B(n, k) => vec![Op::D(*n), Op::B(n / 2, *k), Op::B(*n, 1), Op::B(n.saturating_sub(1), *k)],
        Op::F(n, k, d) => vec![
            Op::D(*n),
            Op::B(*n, *k),
            Op::F(*n, *k, false),
            Op::F(n / 2, *k, *d),
            Op::F(n.saturating_sub(1), *k, *d),
            Op::F(*n, k / 2, *d),
            Op::F(*n, k.saturating_sub(1), *d),
        ],
        Op::It(n, t, k, p) => vec![
            Op::D(*n),
            Op::It(*n, *t, *k, Pull::Next),
            Op::It(n / 2, *t, *k, *p),
            Op::It(n.saturating_sub(1), *t, *k, *p),
            Op::It(*n, t / 2, *k, *p),
        ],
        Op::P(n) if *n > 0 => vec![Op::P(n / 2)],
        Op::C(j) if *j > 0 => vec![Op::C(0), Op::C(j - 1)],
        Op::R(j) if *j > 0 => vec![Op::R(0)],
        Op::V(j, n) => vec![Op::V(*j, n * 2), Op::V(0, *n)],
        Op::Nest(n, a, s, b) => {
            let mut v = vec![(**a).clone()];
            if *n > 0 {
                v.push(Op::Nest(0, a.clone(), *s, b.clone()));
                v.push(Op::Nest(n / 2, a.clone(), *s, b.clone()));
            }
            v.extend(simpler_ops(a).into_iter().map(|x| Op::Nest(*n, Box::new(x), *s, b.clone())));
            v.extend(simpler_ops(b).into_iter().map(|x| Op::Nest(*n, a.clone(), *s, Box::new(x))));
            v
        }
        Op::Panic(n, a) => {
            let mut v = vec![(**a).clone()];
            if *n > 0 {
                v.push(Op::Panic(0, a.clone()));
                v.push(Op::Panic(n / 2, a.clone()));
            }
            v.extend(simpler_ops(a).into_iter().map(|x| Op::Panic(*n, Box::new(x))));
            v
        }
        _ => vec![],
    }
}

/// `test` says, for a batch of candidates, which is the first that still fails.
pub fn minimise(start: Scenario, mut test: impl FnMut(&[Scenario]) -> Option<usize>) -> Scenario {
    let mut cur = start;
    macro_rules! try_all {
        ($c:expr) => {{
            let mut hit = false;
            let c: Vec<Scenario> = $c;
            for g in c.chunks(8) {
                if let Some(i) = test(g) {
                    cur = g[i].clone();
                    hit = true;
                    break;
                }
            }
            hit
        }};
    }
    for _round in 0..6 {
        let before = cur.ser().len();
        // whole sessions
        let mut k = cur.sess.len();
        while k > 0 && cur.sess.len() > 1 {
            k -= 1;
            let c = without_session(&cur, k);
            try_all!(vec![c]);
        }
        // stretches of steps
        let mut size = cur.steps.len();
        while size > 0 {
            let mut at = 0;
            while at < cur.steps.len() {
                let mk = |a: usize| {
                    let mut c = cur.clone();
                    let e = (a + size).min(c.steps.len());
                    c.steps.drain(a..e);
                    c
                };
                let starts: Vec<usize> = (0..8).map(|i| at + i * size).filter(|&a| a < cur.steps.len()).collect();
                let cands: Vec<Scenario> = starts.iter().map(|&a| mk(a)).collect();
                match test(&cands) {
                    Some(i) => {
                        cur = cands[i].clone();
                        at = starts[i];
                    }
                    None => at += size * starts.len().max(1),
                }
            }
            size /= 2;
        }
        // stretches of the objects
        for p in 0..cur.parts.len() {
            let mut size = cur.parts[p].len();
            while size > 0 {
                let mut at = 0;
                while at < cur.parts[p].len() {
                    let starts: Vec<usize> = (0..8).map(|i| at + i * size).filter(|&a| a < cur.parts[p].len()).collect();
                    let cands: Vec<Scenario> = starts
                        .iter()
                        .map(|&a| {
                            let mut c = cur.clone();
                            let e = (a + size).min(c.parts[p].len());
                            c.parts[p].drain(a..e);
                            c
                        })
                        .collect();
                    match test(&cands) {
                        Some(i) => {
                            cur = cands[i].clone();
                            at = starts[i];
                        }
                        None => at += size * starts.len().max(1),
                    }
                }
                size /= 2;
                // a long object is not worth byte-by-byte work
                if cur.parts[p].len() / size.max(1) > 400 {
                    break;
                }
            }
        }
        // arguments
        for i in 0..cur.steps.len() {
            for _ in 0..12 {
                let c: Vec<Scenario> = simpler_ops(&cur.steps[i].op)
                    .into_iter()
                    .map(|o| {
                        let mut c = cur.clone();
                        c.steps[i].op = o;
                        c
                    })
                    .collect();
                if c.is_empty() || !try_all!(c) {
                    break;
                }
            }
        }
        // one thread, even pace
        {
            let mut c = cur.clone();
            for s in c.steps.iter_mut() {
                s.w = 0;
            }
            if c != cur {
                try_all!(vec![c]);
            }
            let mut c = cur.clone();
            for (i, s) in c.steps.iter_mut().enumerate() {
                s.t = i as u64;
            }
            if c != cur {
                try_all!(vec![c]);
            }
        }
        // plain caller
        for i in 0..cur.sess.len() {
            for (buf, from) in [(0, 0), (0, cur.sess[i].from), (cur.sess[i].buf, 0)] {
                let mut c = cur.clone();
                c.sess[i].buf = buf;
                c.sess[i].from = from;
                if c != cur && try_all!(vec![c]) {
                    break;
                }
            }
        }
        // plain bytes
        for p in 0..cur.parts.len() {
            let n = cur.parts[p].len();
            if n == 0 || n > 200 {
                continue;
            }
            for i in 0..n {
                if cur.parts[p][i] != 0 {
                    let mut c = cur.clone();
                    c.parts[p][i] = 0;
                    try_all!(vec![c]);
                }
            }
        }
        if cur.ser().len() >= before {
            break;
        }
    }
    cur
}
