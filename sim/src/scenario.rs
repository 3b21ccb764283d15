//! A scenario is the complete, explicit input of one simulated execution, and its textual form is
//! the replay file: objects, instances, sessions, and the schedule with every fault in it.
use crate::cfg::Cfg;
use crate::sut::{ItKind, Pull};
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Iface {
    Fce,
    Push,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// n more bytes arrive, one library call
    D(usize),
    /// one library call without new bytes; incremental sessions hand over at most n pending bytes
    P(usize),
    /// drain until no boundary is left in what has arrived
    X,
    /// n more bytes arrive, a slice iterator runs over what is pending, `take` items at most
    It(usize, usize, ItKind, Pull),
    /// n more bytes arrive k at a time, drained after each
    B(usize, usize),
    /// n more bytes arrive by way of one buffer of k bytes, filled up again after each call, where
    /// it lies; drained before that if the flag is set. One that stays full is extended.
    F(usize, usize, bool),
    /// Debug-format the state
    I,
    /// snapshot the state
    K,
    /// throw the current state away and go on from snapshot j
    R(usize),
    /// copy snapshot j (or, beyond the last one, the live state), run the copy to the end of the
    /// object in pieces of n, drop it
    V(usize, usize),
    /// crash: all volatile state is gone, restart at the j-th last logged boundary (or the start)
    C(usize),
    /// the object ends here (torn stream)
    T,
    /// the stream is abandoned, its state dropped
    A,
    /// the configured instance is dropped and built anew; searches in progress go on under the new
    G,
    /// the configured instance is replaced by its clone
    H,
    /// the incremental session goes on as a search session, where its state can become one
    M,
    /// compare the state with that of another session
    E(usize),
    /// run op; inside its n-th byte-hash callback run op of another session
    Nest(u32, Box<Op>, usize, Box<Op>),
    /// run op; its n-th byte-hash callback panics
    Panic(u32, Box<Op>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    /// simulated microseconds
    pub t: u64,
    /// worker thread (0: the scheduler's own)
    pub w: u8,
    pub s: usize,
    pub op: Op,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sess {
    pub inst: usize,
    pub obj: usize,
    pub iface: Iface,
    /// the caller's buffer: 0 the object itself, 1 one buffer whose rest moves to the front with
    /// every delivery, 2 another buffer with every delivery
    pub buf: u8,
    /// opened through: 0 `to_chunk_incr` or `to_search_state`, 1 the `From` conversion of a reference
    /// to the instance, 2 that of the instance, 3 `Default` where the instance is the default; 0
    /// where there is no such way
    pub from: u8,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub parts: Vec<Vec<u8>>,
    pub objs: Vec<Vec<usize>>,
    pub insts: Vec<Cfg>,
    pub sess: Vec<Sess>,
    pub steps: Vec<Step>,
    /// the whole execution, where it is one chunk of more than 2^32 bytes
    pub haul: Option<crate::haul::Haul>,
    pub reel: Option<crate::reel::Reel>,
}

const WAYS: [&str; 4] = ["", " from", " owned", " default"];
impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::D(0) => "empty-delivery",
            Op::D(_) => "delivery",
            Op::P(_) => "re-poll",
            Op::X => "drain",
            Op::It(..) => "slices",
            Op::B(..) => "burst",
            Op::F(..) => "full-buffer",
            Op::I => "inspect",
            Op::K => "snapshot",
            Op::R(_) => "rollback",
            Op::V(..) => "branch",
            Op::C(_) => "crash",
            Op::T => "truncate",
            Op::A => "abandon",
            Op::G => "recreate",
            Op::H => "clone-instance",
            Op::M => "hand-over",
            Op::E(_) => "compare",
            Op::Nest(..) => "nested-call",
            Op::Panic(..) => "callback-panic",
        }
    }
    fn ser(&self) -> String {
        match self {
            Op::D(n) => format!("deliver {}", n),
            Op::P(n) => format!("poll {}", n),
            Op::X => "drain".into(),
            Op::It(n, t, k, p) => format!(
                "slices {} {} {}{}",
                n,
                t,
                match k {
                    ItKind::Loose => "loose",
                    ItKind::Strict => "strict",
                    ItKind::StrictTake => "strict-take",
                },
                match p {
                    Pull::Next => "",
                    Pull::Nth => " nth",
                    Pull::Take => " take",
                    Pull::Skip => " skip",
                    Pull::Each => " each",
                    Pull::Collect => " collect",
                    Pull::Count => " count",
                    Pull::Last => " last",
                }
            ),
            Op::B(n, k) => format!("burst {} {}", n, k),
            Op::F(n, k, d) => format!("fill {} {}{}", n, k, if *d { " drain" } else { "" }),
            Op::I => "inspect".into(),
            Op::K => "snapshot".into(),
            Op::R(j) => format!("rollback {}", j),
            Op::V(j, n) => format!("branch {} {}", j, n),
            Op::C(j) => format!("crash {}", j),
            Op::T => "truncate".into(),
            Op::A => "abandon".into(),
            Op::G => "recreate".into(),
            Op::H => "clone-instance".into(),
            Op::M => "hand-over".into(),
            Op::E(o) => format!("compare {}", o),
            Op::Nest(n, a, s, b) => format!("nest {} {} / {} / {}", n, s, a.ser(), b.ser()),
            Op::Panic(n, a) => format!("panic {} / {}", n, a.ser()),
        }
    }
    fn parse(s: &str) -> Op {
        let seg: Vec<&str> = s.split(" / ").collect();
        let t: Vec<&str> = seg[0].split_whitespace().collect();
        let n = |i: usize| -> usize { t[i].parse().unwrap() };
        match t[0] {
            "deliver" => Op::D(n(1)),
            "poll" => Op::P(n(1)),
            "drain" => Op::X,
            "slices" => Op::It(
                n(1),
                n(2),
                match t[3] {
                    "loose" => ItKind::Loose,
                    "strict" => ItKind::Strict,
                    _ => ItKind::StrictTake,
                },
                match t.get(4) {
                    Some(&"nth") => Pull::Nth,
                    Some(&"take") => Pull::Take,
                    Some(&"skip") => Pull::Skip,
                    Some(&"each") => Pull::Each,
                    Some(&"collect") => Pull::Collect,
                    Some(&"count") => Pull::Count,
                    Some(&"last") => Pull::Last,
                    _ => Pull::Next,
                },
            ),
            "burst" => Op::B(n(1), n(2)),
            "fill" => Op::F(n(1), n(2), t.len() > 3),
            "inspect" => Op::I,
            "snapshot" => Op::K,
            "rollback" => Op::R(n(1)),
            "branch" => Op::V(n(1), n(2)),
            "crash" => Op::C(n(1)),
            "truncate" => Op::T,
            "abandon" => Op::A,
            "recreate" => Op::G,
            "clone-instance" => Op::H,
            "hand-over" => Op::M,
            "compare" => Op::E(n(1)),
            "nest" => Op::Nest(n(1) as u32, Box::new(Op::parse(seg[1])), n(2), Box::new(Op::parse(&seg[2..].join(" / ")))),
            "panic" => Op::Panic(n(1) as u32, Box::new(Op::parse(seg[1]))),
            x => panic!("bad op {}", x),
        }
    }
}

fn hex(b: &[u8]) -> String {
    // runs of one byte as "bb*n", everything else as hex
    let mut o = String::new();
    let mut i = 0;
    let mut lit = false;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] == b[i] {
            j += 1;
        }
        if j - i >= 12 {
            if !o.is_empty() {
                o.push(' ');
            }
            let _ = write!(o, "{:02x}*{}", b[i], j - i);
            lit = false;
        } else {
            if !lit && !o.is_empty() {
                o.push(' ');
            }
            for _ in i..j {
                let _ = write!(o, "{:02x}", b[i]);
            }
            lit = true;
        }
        i = j;
    }
    o
}
fn unhex(t: &[&str]) -> Vec<u8> {
    let mut v = vec![];
    for x in t {
        if let Some((b, n)) = x.split_once('*') {
            let b = u8::from_str_radix(b, 16).unwrap();
            v.resize(v.len() + n.parse::<usize>().unwrap(), b);
        } else {
            for k in (0..x.len()).step_by(2) {
                v.push(u8::from_str_radix(&x[k..k + 2], 16).unwrap());
            }
        }
    }
    v
}

impl Scenario {
    pub fn data(&self, obj: usize) -> Vec<u8> {
        let mut v = vec![];
        for &p in &self.objs[obj] {
            v.extend_from_slice(&self.parts[p]);
        }
        v
    }
    pub fn ser(&self) -> String {
        let mut o = String::from("# hrsim scenario: replay with `hrsim replay FILE`\n");
        let _ = writeln!(o, "prop {}", self.prop);
        for p in &self.parts {
            let _ = writeln!(o, "part {}", hex(p));
        }
        for x in &self.objs {
            let _ = writeln!(o, "obj {}", x.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "));
        }
        for c in &self.insts {
            let _ = writeln!(o, "inst {}", c.ser());
        }
        for s in &self.sess {
            let _ = writeln!(o, "sess {} {} {} {}{}", s.inst, s.obj, if s.iface == Iface::Fce { "search" } else { "incr" }, s.buf, WAYS[s.from as usize]);
        }
        if let Some(h) = &self.haul {
            let _ = writeln!(o, "{}", h.ser());
        }
        if let Some(h) = &self.reel {
            let _ = writeln!(o, "{}", h.ser());
        }
        for s in &self.steps {
            let _ = writeln!(o, "step {} {} {} {}", s.t, s.w, s.s, s.op.ser());
        }
        o
    }
    pub fn parse(text: &str) -> Scenario {
        let mut sc = Scenario::default();
        for l in text.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let t: Vec<&str> = l.split_whitespace().collect();
            match t[0] {
                "haul" => sc.haul = Some(crate::haul::Haul::parse(&t)),
                "reel" => sc.reel = Some(crate::reel::Reel::parse(&t)),
                "prop" => sc.prop = t[1].into(),
                "part" => sc.parts.push(unhex(&t[1..])),
                "obj" => sc.objs.push(t[1..].iter().map(|v| v.parse().unwrap()).collect()),
                "inst" => sc.insts.push(Cfg::parse(&l[5..])),
                "sess" => sc.sess.push(Sess {
                    inst: t[1].parse().unwrap(),
                    obj: t[2].parse().unwrap(),
                    iface: if t[3] == "search" { Iface::Fce } else { Iface::Push },
                    buf: t.get(4).map_or(0, |v| v.parse().unwrap()),
                    from: t.get(5).map_or(0, |x| WAYS.iter().position(|w| w.trim() == *x).unwrap() as u8),
                }),
                "step" => sc.steps.push(Step {
                    t: t[1].parse().unwrap(),
                    w: t[2].parse().unwrap(),
                    s: t[3].parse().unwrap(),
                    op: Op::parse(&t[4..].join(" ")),
                }),
                x => panic!("bad line {}", x),
            }
        }
        sc
    }
}
