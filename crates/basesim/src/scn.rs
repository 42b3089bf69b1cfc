//! Scenarios: what the caller threads do; generated from a seed, shrinkable, with a text form.
use crate::ops::*;
use simrt::{At, FaultKind, OpFault, Rng, SchedSpec};
use basework::simtypes::Action;

#[derive(Clone, Debug)]
pub struct Scn {
    pub profile: String,
    pub cpus: i64,
    pub warm: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub post: Vec<Op>,
    /// how many threads start together; the next ones when these have ended (0: all at once)
    pub wave: usize,
}

impl Scn {
    pub fn to_text(&self) -> String {
        let mut s = format!("profile {} cpus {} wave {}\n", self.profile, self.cpus, self.wave);
        for o in &self.warm {
            s.push_str(&format!("warm {}\n", o.to_text()));
        }
        for (i, t) in self.threads.iter().enumerate() {
            for o in t {
                s.push_str(&format!("thread {i} {}\n", o.to_text()));
            }
        }
        for o in &self.post {
            s.push_str(&format!("post {}\n", o.to_text()));
        }
        s
    }
    pub fn from_text(t: &str) -> Option<Scn> {
        let mut s = Scn { profile: String::new(), cpus: 8, warm: vec![], threads: vec![], post: vec![], wave: 0 };
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match *w.first()? {
                "profile" => {
                    s.profile = w[1].into();
                    s.cpus = w[3].parse().ok()?;
                    s.wave = w.get(5).map_or(Some(0), |x| x.parse().ok())?;
                }
                "warm" => s.warm.push(Op::from_words(&w[1..])?),
                "post" => s.post.push(Op::from_words(&w[1..])?),
                "thread" => {
                    let i: usize = w[1].parse().ok()?;
                    while s.threads.len() <= i {
                        s.threads.push(vec![]);
                    }
                    s.threads[i].push(Op::from_words(&w[2..])?);
                }
                _ => return None,
            }
        }
        Some(s)
    }

    pub fn shrink(&self) -> Vec<Scn> {
        let mut out = vec![];
        // long histories: cut pieces out, coarsest first (and never build all candidates of a
        // history of thousands of calls at once)
        if self.threads.iter().map(|t| t.len()).sum::<usize>() > 300 {
            for parts in [2usize, 4, 16] {
                for i in 0..self.threads.len() {
                    let n = self.threads[i].len();
                    let size = (n + parts - 1) / parts;
                    for k in 0..parts {
                        let (a, b) = (k * size, ((k + 1) * size).min(n));
                        if a < b && out.len() < 80 && (n > 1 || self.threads.len() > 1) {
                            let mut c = self.clone();
                            c.threads[i].drain(a..b);
                            if c.threads[i].is_empty() && c.threads.len() > 1 {
                                c.threads.remove(i);
                            }
                            out.push(c);
                        }
                    }
                }
            }
            return out;
        }
        let with = |f: &dyn Fn(&mut Scn)| {
            let mut c = self.clone();
            f(&mut c);
            c
        };
        if self.wave > 0 {
            out.push(with(&|c| c.wave = 0));
        }
        if !self.post.is_empty() {
            out.push(with(&|c| c.post.clear()));
        }
        if !self.warm.is_empty() {
            out.push(with(&|c| c.warm.clear()));
        }
        for i in 0..self.threads.len() {
            if self.threads.len() > 1 {
                out.push(with(&|c| {
                    c.threads.remove(i);
                }));
            }
        }
        for i in 0..self.threads.len() {
            let n = self.threads[i].len();
            if n > 1 {
                out.push(with(&|c| {
                    c.threads[i].drain(..n / 2);
                }));
                out.push(with(&|c| {
                    c.threads[i].truncate(n / 2);
                }));
            }
            if n > 1 && n < 12 {
                for j in 0..n {
                    out.push(with(&|c| {
                        c.threads[i].remove(j);
                    }));
                }
            }
        }
        for j in 0..self.post.len() {
            if self.post.len() > 1 {
                out.push(with(&|c| {
                    c.post.remove(j);
                }));
            }
        }
        for j in 0..self.warm.len() {
            if self.warm.len() > 1 {
                out.push(with(&|c| {
                    c.warm.remove(j);
                }));
            }
        }
        for i in 0..self.threads.len() {
            for j in 0..self.threads[i].len() {
                let o = &self.threads[i][j];
                if o.fault.is_some() {
                    out.push(with(&|c| c.threads[i][j].fault = None));
                }
                if o.hook.is_some() {
                    out.push(with(&|c| c.threads[i][j].hook = None));
                }
                if o.exit > 0 {
                    out.push(with(&|c| c.threads[i][j].exit = 0));
                }
                let fixed = match o.k {
                    K::Hm | K::Sm => Some(3),
                    K::Vl => Some(2),
                    K::Cl => Some(0),
                    _ => None,
                };
                if let Some(m) = fixed {
                    if o.a.len() > m + 1 {
                        out.push(with(&|c| {
                            c.threads[i][j].a.pop();
                        }));
                    }
                }
                if o.k == K::Hl && o.a[0] > 20 {
                    out.push(with(&|c| c.threads[i][j].a[0] /= 2));
                    out.push(with(&|c| c.threads[i][j].a[0] -= 1));
                }
            }
        }
        out
    }
}

struct Pool {
    ids: Vec<u64>,
}
impl Pool {
    fn new(r: &mut Rng) -> Pool {
        let mut ids = vec![];
        let nb = r.range(1, 3);
        let bases: Vec<u64> = (0..nb).map(|_| 1 + r.below(1 << 40)).collect();
        for _ in 0..r.range(2, 8) {
            ids.push(match r.below(4) {
                0 => r.below(refmodel::vals::SPECIAL),
                _ => *r.pick(&bases) << 8 | if r.chance(1, 3) { 0 } else { r.below(14) },
            });
        }
        Pool { ids }
    }
    fn one(&self, r: &mut Rng) -> u64 {
        if r.chance(1, 12) {
            1 + r.below(1 << 50)
        } else {
            *r.pick(&self.ids)
        }
    }
    fn many(&self, r: &mut Rng, n: usize) -> Vec<u64> {
        let mut v: Vec<u64> = (0..n).map(|_| self.one(r)).collect();
        // trailing or leading zeroes on purpose
        if n > 0 && r.chance(1, 5) {
            v[n - 1] = 0;
        }
        if n > 1 && r.chance(1, 8) {
            v[0] = 0;
        }
        v
    }
}

fn cap_args(r: &mut Rng) -> Vec<u64> {
    match r.below(8) {
        0..=2 => vec![0, 0, 0],
        3 => vec![1, 0, 0],
        4 => vec![1, r.below(4), 0],
        5 => vec![1, r.next(), r.next()],
        6 => vec![1, 0, r.below(1000)],
        _ => vec![1, u64::MAX, u64::MAX - r.below(2)],
    }
}

fn compute_op(r: &mut Rng, p: &Pool) -> Op {
    let k = *r.pick(&[
        K::H2, K::Hd, K::Hd, K::Hd, K::Hd, K::Hm, K::Hm, K::Hm, K::Hm, K::Cl, K::Cl, K::Ci, K::Vl, K::Vl, K::Pf, K::Pf,
        K::Ps, K::Wd, K::S2, K::Sm, K::Sc, K::Sp, K::Pc, K::Pp, K::Gt, K::Bs,
    ]);
    op_of(k, r, p)
}

fn op_of(k: K, r: &mut Rng, p: &Pool) -> Op {
    let len = |r: &mut Rng| match r.below(12) {
        0..=7 => r.range(1, 6),
        8 | 9 => r.range(7, 12),
        _ => r.range(13, 40),
    } as usize;
    let lens = [1, 2, 3, 4, 5, 6, 7, 8, 16, 17];
    let a = match k {
        K::H2 => p.many(r, 2),
        K::Hd | K::S2 => p.many(r, 3),
        K::Hm | K::Sm => {
            let mut a = cap_args(r);
            let n = len(r);
            a.extend(p.many(r, if k == K::Sm { n.min(9) } else { n }));
            a
        }
        K::Hl => {
            let mut a = vec![r.range(41, 700), 1 + r.below(1 << 30)];
            a.extend(cap_args(r));
            a
        }
        K::Cl => {
            let n = *r.pick(&lens);
            p.many(r, n)
        }
        K::Ci => {
            let n = *r.pick(&lens) + 1;
            p.many(r, n)
        }
        K::Vl => {
            let mut a = cap_args(r)[1..].to_vec();
            let n = len(r);
            a.extend(p.many(r, n));
            a
        }
        K::Pf => {
            let mut a = vec![r.below(4)];
            a.extend(p.many(r, 3));
            a
        }
        K::Ps => {
            let mut a = vec![r.below(2)];
            a.extend(p.many(r, 3));
            a
        }
        K::Wd => {
            let mut a = vec![r.below(6), r.below(2)];
            let n = r.range(2, 8) as usize;
            a.extend(p.many(r, n));
            a
        }
        K::Sc => {
            let n = r.range(1, 7) as usize;
            p.many(r, n)
        }
        K::Sp => p.many(r, 3),
        K::Pc => {
            let n = r.range(1, 7) as usize;
            p.many(r, n)
        }
        K::Pp => {
            let mut a = vec![r.below(3)];
            a.extend(p.many(r, 3));
            a
        }
        K::Gt => vec![r.below(basework::GETTERS)],
        K::Bs => vec![],
        K::Bad => vec![r.below(basework::BADS), p.one(r)],
        K::Ob => vec![r.below(SLOTS as u64), r.below(8)],
        K::Cp => vec![r.below(SLOTS as u64), r.below(SLOTS as u64)],
        K::Dr | K::Db => vec![r.below(SLOTS as u64)],
        K::Up => {
            let mut a = vec![r.below(SLOTS as u64)];
            a.extend(p.many(r, 3));
            a
        }
        K::Uh | K::Mv => {
            let c = cap_args(r);
            let mut a = vec![r.below(SLOTS as u64), c[1], c[2]];
            let n = r.range(5, 9) as usize;
            a.extend(p.many(r, n));
            a
        }
    };
    Op::new(k, a)
}

fn stall(r: &mut Rng) -> FaultKind {
    FaultKind::Stall(r.log(21))
}

/// steps between the access a fault is aimed at and the fault
fn off(r: &mut Rng) -> u64 {
    (if r.chance(1, 2) { 0 } else { r.below(24) }) << 32
}

fn at(r: &mut Rng, est: u64) -> At {
    if r.chance(2, 5) {
        let k = r.range(0, 7);
        At::Hot(r.below(1 << k) | off(r))
    } else {
        let n = r.below(est.max(2));
        At::Step(if r.chance(1, 4) { n % 64 } else { n })
    }
}

/// the calls that make sure the shared parameters exist, then one of every kind in use
pub fn standard_warm_up() -> Vec<Op> {
    let mut w: Vec<Op> = (0..basework::GETTERS).map(|g| Op::new(K::Gt, vec![g])).collect();
    for t in [
        "h2 3 4", "hd 3 4 5", "hm 0 0 0 3", "cl 3 4 5", "ci 0 3 4 5", "vl 0 1 3 4 5", "pf 0 3 4 5", "pf 1 3 4 5", "pf 2 3 4 5", "pf 3 3 4 5",
        "ps 0 3 4 5", "ps 1 3 4 5", "wd 0 0 1 3 4 5", "wd 1 0 1 3 4 5", "wd 2 0 1 3 4 5", "wd 3 0 1 3 4 5", "wd 4 0 1 3 4 5", "wd 5 0 1 3 4 5",
        "s2 3 4 5", "sm 0 0 0 3 4 5", "sc 3 4 5", "sp 3 4 5", "pc 3 4 5", "pp 0 3 4 5", "pp 1 3 4 5", "pp 2 3 4 5", "bs",
    ] {
        w.push(Op::from_words(&t.split_whitespace().collect::<Vec<_>>()).unwrap());
    }
    w
}
pub fn warm_up(r: &mut Rng, threads: &[Vec<Op>], post: &[Op]) -> Vec<Op> {
    let mut w: Vec<Op> = (0..r.below(3)).map(|_| Op::new(K::Gt, vec![[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13][r.below(11) as usize]])).collect();
    w.push(Op::new(K::Hd, vec![3, 4, 5]));
    w.push(Op::new(K::Hm, vec![0, 0, 0, 3]));
    let mut seen = std::collections::BTreeSet::new();
    for o in threads.iter().flatten().chain(post) {
        let sub = match o.k {
            K::Wd | K::Pp | K::Pf | K::Ps => o.a[0],
            _ => 0,
        };
        if !matches!(o.k, K::Gt | K::Bad | K::Ob | K::Cp | K::Dr | K::Up | K::Uh | K::Mv | K::Db) && seen.insert((o.k, sub)) {
            let mut c = o.clone();
            c.fault = None;
            c.hook = None;
            w.push(c);
        }
    }
    w
}

/// steps of one operation when alone in a warm process (calibrated on the current tree)
pub struct Cal {
    pub block: Vec<u64>,
    pub first: u64,
}
impl Cal {
    pub fn op(&self, o: &Op) -> u64 {
        self.block[o.k as usize] * o.blocks()
    }
}

pub fn generate(property: &str, seed: u64, index: u64, thorough: bool, cal: &Cal) -> (Scn, SchedSpec) {
    let r = &mut Rng::new(seed);
    if property == "C01" && index < 8 {
        return soak(r, index, thorough);
    }
    if property == "C03" && index < 5 {
        return failures(r, index, thorough);
    }
    if property == "C05" && index < 4 {
        return handles(r, index, thorough);
    }
    let p = Pool::new(r);
    // now and then far more callers than any small fixed number
    let crowd = r.chance(1, 50);
    let nt = match property {
        _ if crowd => *r.pick(&[9, 17, 20, 33, 40, 70]),
        "C02" => r.range(2, 6),
        _ => *r.pick(&[1, 2, 2, 2, 3, 3, 4, 5, 6]),
    } as usize;
    let maxops = if crowd {
        2
    } else if property == "C05" {
        14
    } else {
        7
    };
    let mut threads: Vec<Vec<Op>> = vec![];
    let mut post = vec![];
    let mut warm = vec![];
    let mut profile = property.to_string();
    let mut spurious = false;
    // swarm: a run concentrates on a few kinds
    let focus: Vec<Op> = (0..r.range(1, 4)).map(|_| compute_op(r, &p)).collect();
    let focused = r.chance(1, 2);
    let op = |r: &mut Rng| -> Op {
        if focused && r.chance(4, 5) {
            let k = r.pick(&focus).k;
            op_of(k, r, &p)
        } else {
            compute_op(r, &p)
        }
    };
    match property {
        "C01" => {
            for _ in 0..nt {
                let n = r.range(1, maxops);
                let mut v: Vec<Op> = (0..n).map(|_| op(r)).collect();
                for o in v.iter_mut() {
                    if matches!(o.k, K::S2 | K::Sm | K::Sc | K::Sp | K::Wd) {
                        o.hook = match r.below(4) {
                            0 => Some((1 + r.below(900), Action::Reenter)),
                            1 => Some((1 + r.below(300), Action::Yield)),
                            _ => None,
                        };
                    }
                    if r.chance(1, 12) {
                        o.fault = Some(OpFault { kind: stall(r), at: at(r, cal.op(o)) });
                    }
                }
                if r.chance(1, 10) {
                    let i = r.usize(v.len());
                    v[i] = op_of(K::Hl, r, &p);
                }
                // the same call again: results must not depend on history
                if r.chance(1, 3) {
                    let o = v[r.usize(v.len())].clone();
                    v.push(o);
                }
                threads.push(v);
            }
            if r.chance(1, 2) {
                profile.push_str("-warm");
            }
            if r.chance(1, 3) {
                post = (0..r.range(1, 3)).map(|_| op(r)).collect();
            }
            // a few calls contended over again and again
            if r.chance(1, 3) {
                let main = r.chance(2, 3);
                let k = if main { *r.pick(&[K::Hd, K::Hd, K::H2, K::Hm]) } else { op(r).k };
                let mut few: Vec<Op> = (0..2).map(|_| op_of(k, r, &p)).collect();
                if r.chance(1, 4) {
                    few.push(op(r));
                }
                threads = (0..nt.max(2))
                    .map(|_| (0..r.range(3, 9)).map(|_| r.pick(&few).clone()).collect())
                    .collect();
                for o in threads.iter_mut().flatten() {
                    o.fault = None;
                    if r.chance(1, 3) {
                        // stopped right at one of its accesses to what the callers share
                        let k = r.range(1, 5);
                        let len = 1000 << r.below(11);
                        o.fault = Some(OpFault { kind: FaultKind::Stall(len), at: At::Hot(r.below(1 << k) | off(r)) });
                    }
                }
                post = few;
            }
            spurious = r.chance(1, 3);
        }
        "C02" => {
            spurious = r.chance(2, 3);
            for _ in 0..nt {
                let n = if crowd { 1 } else { r.range(1, 5) };
                let mut v = vec![];
                for j in 0..n {
                    let mut o = match r.below(8) {
                        0..=4 => op_of(K::Gt, r, &p),
                        5 => op_of(*r.pick(&[K::Pc, K::Pp]), r, &p),
                        6 => op_of(*r.pick(&[K::Hd, K::Hm, K::H2]), r, &p),
                        _ => op(r),
                    };
                    if j == 0 && r.chance(1, 3) {
                        let est = cal.first;
                        o.fault = Some(OpFault { kind: stall(r), at: at(r, est) });
                    }
                    v.push(o);
                }
                threads.push(v);
            }
            for g in 0..basework::GETTERS {
                if r.chance(1, 2) {
                    post.push(Op::new(K::Gt, vec![g]));
                }
            }
            post.push(op_of(K::Hd, r, &p));
            if r.chance(1, 6) {
                // one thread races only itself: order of first touch
                threads.truncate(1);
            }
        }
        "C03" => {
            let abandon = r.chance(1, 2);
            let mut had = false;
            for _ in 0..nt {
                let n = r.range(1, maxops);
                let mut v: Vec<Op> = vec![];
                for _ in 0..n {
                    let mut o = op(r);
                    match r.below(10) {
                        0..=2 => {
                            o = op_of(*r.pick(&[K::S2, K::Sm, K::Sc, K::Sp, K::Wd]), r, &p);
                            let n = if r.chance(1, 4) { 1 + r.below(6) } else { 1 + r.below(1200) };
                            o.hook = Some((n, Action::Panic));
                            had = true;
                        }
                        3 => {
                            o = op_of(K::Bad, r, &p);
                            had = true;
                        }
                        4 if abandon => {
                            o.fault = Some(OpFault { kind: FaultKind::Abandon, at: at(r, cal.op(&o)) });
                            had = true;
                        }
                        _ => {}
                    }
                    let stop = matches!(o.fault, Some(OpFault { kind: FaultKind::Abandon, .. }));
                    v.push(o);
                    if stop {
                        break;
                    }
                }
                // and go on hashing after the failure, on the same thread
                if v.last().unwrap().fault.is_none() {
                    v.push(op(r));
                }
                threads.push(v);
            }
            if !had {
                let mut o = op_of(*r.pick(&[K::S2, K::Sm, K::Sc, K::Wd]), r, &p);
                o.hook = Some((1 + r.below(900), Action::Panic));
                threads[0].insert(0, o);
            }
            for _ in 0..r.range(1, 4) {
                post.push(op(r));
            }
            if r.chance(1, 3) {
                let o = op_of(K::Bad, r, &p);
                post.insert(0, o);
                post.push(op(r));
            }
            if abandon || r.chance(1, 2) {
                profile.push_str("-warm");
            }
        }
        "C04" => {
            let w = r.chance(3, 4);
            if w {
                profile.push_str("-warm");
            }
            let nt = nt.max(2);
            // a crowd that mostly stops, all at calls of the same kind or all over
            let same = r.chance(2, 3).then(|| op(r).k);
            for t in 0..nt {
                let n = if crowd { 1 } else { r.range(1, 5) };
                let mut v: Vec<Op> = vec![];
                for _ in 0..n {
                    let mut o = match same {
                        Some(k) if crowd => op_of(k, r, &p),
                        _ => op(r),
                    };
                    if r.chance(if crowd { 3 } else if t == 0 { 2 } else { 1 }, 4) {
                        let est = if w { cal.op(&o) } else { cal.first };
                        let kind = if w && r.chance(2, 3) { FaultKind::Abandon } else { stall(r) };
                        o.fault = Some(OpFault { kind, at: at(r, est) });
                    }
                    let stop = matches!(o.fault, Some(OpFault { kind: FaultKind::Abandon, .. }));
                    v.push(o);
                    if stop {
                        break;
                    }
                }
                threads.push(v);
            }
            spurious = r.chance(1, 3);
            for _ in 0..r.range(1, 3) {
                post.push(op(r));
            }
            if let (Some(k), true) = (same, crowd) {
                post.push(op_of(k, r, &p));
            }
        }
        _ => {
            // C05
            if r.chance(2, 3) {
                profile.push_str("-warm");
            }
            let hk = [K::Ob, K::Cp, K::Cp, K::Dr, K::Up, K::Up, K::Up, K::Uh, K::Uh, K::Uh, K::Mv, K::Db];
            for s in 0..r.range(1, SLOTS as u64) {
                warm.push(Op::new(K::Ob, vec![s, r.below(8)]));
            }
            for _ in 0..nt {
                let n = r.range(2, maxops);
                let v = (0..n)
                    .map(|_| {
                        if r.chance(1, 8) {
                            op(r)
                        } else {
                            let k = *r.pick(&hk);
                            op_of(k, r, &p)
                        }
                    })
                    .collect();
                threads.push(v);
            }
            for s in 0..SLOTS as u64 {
                for k in [K::Up, K::Uh] {
                    let mut o = op_of(k, r, &p);
                    o.a[0] = s;
                    post.push(o);
                }
            }
            for _ in 0..2 {
                post.push(op(r));
            }
        }
    }
    if profile.contains("warm") {
        warm.extend(warm_up(r, &threads, &post));
    }
    let est: u64 = threads.iter().flatten().map(|o| cal.op(o)).sum::<u64>() + if warm.is_empty() { cal.first } else { 0 };
    let cpus = *r.pick(&[1, 2, 3, 4, 8, 16, 64, 0]);
    let mut spec = SchedSpec::draw(r, est, spurious);
    if property == "C01" && nt == 1 {
        spec.strategy = simrt::Strategy::Seq;
    }
    // some callers call from the destructors that run when their thread ends
    if r.chance(1, 6) {
        for t in threads.iter_mut() {
            if r.chance(1, 2) {
                continue;
            }
            let n = t.len() as u64;
            for _ in 0..r.range(1, 2) {
                let j = if r.chance(1, 2) { n - 1 } else { r.below(n) } as usize;
                if t[j].k != K::Mv {
                    t[j].exit = *r.pick(&[1, 1, 2]);
                }
            }
        }
    }
    let wave = if threads.len() > 1 && r.chance(1, 6) { r.range(1, threads.len() as u64 - 1) as usize } else { 0 };
    (Scn { profile, cpus, warm, threads, post, wave }, spec)
}

/// long histories of calls that fail, with good calls in between and after
fn failures(r: &mut Rng, index: u64, thorough: bool) -> (Scn, SchedSpec) {
    let p = Pool::new(r);
    let n = 400 * if thorough { 8 } else { 1 };
    let mut bad = |r: &mut Rng| -> Op {
        if index == 0 || index != 1 && r.chance(1, 2) {
            op_of(K::Bad, r, &p)
        } else {
            let mut o = op_of(*r.pick(&[K::S2, K::Sm, K::Sc, K::Sp, K::Wd]), r, &p);
            o.hook = Some((1 + r.below(if index == 4 { 20 } else { 900 }), Action::Panic));
            o
        }
    };
    let nt = if index < 3 { 1 } else { 3 };
    let threads = (0..nt)
        .map(|_| {
            let mut v = vec![];
            for _ in 0..n / nt {
                v.push(bad(r));
                if r.chance(1, 12) {
                    v.push(compute_op(r, &p));
                }
            }
            v.extend((0..6).map(|_| compute_op(r, &p)));
            v
        })
        .collect();
    let mut post = standard_warm_up();
    post.retain(|o| o.k != K::Gt);
    let strategy = simrt::Strategy::Random { bits: 16 };
    let spec = SchedSpec { seed: r.next(), strategy, p_conflict: 0, p_store: 0, p_spurious: 0, p_clock: 0 };
    (Scn { profile: "C03-soak".into(), cpus: 8, warm: vec![], threads, post, wave: 0 }, spec)
}

/// long histories of handles
fn handles(r: &mut Rng, index: u64, thorough: bool) -> (Scn, SchedSpec) {
    let p = Pool::new(r);
    let n = 2400 * if thorough { 8 } else { 1 };
    let nt = if index < 2 { 1 } else { 4 };
    let hk: &[K] = if index % 2 == 0 {
        &[K::Cp, K::Cp, K::Cp, K::Cp, K::Up, K::Uh]
    } else {
        &[K::Ob, K::Cp, K::Cp, K::Dr, K::Up, K::Up, K::Up, K::Uh, K::Uh, K::Uh, K::Mv, K::Db]
    };
    let warm: Vec<Op> = (0..SLOTS as u64).map(|s| Op::new(K::Ob, vec![s, r.below(8)])).collect();
    let threads: Vec<Vec<Op>> = (0..nt).map(|_| (0..n / nt).map(|_| op_of(*r.pick(hk), r, &p)).collect()).collect();
    let mut post = vec![];
    for s in 0..SLOTS as u64 {
        for k in [K::Up, K::Uh] {
            let mut o = op_of(k, r, &p);
            o.a[0] = s;
            post.push(o);
        }
    }
    let strategy = simrt::Strategy::Random { bits: 16 };
    let spec = SchedSpec { seed: r.next(), strategy, p_conflict: 0, p_store: 0, p_spurious: 0, p_clock: 0 };
    (Scn { profile: "C05-soak".into(), cpus: 8, warm, threads, post, wave: 0 }, spec)
}

/// long histories: many calls in one process, very long messages, many distinct arguments
fn soak(r: &mut Rng, index: u64, thorough: bool) -> (Scn, SchedSpec) {
    let p = Pool::new(r);
    let mut threads = vec![];
    let scale = if thorough { 8 } else { 1 };
    match index {
        0 => {
            // very long messages around powers of two
            let mut v = vec![];
            for n in [255u64, 256, 257, 511, 512, 1023, 1025, 4095, 4097, 65535, 65536, 65537] {
                v.push(Op::new(K::Hl, vec![n, 1 + r.below(1 << 30), 0, 0, 0]));
            }
            threads.push(v);
        }
        1 | 2 => {
            // thousands of calls on one thread, arguments from a wide range
            let mut v = vec![];
            for i in 0..20_000 * scale {
                let k = if index == 1 { *r.pick(&[K::Hd, K::H2]) } else { *r.pick(&[K::Hm, K::Vl]) };
                let mut o = op_of(k, r, &p);
                if k == K::Hd && i % 3 == 0 {
                    o.a = vec![16 + (i << 8), 16 + ((i + 1) << 8), i % 7];
                }
                if k == K::Hm || k == K::Vl {
                    o.a.truncate(if k == K::Hm { 6 } else { 5 });
                    if i % 3 == 0 {
                        *o.a.last_mut().unwrap() = 16 + (i << 8);
                    }
                }
                v.push(o);
            }
            threads.push(v);
        }
        3 | 4 => {
            // the same, all kinds, on several threads
            for _ in 0..4 {
                threads.push((0..1500 * scale).map(|_| compute_op(r, &p)).collect());
            }
        }
        5 => {
            // every length of message once, in random order
            let mut v: Vec<Op> = (1..=300u64)
                .map(|n| {
                    let mut a = vec![n, 1 + r.below(1 << 30)];
                    a.extend(cap_args(r));
                    Op::new(K::Hl, a)
                })
                .collect();
            for i in (1..v.len()).rev() {
                v.swap(i, r.usize(i + 1));
            }
            let w = v.split_off(150);
            threads.push(v);
            threads.push(w);
        }
        6 => {
            // identical calls over and over
            let o: Vec<Op> = (0..3).map(|_| compute_op(r, &p)).collect();
            for _ in 0..2 {
                threads.push((0..3000 * scale).map(|i| o[(i % 3) as usize].clone()).collect());
            }
        }
        _ => {
            // many short-lived callers
            for _ in 0..40 {
                threads.push((0..2).map(|_| compute_op(r, &p)).collect());
            }
        }
    }
    let strategy = if index == 7 { simrt::Strategy::Random { bits: 12 } } else { simrt::Strategy::Random { bits: 18 } };
    let spec = SchedSpec { seed: r.next(), strategy, p_conflict: 0, p_store: 0, p_spurious: 0, p_clock: 0 };
    (Scn { profile: "C01-soak".into(), cpus: 8, warm: vec![], threads, post: vec![], wave: 0 }, spec)
}
