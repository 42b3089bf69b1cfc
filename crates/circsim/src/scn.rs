//! Scenarios for the circuit properties: generated from a seed, shrinkable, with a text form.
use crate::model::Entry;
use crate::variant::Raw;
use ff::Field;
use halo2curves::bn256::Fr;
use refmodel::vals::val;
use simrt::{At, FaultKind, OpFault, Rng, SchedSpec};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chk {
    None,
    Right,
    Val(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Group {
    Two { a: u64, b: u64, dom: Option<u64>, chk: Chk },
    Msg { words: Vec<u64>, ctrl: u64, chk: Chk },
}
/// A change to a stored field after the table was built.
#[derive(Clone, Debug, PartialEq)]
pub enum Alter {
    Input { at: usize, lane: usize, v: u64 },
    Ctrl { at: usize, v: u64 },
    Dom { at: usize, v: Option<u64> },
    Check { at: usize, v: Option<u64> },
    Swap { a: usize, b: usize },
    /// drop trailing elements of one field vector (0 inputs, 1 controls, 2 domain, 3 checks)
    Cut { which: usize, n: usize },
    /// append zero/None elements to one field vector
    Grow { which: usize, n: usize },
}
pub const ENVS: [&str; 8] = ["unset", "serial", "parallel", "", "SERIAL", " serial", "serial\u{0}", "1"];

#[derive(Clone, Debug, PartialEq)]
pub struct Load {
    pub plain: bool,
    /// index into ENVS; 6 = not UTF-8
    pub env: usize,
    pub mode: u64,
    pub pool: usize,
    pub inline: bool,
    pub order: u64,
    pub annotate: bool,
    /// backend fault: (kind or 10 for any, nth modulo what a healthy load does, sticky, error)
    pub fault: Option<(usize, u64, bool, u8)>,
    /// sub-region whose worker stalls, and where
    pub stall: Option<(usize, OpFault)>,
    /// rows fewer than needed (C11), for this load only
    pub short: usize,
    /// loaded at the same time as the next one, by another thread
    pub conc: bool,
}
impl Load {
    pub fn plain() -> Load {
        Load { plain: false, env: 1, mode: 0, pool: 1, inline: false, order: 0, annotate: false, fault: None, stall: None, short: 0, conc: false }
    }
    pub fn serial(&self) -> bool {
        self.plain || self.env == 1
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    /// entries (a, b, dom, check), the source panics before item k
    Fixed(Vec<(u64, u64, u64, Option<u64>)>, Option<usize>),
    /// words, ctrl, step, check (None: the call without check), panic
    Stream(Vec<(u64, u64)>, u64, usize, Option<Option<u64>>, Option<usize>),
    Bulk(Vec<(u64, u64)>, Option<usize>),
    BulkCheck(Vec<(u64, u64, u64)>, Option<usize>),
    Bare(Vec<(u64, u64)>),
    Copy,
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub prop: String,
    pub cpus: i64,
    pub alt: i64,
    pub flip: bool,
    pub warm: bool,
    pub chip: u64,
    pub step: usize,
    pub shared: usize,
    pub calcs: usize,
    /// extra powers of two of rows; and rows left free (-1: do not fill up)
    pub kx: u32,
    pub spare: i64,
    pub groups: Vec<Group>,
    pub alters: Vec<Alter>,
    pub by_calls: bool,
    pub loads: Vec<Load>,
    pub calls: Vec<Call>,
    /// gadget: kind (0.. as circwork, 9 = Pallas), what (0 permute, 1 batch, 2 hash, 3 sponge), instances / hashes / words squeezed + padding << 8
    pub gadget: Option<(u64, u64, u64)>,
    pub words: Vec<u64>,
    pub byz: Option<(u64, u64)>,
}

fn on(o: &Option<u64>) -> String {
    o.map_or("-".into(), |v| v.to_string())
}
fn no(s: &str) -> Option<Option<u64>> {
    if s == "-" {
        Some(None)
    } else {
        s.parse().ok().map(Some)
    }
}
fn chk_t(c: &Chk) -> String {
    match c {
        Chk::None => "-".into(),
        Chk::Right => "r".into(),
        Chk::Val(v) => v.to_string(),
    }
}
fn chk_p(s: &str) -> Option<Chk> {
    Some(match s {
        "-" => Chk::None,
        "r" => Chk::Right,
        v => Chk::Val(v.parse().ok()?),
    })
}

impl Load {
    fn to_text(&self) -> String {
        let f = self.fault.map_or("-".into(), |f| format!("{},{},{},{}", f.0, f.1, f.2 as u8, f.3));
        let s = self.stall.map_or("-".into(), |(i, o)| {
            let n = match o.kind {
                FaultKind::Stall(n) => n,
                _ => 0,
            };
            match o.at {
                At::Step(x) => format!("{i},{n},s,{x}"),
                At::Hot(x) => format!("{i},{n},h,{x}"),
            }
        });
        format!(
            "load {} env {} mode {} pool {} inline {} order {} note {} fault {f} stall {s} short {} conc {}",
            if self.plain { "plain" } else { "par" }, self.env, self.mode, self.pool, self.inline as u8, self.order, self.annotate as u8, self.short, self.conc as u8
        )
    }
    fn from_words(w: &[&str]) -> Option<Load> {
        let n = |i: usize| w[i].parse::<u64>().ok();
        let fault = if w[14] == "-" {
            None
        } else {
            let v: Vec<u64> = w[14].split(',').filter_map(|x| x.parse().ok()).collect();
            Some((v[0] as usize, v[1], v[2] == 1, v[3] as u8))
        };
        let stall = if w[16] == "-" {
            None
        } else {
            let v: Vec<&str> = w[16].split(',').collect();
            let x: u64 = v[3].parse().ok()?;
            Some((v[0].parse().ok()?, OpFault { kind: FaultKind::Stall(v[1].parse().ok()?), at: if v[2] == "s" { At::Step(x) } else { At::Hot(x) } }))
        };
        Some(Load {
            plain: w[0] == "plain",
            env: n(2)? as usize,
            mode: n(4)?,
            pool: n(6)? as usize,
            inline: n(8)? == 1,
            order: n(10)?,
            annotate: n(12)? == 1,
            fault,
            stall,
            short: n(18)? as usize,
            conc: n(20)? == 1,
        })
    }
}

impl Scn {
    pub fn new(prop: &str) -> Scn {
        Scn {
            prop: prop.into(), cpus: 8, alt: 8, flip: false, warm: true, chip: 0, step: 32, shared: 0, calcs: 4, kx: 0, spare: -1, groups: vec![], alters: vec![],
            by_calls: false, loads: vec![], calls: vec![], gadget: None, words: vec![], byz: None,
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = format!(
            "circuit {} cpus {} {} {} warm {} chip {} step {} shared {} calcs {} kx {} spare {} calls {}\n",
            self.prop, self.cpus, self.alt, self.flip as u8, self.warm as u8, self.chip, self.step, self.shared, self.calcs, self.kx, self.spare, self.by_calls as u8
        );
        for g in &self.groups {
            match g {
                Group::Two { a, b, dom, chk } => s.push_str(&format!("two {a} {b} {} {}\n", on(dom), chk_t(chk))),
                Group::Msg { words, ctrl, chk } => {
                    s.push_str(&format!("msg {ctrl} {}", chk_t(chk)));
                    for w in words {
                        s.push_str(&format!(" {w}"));
                    }
                    s.push('\n');
                }
            }
        }
        for a in &self.alters {
            s.push_str(&match a {
                Alter::Input { at, lane, v } => format!("alter input {at} {lane} {v}\n"),
                Alter::Ctrl { at, v } => format!("alter ctrl {at} {v}\n"),
                Alter::Dom { at, v } => format!("alter dom {at} {}\n", on(v)),
                Alter::Check { at, v } => format!("alter check {at} {}\n", on(v)),
                Alter::Swap { a, b } => format!("alter swap {a} {b}\n"),
                Alter::Cut { which, n } => format!("alter cut {which} {n}\n"),
                Alter::Grow { which, n } => format!("alter grow {which} {n}\n"),
            });
        }
        let p = |p: &Option<usize>| on(&p.map(|x| x as u64));
        for c in &self.calls {
            let mut l = match c {
                Call::Fixed(_, k) => format!("call fixed {}", p(k)),
                Call::Stream(_, c, st, ch, k) => format!("call stream {} {c} {st} {}", p(k), match ch {
                    None => "x".into(),
                    Some(c) => on(c),
                }),
                Call::Bulk(_, k) => format!("call bulk {}", p(k)),
                Call::BulkCheck(_, k) => format!("call bulkcheck {}", p(k)),
                Call::Bare(_) => "call bare -".into(),
                Call::Copy => "call copy -".into(),
            };
            match c {
                Call::Fixed(v, _) => v.iter().for_each(|(a, b, d, k)| l.push_str(&format!(" {a} {b} {d} {}", on(k)))),
                Call::Stream(v, ..) | Call::Bulk(v, _) | Call::Bare(v) => v.iter().for_each(|(a, b)| l.push_str(&format!(" {a} {b}"))),
                Call::BulkCheck(v, _) => v.iter().for_each(|(a, b, c)| l.push_str(&format!(" {a} {b} {c}"))),
                Call::Copy => {}
            }
            s.push_str(&l);
            s.push('\n');
        }
        if let Some((k, w, n)) = self.gadget {
            s.push_str(&format!("gadget {k} {w} {n}"));
            for v in &self.words {
                s.push_str(&format!(" {v}"));
            }
            s.push('\n');
        }
        for l in &self.loads {
            s.push_str(&l.to_text());
            s.push('\n');
        }
        if let Some((a, b)) = self.byz {
            s.push_str(&format!("attack {a} {b}\n"));
        }
        s
    }
    pub fn from_text(t: &str) -> Option<Scn> {
        let mut s = Scn::new("");
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let n = |i: usize| w.get(i)?.parse::<u64>().ok();
            match *w.first()? {
                "circuit" => {
                    s.prop = w[1].into();
                    s.cpus = w[3].parse().ok()?;
                    s.alt = w[4].parse().ok()?;
                    s.flip = w[5] == "1";
                    s.warm = w[7] == "1";
                    s.chip = n(9)?;
                    s.step = n(11)? as usize;
                    s.shared = n(13)? as usize;
                    s.calcs = n(15)? as usize;
                    s.kx = n(17)? as u32;
                    s.spare = w[19].parse().ok()?;
                    s.by_calls = w[21] == "1";
                }
                "two" => s.groups.push(Group::Two { a: n(1)?, b: n(2)?, dom: no(w[3])?, chk: chk_p(w[4])? }),
                "msg" => s.groups.push(Group::Msg { ctrl: n(1)?, chk: chk_p(w[2])?, words: w[3..].iter().filter_map(|x| x.parse().ok()).collect() }),
                "alter" => s.alters.push(match w[1] {
                    "input" => Alter::Input { at: n(2)? as usize, lane: n(3)? as usize, v: n(4)? },
                    "ctrl" => Alter::Ctrl { at: n(2)? as usize, v: n(3)? },
                    "dom" => Alter::Dom { at: n(2)? as usize, v: no(w[3])? },
                    "check" => Alter::Check { at: n(2)? as usize, v: no(w[3])? },
                    "swap" => Alter::Swap { a: n(2)? as usize, b: n(3)? as usize },
                    "cut" => Alter::Cut { which: n(2)? as usize, n: n(3)? as usize },
                    _ => Alter::Grow { which: n(2)? as usize, n: n(3)? as usize },
                }),
                "call" => {
                    let k = no(w[2])?.map(|x| x as usize);
                    let base = if w[1] == "stream" { 6 } else { 3 };
                    let v: Vec<Option<u64>> = w[base.min(w.len())..].iter().map(|x| x.parse().ok()).collect();
                    let pair = || v.chunks(2).filter_map(|c| Some((c[0]?, *c.get(1)?.as_ref()?))).collect::<Vec<_>>();
                    s.calls.push(match w[1] {
                        "fixed" => Call::Fixed(v.chunks(4).filter_map(|c| Some((c[0]?, c[1]?, c[2]?, c[3]))).collect(), k),
                        "stream" => Call::Stream(pair(), n(3)?, n(4)? as usize, if w[5] == "x" { None } else { Some(no(w[5])?) }, k),
                        "bulk" => Call::Bulk(pair(), k),
                        "bulkcheck" => Call::BulkCheck(v.chunks(3).filter_map(|c| Some((c[0]?, c[1]?, c[2]?))).collect(), k),
                        "bare" => Call::Bare(pair()),
                        _ => Call::Copy,
                    });
                }
                "gadget" => {
                    s.gadget = Some((n(1)?, n(2)?, n(3)?));
                    s.words = w[4..].iter().filter_map(|x| x.parse().ok()).collect();
                }
                "load" => s.loads.push(Load::from_words(&w[1..])?),
                "attack" => s.byz = Some((n(1)?, n(2)?)),
                _ => return None,
            }
        }
        Some(s)
    }

    pub fn shrink(&self) -> Vec<Scn> {
        let mut out = vec![];
        let with = |f: &dyn Fn(&mut Scn)| {
            let mut c = self.clone();
            f(&mut c);
            c
        };
        for i in 0..self.loads.len() {
            if self.loads.len() > 1 {
                out.push(with(&|c| {
                    c.loads.remove(i);
                }));
            }
        }
        let n = self.groups.len();
        if n > 1 {
            out.push(with(&|c| {
                c.groups.drain(..n / 2);
            }));
            out.push(with(&|c| {
                c.groups.truncate(n / 2);
            }));
        }
        for i in 0..n.min(12) {
            out.push(with(&|c| {
                c.groups.remove(i);
            }));
        }
        let m = self.calls.len();
        if m > 3 {
            out.push(with(&|c| {
                c.calls.truncate(m / 2);
            }));
        }
        for i in 0..m {
            out.push(with(&|c| {
                c.calls.remove(i);
            }));
        }
        for i in 0..self.alters.len() {
            out.push(with(&|c| {
                c.alters.remove(i);
            }));
        }
        let used = self.rows();
        if self.calcs > used + 1 && self.calcs > 2 {
            out.push(with(&|c| c.calcs = used + 1));
        }
        if self.calcs > 1 {
            out.push(with(&|c| c.calcs -= 1));
        }
        if let Some((s, k)) = self.byz {
            if k > 1 && k != u64::MAX {
                for d in 0..k.min(40) {
                    out.push(with(&|c| c.byz = Some((s.wrapping_add(d), 1))));
                }
            }
        }
        for i in 0..self.loads.len() {
            let l = &self.loads[i];
            if l.stall.is_some() {
                out.push(with(&|c| c.loads[i].stall = None));
            }
            if l.conc {
                out.push(with(&|c| c.loads[i].conc = false));
            }
            if l.annotate {
                out.push(with(&|c| c.loads[i].annotate = false));
            }
            if l.order != 0 {
                out.push(with(&|c| c.loads[i].order = 0));
            }
            if l.env > 2 {
                out.push(with(&|c| c.loads[i].env = 2));
            }
            if !l.inline {
                out.push(with(&|c| c.loads[i].inline = true));
            }
        }
        if self.kx > 0 {
            out.push(with(&|c| c.kx = 0));
        }
        if self.spare >= 0 {
            out.push(with(&|c| c.spare = -1));
        }
        if self.shared > 0 {
            out.push(with(&|c| c.shared = 0));
        }
        if self.flip {
            out.push(with(&|c| c.flip = false));
        }
        if !self.warm {
            out.push(with(&|c| c.warm = true));
        }
        for i in 0..m {
            if let Call::Stream(v, _, st, _, _) = &self.calls[i] {
                if v.len() > 1 {
                    let st = *st as u64;
                    out.push(with(&|c| {
                        if let Call::Stream(v, ct, ..) = &mut c.calls[i] {
                            v.pop();
                            *ct = ct.saturating_sub(st);
                        }
                    }));
                }
            }
        }
        out
    }

    pub fn rows(&self) -> usize {
        self.groups
            .iter()
            .map(|g| match g {
                Group::Two { .. } => 1,
                Group::Msg { words, .. } => (words.len() + 1) / 2,
            })
            .sum()
    }

    /// the table's fields as the groups describe them, before alterations
    pub fn build(&self) -> Raw {
        let mut es: Vec<(Entry, Option<Fr>, Chk)> = vec![];
        for g in &self.groups {
            match g {
                Group::Two { a, b, dom, chk } => es.push((Entry { inp: [val(*a), val(*b)], ctrl: 0, dom: dom.map_or(Fr::ZERO, val), check: None }, dom.map(val), *chk)),
                Group::Msg { words, ctrl, chk } => {
                    let n = (words.len() + 1) / 2;
                    for i in 0..n {
                        let w = |j: usize| words.get(j).map_or(Fr::ZERO, |x| val(*x));
                        let c = ctrl.saturating_sub((i * self.step) as u64);
                        es.push((Entry { inp: [w(2 * i), w(2 * i + 1)], ctrl: c, dom: Fr::ZERO, check: None }, None, if i + 1 == n { *chk } else { Chk::None }));
                    }
                }
            }
        }
        let plain: Vec<Entry> = es.iter().map(|e| e.0).collect();
        let rows = crate::model::trace(&plain, 0, self.step);
        let mut r = Raw::default();
        for ((e, d, c), row) in es.iter().zip(&rows) {
            r.inputs.push(e.inp);
            r.controls.push(e.ctrl);
            r.domain.push(*d);
            r.checks.push(match c {
                Chk::None => None,
                Chk::Right => Some(row.digest.unwrap_or(row.here)),
                Chk::Val(v) => Some(val(*v)),
            });
        }
        r
    }
    pub fn altered(&self, mut r: Raw) -> Raw {
        for a in &self.alters {
            match a {
                Alter::Input { at, lane, v } => {
                    if let Some(x) = r.inputs.get_mut(*at) {
                        x[*lane] = val(*v)
                    }
                }
                Alter::Ctrl { at, v } => {
                    if let Some(x) = r.controls.get_mut(*at) {
                        *x = *v
                    }
                }
                Alter::Dom { at, v } => {
                    if let Some(x) = r.domain.get_mut(*at) {
                        *x = v.map(val)
                    }
                }
                Alter::Check { at, v } => {
                    if let Some(x) = r.checks.get_mut(*at) {
                        *x = v.map(val)
                    }
                }
                Alter::Swap { a, b } => {
                    if *a < r.inputs.len() && *b < r.inputs.len() {
                        r.inputs.swap(*a, *b)
                    }
                }
                Alter::Cut { which, n } => match which {
                    0 => r.inputs.truncate(r.inputs.len().saturating_sub(*n)),
                    1 => r.controls.truncate(r.controls.len().saturating_sub(*n)),
                    2 => r.domain.truncate(r.domain.len().saturating_sub(*n)),
                    _ => r.checks.truncate(r.checks.len().saturating_sub(*n)),
                },
                Alter::Grow { which, n } => match which {
                    0 => r.inputs.resize(r.inputs.len() + n, [Fr::ZERO; 2]),
                    1 => r.controls.resize(r.controls.len() + n, 0),
                    2 => r.domain.resize(r.domain.len() + n, None),
                    _ => r.checks.resize(r.checks.len() + n, None),
                },
            }
        }
        r
    }
}

// ---------------------------------------------------------------- generation

struct Ids {
    ids: Vec<u64>,
}
impl Ids {
    fn new(r: &mut Rng) -> Ids {
        let bases: Vec<u64> = (0..r.range(1, 3)).map(|_| 1 + r.below(1 << 40)).collect();
        Ids {
            ids: (0..r.range(2, 8))
                .map(|_| match r.below(4) {
                    0 => r.below(refmodel::vals::SPECIAL),
                    _ => *r.pick(&bases) << 8 | if r.chance(1, 3) { 0 } else { r.below(14) },
                })
                .collect(),
        }
    }
    fn one(&self, r: &mut Rng) -> u64 {
        if r.chance(1, 8) {
            1 + r.below(1 << 50)
        } else {
            *r.pick(&self.ids)
        }
    }
}

fn dom(r: &mut Rng, ids: &Ids) -> Option<u64> {
    match r.below(5) {
        0 => None,
        1 => Some(0),
        2 => Some(r.range(1, 16)),
        _ => Some(ids.one(r)),
    }
}
fn small_dom(r: &mut Rng) -> u64 {
    // 2^64 multiples collide with control values on purpose
    *r.pick(&[5, 13, 7, 0, 1, 2])
}

/// a complete message of `rows` rows
fn message(r: &mut Rng, ids: &Ids, rows: usize, step: usize, chk: Chk) -> Group {
    let st = step as u64;
    let ctrl = (rows as u64 - 1) * st
        + match r.below(5) {
            0 => st,
            1 => 1,
            2 if rows == 1 => 0,
            _ => r.range(1, st.max(1)),
        };
    let mut n = 2 * rows;
    if r.chance(1, 3) {
        n -= 1;
    }
    let mut words: Vec<u64> = (0..n).map(|_| ids.one(r)).collect();
    if r.chance(1, 6) {
        for w in words.iter_mut().skip(1) {
            *w = 0;
        }
    }
    Group::Msg { words, ctrl, chk }
}

fn chk(r: &mut Rng, right: u64) -> Chk {
    if r.below(8) < right {
        Chk::Right
    } else {
        Chk::None
    }
}

fn groups(r: &mut Rng, ids: &Ids, rows: usize, step: usize, right: u64) -> Vec<Group> {
    let mut left = rows;
    let mut v = vec![];
    let style = r.below(4);
    while left > 0 {
        if style == 0 || (style != 1 && r.chance(1, 2)) {
            v.push(Group::Two { a: ids.one(r), b: ids.one(r), dom: if r.chance(1, 10) { Some(small_dom(r)) } else { dom(r, ids) }, chk: chk(r, right) });
            left -= 1;
        } else {
            let n = match r.below(4) {
                0 => 1,
                1 => left,
                _ => r.range(1, left as u64) as usize,
            }
            .min(left);
            let c = chk(r, right);
            v.push(message(r, ids, n, step, c));
            left -= n;
        }
        // the same entry again
        if left > 0 && r.chance(1, 8) {
            if let Some(g @ Group::Two { .. }) = v.last().cloned() {
                v.push(g);
                left -= 1;
            }
        }
    }
    v
}

fn cpus(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 64,
        5 => 16,
        6 => 5,
        7 => 4,
        _ => r.range(1, 12) as i64,
    }
}

fn stall(r: &mut Rng) -> (usize, OpFault) {
    let at = if r.chance(1, 3) { At::Hot(r.below(200)) } else { At::Step(r.below(300_000)) };
    (r.below(6) as usize, OpFault { kind: FaultKind::Stall(1 << r.range(8, 22)), at })
}

pub fn load(r: &mut Rng, serial: u64) -> Load {
    let mut l = Load {
        plain: false,
        env: if r.below(16) < serial { 1 } else { *r.pick(&[0, 0, 0, 2, 2, 3, 4, 5, 6, 7]) },
        mode: 0,
        pool: *r.pick(&[1, 2, 2, 3, 3, 4, 6, 8]),
        inline: r.chance(1, 8),
        order: if r.chance(1, 2) { 0 } else { r.next() | 1 },
        annotate: r.chance(1, 6),
        fault: None,
        stall: if r.chance(1, 4) { Some(stall(r)) } else { None },
        short: 0,
        conc: false,
    };
    if r.chance(1, 10) {
        l.plain = true;
    }
    l
}

pub fn generate(property: &str, seed: u64, index: u64, thorough: bool) -> (Scn, SchedSpec) {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut s = Scn::new(property);
    let ids = Ids::new(r);
    s.warm = !r.chance(1, 12);
    s.cpus = cpus(r);
    s.flip = r.chance(1, 5);
    s.alt = if s.flip { cpus(r) } else { s.cpus };
    s.chip = r.chance(3, 10) as u64;
    s.step = *r.pick(&[1, 2, 3, 31, 31, 32, 32, 62]);
    s.shared = if r.chance(1, 4) { 2 } else { 0 };
    s.kx = r.chance(1, 10) as u32;
    let big = if thorough { 64 } else { 40 };
    let cap = match r.below(16) {
        0..=5 => r.range(2, 6),
        6..=11 => r.range(4, 12),
        12..=14 => r.range(8, 24),
        _ if r.chance(1, 5) => r.range(big, if thorough { 700 } else { 200 }),
        _ => r.range(16, big),
    } as usize;
    let cap = if s.chip == 1 { cap.min(14) } else { cap };
    s.calcs = cap;
    let fill = match r.below(5) {
        0 => cap - 1,
        1 => r.below(cap as u64) as usize,
        2 => (cap - 1).min(r.range(1, 3) as usize),
        _ => r.range(1, cap as u64 - 1) as usize,
    };
    let mut est = 400_000;
    match property {
        "C06" => {
            let rows = match r.below(12) {
                0 => cap + r.range(1, 3) as usize,
                1 => cap,
                _ => fill,
            };
            s.groups = groups(r, &ids, rows, s.step, 3);
            if r.chance(1, 3) {
                wild(r, &ids, &mut s, rows);
            }
            if r.chance(1, 40) {
                s.calcs = 0;
                s.groups.clear();
            }
            for i in 0..r.range(1, 3) {
                let mut l = load(r, 1);
                l.mode = *r.pick(&[0, 0, 0, 1, 2]);
                l.conc = i == 0 && r.chance(1, 6);
                s.loads.push(l);
            }
        }
        "C07" => {
            s.groups = groups(r, &ids, fill, s.step, 4);
            s.by_calls = r.chance(1, 2);
            s.spare = if r.chance(1, 4) { r.below(3) as i64 } else { -1 };
            trim_fields(r, &mut s, fill);
            for i in 0..r.range(1, 2) {
                let mut l = load(r, 4);
                l.conc = i == 0 && r.chance(1, 6);
                s.loads.push(l);
            }
        }
        "C08" => {
            s.groups = groups(r, &ids, fill, s.step, 3);
            if r.chance(1, 4) {
                wild(r, &ids, &mut s, fill);
            }
            for i in 0..2 {
                let mut l = load(r, 3);
                if i == 0 && r.chance(2, 3) {
                    l.mode = 1;
                }
                s.loads.push(l);
            }
        }
        "C11" => {
            s.calcs = if r.chance(1, 40) { s.calcs.min(60) } else { s.calcs.min(14) };
            let rows = fill.min(s.calcs - 1);
            s.groups = groups(r, &ids, rows, s.step, 3);
            s.chip = r.chance(1, 5) as u64;
            s.spare = r.below(2) as i64;
            let n = r.range(1, 3);
            for i in 0..n {
                let mut l = load(r, 3);
                l.mode = *r.pick(&[0, 0, 0, 1, 2]);
                if r.chance(1, 6) {
                    l.short = r.range(1, 3) as usize + if r.chance(1, 3) { r.below(60) as usize } else { 0 };
                } else {
                    let kind = *r.pick(&[10, 10, 0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 8, 9]);
                    l.fault = Some((kind, r.next() >> 20, r.chance(1, 4), r.below(4) as u8));
                }
                l.conc = i == 0 && n > 1 && r.chance(1, 4);
                s.loads.push(l);
            }
        }
        "C12" => {
            s.warm = true;
            est = 3000;
            calls(r, &ids, &mut s);
        }
        "C13" => {
            match r.below(8) {
                0 => {
                    // too big for the circuit
                    let rows = cap + 1 + r.below(4) as usize;
                    s.groups = groups(r, &ids, rows, s.step, 2);
                    if r.chance(1, 2) {
                        trim_fields(r, &mut s, rows);
                    }
                }
                1 => {
                    s.groups = groups(r, &ids, fill.max(1), s.step, 8);
                    trim_fields(r, &mut s, fill.max(1));
                }
                _ => {
                    let rows = fill.max(1);
                    s.groups = groups(r, &ids, rows, s.step, 8);
                    s.by_calls = r.chance(1, 2);
                    for _ in 0..if r.chance(3, 4) { 1 } else { 2 } {
                        let a = alter(r, &ids, rows, s.step);
                        s.alters.push(a);
                    }
                }
            }
            for i in 0..r.range(1, 2) {
                let mut l = load(r, 5);
                l.mode = *r.pick(&[0, 0, 2]);
                l.conc = i == 0 && r.chance(1, 6);
                s.loads.push(l);
            }
        }
        "C09" => {
            let cap = match r.below(8) {
                0..=4 => r.range(2, 4),
                5 | 6 => r.range(3, 6),
                _ => r.range(4, 10),
            } as usize;
            s.calcs = cap;
            let rows = if r.chance(1, 2) { cap - 1 } else { r.range(1, cap as u64 - 1) as usize };
            s.groups = groups(r, &ids, rows, s.step, 0);
            s.loads.push(load(r, 4));
            s.byz = Some((r.next() >> 8, if thorough { 24 } else { 12 }));
        }
        _ => {
            // C10
            let kind = *r.pick(&[0, 0, 0, 1, 1, 1, 1, 2, 3, 4, 9, 9]);
            let what = match kind {
                0 => r.below(2),
                2 | 3 | 4 => r.below(4),
                9 => *r.pick(&[0, 1, 2, 2, 3]),
                _ => *r.pick(&[0, 1, 2, 2, 2, 3]),
            };
            let n = match what {
                0 => r.range(1, 3),
                1 => match r.below(4) {
                    0 => r.below(2),
                    _ => r.range(1, if kind == 0 { 20 } else { 5 }),
                },
                2 => *r.pick(&[1, 1, 1, 1, 2, 3]),
                _ => *r.pick(&[1, 2, 3, 3, 4, 5, 6, 9]),
            };
            let width = [3, 3, 2, 4, 5, 3, 3, 3, 3, 3][kind as usize];
            let len = match what {
                0 | 1 => width * n,
                2 => n * *r.pick(&[1, 2, 3, 4, 5, 6, 7, 10]),
                _ => (width - 1) * (1 + r.below(4)),
            };
            // some words of the sponge may be padding, which is a constant of the circuit
            let n = match (what, r.below(3)) {
                (3, 0) => n | (r.next() & ((1 << len) - 1)) << 8,
                (3, 1) => n | (1 << (len - 1)) << 8,
                _ => n,
            };
            s.gadget = Some((kind, what, n));
            s.words = (0..len).map(|_| ids.one(r)).collect();
            s.loads.push({
                let mut l = load(r, 0);
                l.mode = *r.pick(&[0, 0, 0, 1, 2]);
                l
            });
            if kind != 9 && r.chance(1, 3) {
                s.byz = Some((r.next() >> 8, if thorough { 24 } else { 10 }));
            }
        }
    }
    let sp = r.chance(1, 4);
    let mut spec = SchedSpec::draw(r, est, sp);
    spec.p_clock = if r.chance(1, 3) { 128 } else { 0 };
    let _ = index;
    (s, spec)
}

/// fields that end early mean the same as explicit defaults
fn trim_fields(r: &mut Rng, s: &mut Scn, rows: usize) {
    if r.chance(1, 4) {
        s.alters.push(Alter::Grow { which: *r.pick(&[2, 3]), n: r.range(1, 3) as usize });
    }
    if r.chance(1, 6) {
        // only where what is cut is the default anyway
        let mut n = [0usize; 4];
        for g in s.groups.iter().rev() {
            match g {
                Group::Two { dom: None, chk: Chk::None, .. } => n[0] += 1,
                _ => break,
            }
        }
        let n = n[0].min(rows);
        if n > 0 {
            let w = r.range(1, 3) as usize;
            s.alters.push(Alter::Cut { which: w, n: r.range(1, n as u64) as usize });
        }
    }
}

/// tables nobody should build, but which every mode has to treat alike
fn wild(r: &mut Rng, ids: &Ids, s: &mut Scn, rows: usize) {
    for _ in 0..r.range(1, 3) {
        let at = r.below(rows.max(1) as u64) as usize;
        let a = match r.below(8) {
            0..=2 => Alter::Ctrl { at, v: match r.below(4) {
                0 => r.below(2 * s.step as u64 + 2),
                1 => u64::MAX - r.below(3),
                _ => r.below(1 << 40),
            } },
            3 => Alter::Cut { which: r.below(4) as usize, n: r.range(1, 3) as usize },
            4 => Alter::Grow { which: r.below(4) as usize, n: r.range(1, 3) as usize },
            5 => Alter::Dom { at, v: Some(ids.one(r)) },
            6 => Alter::Check { at, v: if r.chance(1, 2) { Some(ids.one(r)) } else { None } },
            _ => Alter::Input { at, lane: r.below(2) as usize, v: ids.one(r) },
        };
        s.alters.push(a);
    }
}

fn alter(r: &mut Rng, ids: &Ids, rows: usize, step: usize) -> Alter {
    let at = match r.below(4) {
        0 => rows - 1,
        1 => 0,
        _ => r.below(rows as u64) as usize,
    };
    match r.below(10) {
        0..=2 => Alter::Input { at, lane: r.below(2) as usize, v: ids.one(r) },
        3 | 4 => Alter::Dom { at, v: if r.chance(1, 4) { None } else { Some(ids.one(r)) } },
        5 => Alter::Ctrl { at, v: r.below(3 * step as u64 + 2) },
        6 => Alter::Swap { a: at, b: r.below(rows as u64) as usize },
        _ => Alter::Check { at, v: Some(ids.one(r)) },
    }
}

fn calls(r: &mut Rng, ids: &Ids, s: &mut Scn) {
    let n = r.range(1, 10);
    let pairs = |r: &mut Rng, n: u64| (0..n).map(|_| (ids.one(r), ids.one(r))).collect::<Vec<_>>();
    let with_dep = r.chance(1, 2);
    let long = r.chance(1, 8);
    for _ in 0..n {
        let many = |r: &mut Rng| if long && r.chance(1, 3) { r.range(5, 150) } else { r.below(4) };
        let boom = |r: &mut Rng, n: usize| if r.chance(1, 6) { Some(r.below(n as u64 + 1) as usize) } else { None };
        let c = match r.below(if with_dep { 14 } else { 9 }) {
            0..=3 => {
                let v: Vec<_> = (0..many(r)).map(|_| (ids.one(r), ids.one(r), ids.one(r), if r.chance(1, 2) { Some(ids.one(r)) } else { None })).collect();
                let k = boom(r, v.len());
                Call::Fixed(v, k)
            }
            4..=7 => {
                let step = *r.pick(&[1, 2, 31, 32, 62, 4096]);
                let m = 1 + many(r);
                let ctrl = match r.below(8) {
                    0 => r.below(200),
                    1 => m * step as u64 + 1,
                    2 => (m - 1) * step as u64,
                    3 => u64::MAX - r.below(2),
                    _ => (m - 1) * step as u64 + r.range(1, step as u64),
                };
                let m = if r.chance(1, 20) { 0 } else { m };
                let v = pairs(r, m);
                let k = boom(r, v.len());
                let ch = match r.below(4) {
                    0 => None,
                    1 => Some(None),
                    _ => Some(Some(ids.one(r))),
                };
                Call::Stream(v, ctrl, step, ch, k)
            }
            8 => Call::Copy,
            9 | 10 => {
                let m = many(r);
                let v = pairs(r, m);
                let k = boom(r, v.len());
                Call::Bulk(v, k)
            }
            11 | 12 => {
                let v: Vec<_> = (0..many(r)).map(|_| (ids.one(r), ids.one(r), ids.one(r))).collect();
                let k = boom(r, v.len());
                Call::BulkCheck(v, k)
            }
            _ => {
                let m = r.range(1, 3);
                Call::Bare(pairs(r, m))
            }
        };
        s.calls.push(c);
    }
}
