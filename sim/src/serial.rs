//! World of stored data: processes make polylines and detached selections, write them to a
//! simulated disk through faulty writers, crash, and the next process reads them back through
//! faulty readers, re-attaches the selections, hands them to polylines they do not fit, and
//! writes them again.
use crate::genr;
use crate::kernel::*;
use crate::ops::{damage, mem_knobs, sched_knobs};
use crate::rng::{Rng, fnv, mix};
use crate::world::{Stats, Verdict};
use cavalier_contours::polyline::Polyline;
use glue::stor::{self, Val};
use glue::{F, Input};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;
use std::io::{self, Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DSpec {
    pub start: u64,
    pub off: u64,
    pub us: [F; 3],
    pub ueb: F,
    pub ep: [F; 2],
    pub inv: bool,
    pub flags: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Spec {
    P(u32),
    S(u32),
    V([F; 3]),
    X([F; 2]),
    D(DSpec),
    L(Vec<DSpec>),
    B(Vec<(u32, Vec<DSpec>)>),
    M(Vec<u32>),
    /// selection made by the library: source file, mode, t1, i1, t2, i2, eps, inverted
    Sel(u32, u8, F, u32, F, u32, F, bool),
    /// boolean result: source files, operation
    Bool(u32, u32, u8),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Io {
    /// at most this many bytes per call (0: as asked)
    pub short: u32,
    /// every n-th call is interrupted (0: never)
    pub eintr: u32,
    /// the call reaching this byte fails: disk full, I/O error, accepts nothing
    pub fail: Option<(u64, u8)>,
    /// a reader finds the file this many bytes long
    pub cut: Option<F>,
    pub buffered: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SK {
    Make(Spec),
    Store(u8, Io),
    /// a file written by something else: style, harm
    Golden(Spec, u64, u8),
    /// way of reading, newest file even when torn
    Load(u8, bool, Io),
    Check(u32, u32),
    /// source file, kind of misfit, amount, position
    Misfit(u32, u8, F, u32),
    Forget,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SOp {
    pub uid: u32,
    pub client: usize,
    /// the file (and slot) it is about
    pub f: u32,
    pub k: SK,
    pub oom: Option<(u32, bool)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Gen {
    pub ops: Vec<SOp>,
    /// power fails inside this operation at its n-th I/O call (or right after it)
    pub crash: Option<(u32, u32)>,
    pub mem: MemKnobs,
    pub sched: SchedKnobs,
    pub switches: Option<Vec<Switch>>,
    pub first: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub clients: usize,
    pub inputs: Vec<Input>,
    pub gens: Vec<Gen>,
}

// ------------------------------------------------------------------ the disk

#[derive(Clone, Default)]
struct File {
    f: u32,
    kind: u8,
    codec: u8,
    /// which contents: uid of the operation that wrote it
    by: u32,
    complete: bool,
    bytes: Vec<u8>,
}

#[derive(Clone, Default)]
struct Disk {
    files: Vec<File>,
    /// left over from writes that did not finish
    torn: Vec<File>,
}

impl Disk {
    fn find(&self, f: u32, torn: bool) -> Option<&File> {
        if torn {
            if let Some(x) = self.torn.iter().rev().find(|x| x.f == f) {
                return Some(x);
            }
        }
        self.files.iter().find(|x| x.f == f)
    }
}

/// What one operation did.
#[derive(Clone, Default, Debug)]
struct Ev {
    uid: u32,
    /// 0 nothing, 1 value, 2 error, 3 panic, 4 missing object
    what: u8,
    /// bit 0 hard I/O fault fired, 1 allocation failed, 2 file incomplete, 3 cut
    flags: u8,
    by: u32,
    codec: u8,
    words: Vec<u64>,
    note: String,
    allocs: u32,
    io: u32,
}

#[derive(Default)]
struct State {
    disk: Disk,
    evs: Vec<Ev>,
    hist: u64,
    io_calls: u64,
    short: u64,
    eintr: u64,
    hard: u64,
    /// operations writing right now
    busy: Vec<u32>,
}

static mut STATE: Option<State> = None;
#[allow(static_mut_refs)]
fn state() -> &'static mut State {
    unsafe { STATE.get_or_insert_with(State::default) }
}

struct Enc(Vec<u8>);
impl Enc {
    fn u(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    fn b(&mut self, x: &[u8]) {
        self.u(x.len() as u64);
        self.0.extend_from_slice(x);
    }
}
struct Dec<'a>(&'a [u8]);
impl Dec<'_> {
    fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
}

fn enc_files(e: &mut Enc, v: &[File]) {
    e.u(v.len() as u64);
    for f in v {
        for x in [f.f as u64, f.kind as u64, f.codec as u64, f.by as u64, f.complete as u64] {
            e.u(x);
        }
        e.b(&f.bytes);
    }
}
fn dec_files(d: &mut Dec) -> Vec<File> {
    (0..d.u())
        .map(|_| File { f: d.u() as u32, kind: d.u() as u8, codec: d.u() as u8, by: d.u() as u32, complete: d.u() == 1, bytes: d.b() })
        .collect()
}

fn enc_report(crashed: bool) -> Vec<u8> {
    let s = state();
    let mut e = Enc(vec![]);
    enc_files(&mut e, &s.disk.files);
    enc_files(&mut e, &s.disk.torn);
    e.u(s.evs.len() as u64);
    for v in &s.evs {
        for x in [v.uid as u64, v.what as u64, v.flags as u64, v.by as u64, v.codec as u64, v.allocs as u64, v.io as u64] {
            e.u(x);
        }
        e.u(v.words.len() as u64);
        v.words.iter().for_each(|w| e.u(*w));
        e.b(v.note.as_bytes());
    }
    for x in [s.hist, s.io_calls, s.short, s.eintr, s.hard, total_steps(), trace_hash(), crashed as u64] {
        e.u(x);
    }
    let sw = recorded();
    e.u(sw.len() as u64);
    for s in &sw {
        for x in [s.client as u64, s.uid as u64, s.step, s.to as u64] {
            e.u(x);
        }
    }
    e.b(mem_violation().unwrap_or_default().as_bytes());
    e.0
}

struct Report {
    disk: Disk,
    evs: Vec<Ev>,
    n: [u64; 8],
    switches: Vec<Switch>,
    memv: String,
}

fn dec_report(b: &[u8]) -> Report {
    let mut d = Dec(b);
    let files = dec_files(&mut d);
    let torn = dec_files(&mut d);
    let evs = (0..d.u())
        .map(|_| {
            let mut v = Ev { uid: d.u() as u32, what: d.u() as u8, flags: d.u() as u8, by: d.u() as u32, codec: d.u() as u8, allocs: d.u() as u32, io: d.u() as u32, ..Ev::default() };
            v.words = (0..d.u()).map(|_| d.u()).collect();
            v.note = String::from_utf8_lossy(&d.b()).into_owned();
            v
        })
        .collect();
    let mut n = [0; 8];
    n.iter_mut().for_each(|x| *x = d.u());
    let switches = (0..d.u()).map(|_| Switch { client: d.u() as usize, uid: d.u() as u32, step: d.u(), to: d.u() as usize }).collect();
    let memv = String::from_utf8_lossy(&d.b()).into_owned();
    Report { disk: Disk { files, torn }, evs, n, switches, memv }
}

// ------------------------------------------------------------------ faulty I/O

struct Port<'a> {
    io: &'a Io,
    uid: u32,
    calls: u32,
    done: u64,
    hard: bool,
    crash: Option<u32>,
    /// index of the torn file a writer appends to
    out: Option<u32>,
    src: Vec<u8>,
}

impl Port<'_> {
    /// one I/O call: a scheduling point, a place to lose power, a place to fail
    fn call(&mut self, want: usize, writing: bool) -> io::Result<usize> {
        user_event();
        let s = state();
        self.calls += 1;
        s.io_calls += 1;
        s.hist = mix(s.hist, (self.uid as u64) << 32 | self.calls as u64);
        if self.crash == Some(self.calls) {
            if writing {
                // a leading part of the last write may have reached the disk
                return Ok(want / 2);
            }
            finish_now(&enc_report(true));
        }
        if self.io.eintr > 0 && self.calls % self.io.eintr == 0 {
            s.eintr += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = want;
        if self.io.short > 0 && n > self.io.short as usize {
            n = self.io.short as usize;
            s.short += 1;
        }
        if let Some((at, kind)) = self.io.fail {
            if self.done + n as u64 > at {
                let left = (at - self.done.min(at)) as usize;
                if left == 0 {
                    s.hard += 1;
                    self.hard = true;
                    return match kind {
                        0 => Err(io::Error::from_raw_os_error(libc::ENOSPC)),
                        1 => Err(io::Error::from_raw_os_error(libc::EIO)),
                        _ if writing => Ok(0),
                        _ => Err(io::Error::from(io::ErrorKind::UnexpectedEof)),
                    };
                }
                n = left;
            }
        }
        Ok(n)
    }
}

impl Write for Port<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        outside(|| {
            let crash = self.crash == Some(self.calls + 1);
            let n = self.call(b.len(), true)?;
            self.done += n as u64;
            let by = self.out.unwrap();
            let s = state();
            let f = s.disk.torn.iter_mut().find(|f| f.by == by).unwrap();
            f.bytes.extend_from_slice(&b[..n]);
            if crash {
                finish_now(&enc_report(true));
            }
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Read for Port<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        outside(|| {
            let left = self.src.len() - self.done as usize;
            let n = self.call(b.len(), false)?.min(left);
            b[..n].copy_from_slice(&self.src[self.done as usize..self.done as usize + n]);
            self.done += n as u64;
            Ok(n)
        })
    }
}

// ------------------------------------------------------------------ values

fn dwords(d: &DSpec, o: &mut Vec<u64>) {
    o.extend([d.start, d.off]);
    o.extend([d.us[0], d.us[1], d.us[2], d.ueb, d.ep[0], d.ep[1]].map(|x| x.0.to_bits()));
    o.push(d.inv as u64);
}
fn fwords(d: &DSpec, o: &mut Vec<u64>) {
    dwords(d, o);
    o.extend([d.flags as u64 & 1, d.flags as u64 >> 1 & 1]);
}
fn pwords(p: &Input, o: &mut Vec<u64>) {
    o.extend([p.len() as u64, p.closed as u64]);
    for v in &p.v {
        o.extend(v.map(|x| x.0.to_bits()));
    }
}

/// The value a specification stands for (None: it is computed).
fn spec_words(s: &Spec, inputs: &[Input]) -> Option<Vec<u64>> {
    let inp = |i: u32| &inputs[i as usize % inputs.len()];
    let mut o = vec![];
    match s {
        Spec::P(i) => {
            o.push(0);
            pwords(inp(*i), &mut o);
        }
        Spec::S(i) => {
            let p = inp(*i);
            o.extend([1, p.len() as u64, p.closed as u64]);
            for v in &p.v {
                o.extend(v.map(|x| (x.0 as f32).to_bits() as u64));
            }
        }
        Spec::V(v) => {
            o.push(2);
            o.extend(v.map(|x| x.0.to_bits()));
        }
        Spec::X(v) => {
            o.push(3);
            o.extend(v.map(|x| x.0.to_bits()));
        }
        Spec::D(d) => {
            o.push(4);
            dwords(d, &mut o);
        }
        Spec::L(l) => {
            o.extend([5, l.len() as u64]);
            l.iter().for_each(|d| fwords(d, &mut o));
        }
        Spec::B(l) => {
            o.extend([6, l.len() as u64]);
            for (p, s) in l {
                pwords(inp(*p), &mut o);
                o.push(s.len() as u64);
                s.iter().for_each(|d| fwords(d, &mut o));
            }
        }
        Spec::M(l) => {
            o.extend([7, l.len() as u64]);
            l.iter().for_each(|p| pwords(inp(*p), &mut o));
        }
        _ => return None,
    }
    Some(o)
}

/// A value as a document, for judging and for writing by hand.
#[derive(Clone, Debug)]
enum J {
    O(Vec<(&'static str, J)>),
    /// true: a fixed tuple of numbers
    A(Vec<J>, bool),
    N(f64),
    N32(f32),
    I(u64),
    B(bool),
    /// broken on purpose
    Raw(String),
}

struct Rd<'a>(&'a [u64]);
impl Rd<'_> {
    fn u(&mut self) -> u64 {
        let x = self.0[0];
        self.0 = &self.0[1..];
        x
    }
    fn f(&mut self) -> f64 {
        f64::from_bits(self.u())
    }
    fn nums(&mut self, n: usize) -> J {
        J::A((0..n).map(|_| J::N(self.f())).collect(), true)
    }
    fn pl(&mut self) -> J {
        let n = self.u() as usize;
        let c = self.u() == 1;
        let v = (0..n).map(|_| self.nums(3)).collect();
        J::O(vec![("vertexes", J::A(v, false)), ("isClosed", J::B(c))])
    }
    fn view(&mut self) -> J {
        let (s, o) = (self.u(), self.u());
        let us = self.nums(3);
        let b = J::N(self.f());
        let ep = self.nums(2);
        J::O(vec![("startIndex", J::I(s)), ("endIndexOffset", J::I(o)), ("updatedStart", us), ("updatedEndBulge", b), ("endPoint", ep), ("invertedDirection", J::B(self.u() == 1))])
    }
    fn slice(&mut self) -> J {
        let v = self.view();
        J::O(vec![("viewData", v), ("sourceIsPline1", J::B(self.u() == 1)), ("overlapping", J::B(self.u() == 1))])
    }
    fn many(&mut self, f: fn(&mut Self) -> J) -> J {
        let n = self.u();
        J::A((0..n).map(|_| f(self)).collect(), false)
    }
}

fn doc(words: &[u64]) -> J {
    let mut r = Rd(words);
    match r.u() {
        0 => r.pl(),
        1 => {
            let n = r.u();
            let c = r.u() == 1;
            let v = (0..n).map(|_| J::A((0..3).map(|_| J::N32(f32::from_bits(r.u() as u32))).collect(), true)).collect();
            J::O(vec![("vertexes", J::A(v, false)), ("isClosed", J::B(c))])
        }
        2 => r.nums(3),
        3 => r.nums(2),
        4 => r.view(),
        5 => r.many(Rd::slice),
        6 => r.many(|r| {
            let p = r.pl();
            let s = r.many(Rd::slice);
            J::O(vec![("pline", p), ("subslices", s)])
        }),
        _ => r.many(Rd::pl),
    }
}

/// Does parsed text show this document?  (non-finite numbers cannot be written as JSON)
fn shows(j: &J, v: &Value, at: &str) -> Result<(), String> {
    let no = |m: String| Err(format!("{at}: {m}"));
    match (j, v) {
        (J::O(f), Value::Object(m)) => {
            for (k, x) in f {
                match m.get(*k) {
                    Some(y) => shows(x, y, &format!("{at}.{k}"))?,
                    None => return no(format!("field {k} is missing (found {:?})", m.keys().collect::<Vec<_>>())),
                }
            }
            Ok(())
        }
        (J::A(a, _), Value::Array(b)) => {
            if a.len() != b.len() {
                return no(format!("{} elements instead of {}", b.len(), a.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                shows(x, y, &format!("{at}[{i}]"))?;
            }
            Ok(())
        }
        (J::N(x), _) if !x.is_finite() => Ok(()),
        (J::N32(x), _) if !x.is_finite() => Ok(()),
        (J::N(x), Value::Number(n)) => match n.as_f64() {
            Some(y) if y.to_bits() == x.to_bits() => Ok(()),
            _ => no(format!("{n} instead of {x:?}")),
        },
        (J::N32(x), Value::Number(n)) => match n.as_f64() {
            Some(y) if (y as f32).to_bits() == x.to_bits() => Ok(()),
            _ => no(format!("{n} instead of {x:?}")),
        },
        (J::I(x), Value::Number(n)) if n.as_u64() == Some(*x) => Ok(()),
        (J::B(x), Value::Bool(b)) if x == b => Ok(()),
        _ => no(format!("{} instead of {j:?}", v.to_string().chars().take(80).collect::<String>())),
    }
}

fn finite(words: &[u64]) -> bool {
    fn all(j: &J) -> bool {
        match j {
            J::O(f) => f.iter().all(|x| all(&x.1)),
            J::A(a, _) => a.iter().all(all),
            J::N(x) => x.is_finite(),
            J::N32(x) => x.is_finite(),
            _ => true,
        }
    }
    all(&doc(words))
}

/// The document as another program would write it.
fn by_hand(j: &J, r: &mut Rng, o: &mut String) {
    let sp = |r: &mut Rng, o: &mut String| o.push_str(*r.pick(&["", "", "", " ", "\n\t", "  "]));
    sp(r, o);
    match j {
        J::O(f) => {
            let mut ix: Vec<usize> = (0..f.len()).collect();
            for i in (1..ix.len()).rev() {
                ix.swap(i, r.below(i + 1));
            }
            o.push('{');
            for (k, i) in ix.iter().enumerate() {
                if k > 0 {
                    o.push(',');
                }
                sp(r, o);
                o.push_str(&format!("\"{}\"", f[*i].0));
                sp(r, o);
                o.push(':');
                by_hand(&f[*i].1, r, o);
            }
            sp(r, o);
            o.push('}');
        }
        J::A(a, _) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                by_hand(x, r, o);
            }
            sp(r, o);
            o.push(']');
        }
        J::N(x) => match r.below(5) {
            0 => o.push_str(&format!("{x:e}")),
            1 => o.push_str(&format!("{x:E}")),
            2 => o.push_str(&format!("{x:.17e}")),
            3 if x.fract() == 0.0 && x.abs() < 9e15 && (*x != 0.0 || x.is_sign_positive()) => o.push_str(&format!("{x:.0}")),
            _ => o.push_str(&format!("{x:?}")),
        },
        J::N32(x) => match r.below(3) {
            0 => o.push_str(&format!("{x:e}")),
            _ => o.push_str(&format!("{x:?}")),
        },
        J::I(x) => o.push_str(&x.to_string()),
        J::B(x) => o.push_str(&x.to_string()),
        J::Raw(s) => o.push_str(s),
    }
    sp(r, o);
}

/// Break one place; false when there is none of that kind.
fn break_one(j: &mut J, harm: u8, n: &mut usize, done: &mut bool) {
    let mut here = |hit: bool| -> bool {
        if hit && !*done {
            if *n == 0 {
                *done = true;
                return true;
            }
            *n -= 1;
        }
        false
    };
    match j {
        J::O(f) => {
            if harm == 1 || harm == 7 {
                for i in 0..f.len() {
                    if here(true) {
                        if harm == 1 {
                            f.remove(i);
                        } else {
                            f[i].0 = *["vertices", "is_closed", "start_index", "Vertexes", "x"].get(i % 5).unwrap();
                        }
                        return;
                    }
                }
            }
            for x in f {
                break_one(&mut x.1, harm, n, done);
            }
        }
        J::A(a, tuple) => {
            if *tuple && (harm == 2 || harm == 3) && here(true) {
                if harm == 2 {
                    a.pop();
                } else {
                    a.push(J::Raw("0.25".into()));
                }
                return;
            }
            for x in a {
                break_one(x, harm, n, done);
            }
        }
        J::B(_) => {
            if harm == 4 && here(true) {
                *j = J::Raw("2".into());
            }
        }
        J::N(_) | J::N32(_) | J::I(_) => {
            if harm == 6 && here(true) {
                *j = J::Raw("\"a\"".into());
            }
        }
        J::Raw(_) => {}
    }
}

fn golden(words: &[u64], style: u64, harm: u8) -> (String, bool) {
    let mut r = Rng::new(style);
    let mut j = doc(words);
    let mut harmed = false;
    if harm > 0 && harm != 5 {
        let mut n = r.below(6);
        for _ in 0..2 {
            break_one(&mut j, harm, &mut n, &mut harmed);
            n = 0;
            if harmed {
                break;
            }
        }
    }
    let mut o = String::new();
    by_hand(&j, &mut r, &mut o);
    if harm == 5 && o.trim_end().len() > 1 {
        let t = o.trim_end().len();
        o.truncate(r.below(t));
        harmed = true;
    }
    (o, harmed)
}

// ------------------------------------------------------------------ one process

const BUDGET: u64 = 60_000_000;
const SEL_BUDGET: u64 = 10_000_000;

struct Cl<'a> {
    plan: &'a Plan,
    gen_: &'a Gen,
    slots: HashMap<u32, Val>,
}

impl Cl<'_> {
    fn crash(&self, uid: u32) -> Option<u32> {
        self.gen_.crash.filter(|c| c.0 == uid).map(|c| c.1.max(1))
    }

    /// Run code under test; (what, value).
    fn call<R>(&self, op: &SOp, ev: &mut Ev, f: impl FnOnce() -> R) -> Option<R> {
        begin_op(op.uid, op.oom.map(|o| o.0).unwrap_or(0), op.oom.map(|o| o.1).unwrap_or(false), if self.plan.prop == "C08" { SEL_BUDGET } else { BUDGET });
        let r = catch_unwind(AssertUnwindSafe(|| sut(f)));
        let st = end_op();
        ev.allocs = st.allocs;
        if st.fired {
            ev.flags |= 2;
        }
        match r {
            Ok(r) => Some(r),
            Err(e) => {
                ev.what = 3;
                ev.note = last_panic();
                drop(e);
                None
            }
        }
    }

    fn put(&mut self, f: u32, v: Val) {
        if let Some(old) = self.slots.insert(f, v) {
            sut(|| drop(old));
        }
    }

    fn pl(&self, f: u32) -> Option<&Polyline<f64>> {
        match self.slots.get(&f) {
            Some(Val::P(p)) => Some(p),
            _ => None,
        }
    }

    fn exec(&mut self, op: &SOp) -> Ev {
        let mut ev = Ev { uid: op.uid, ..Ev::default() };
        match &op.k {
            SK::Make(s) => match s {
                Spec::Sel(src, mode, t1, i1, t2, i2, eps, inv) => {
                    let Some(p) = self.pl(*src) else {
                        ev.what = 4;
                        return ev;
                    };
                    let r = self.call(op, &mut ev, || stor::slice_of(p, *mode, t1.0, *i1, t2.0, *i2, eps.0, *inv));
                    match r {
                        Some(Some(v)) => {
                            ev.what = 1;
                            ev.words = stor::words(&v);
                            self.put(op.f, v);
                        }
                        Some(None) => ev.what = 2,
                        None => {}
                    }
                }
                Spec::Bool(a, b, o) => {
                    let (Some(a), Some(b)) = (self.pl(*a), self.pl(*b)) else {
                        ev.what = 4;
                        return ev;
                    };
                    if let Some((i, v)) = self.call(op, &mut ev, || stor::boolean(a, b, *o)) {
                        ev.what = 1;
                        ev.words = stor::words(&v);
                        ev.words.push(i);
                        self.put(op.f, v);
                    }
                }
                s => {
                    let w = spec_words(s, &self.plan.inputs).unwrap();
                    if let Some(v) = self.call(op, &mut ev, || stor::from_words(&w)) {
                        ev.what = 1;
                        ev.words = stor::words(&v);
                        self.put(op.f, v);
                    }
                }
            },
            SK::Store(codec, io) => {
                let Some(v) = self.slots.get(&op.f) else {
                    ev.what = 4;
                    return ev;
                };
                let s = state();
                let busy = s.busy.clone();
                s.disk.torn.retain(|x| x.f != op.f || busy.contains(&x.by));
                s.busy.push(op.uid);
                s.disk.torn.push(File { f: op.f, kind: stor::kind(v), codec: *codec, by: op.uid, complete: false, bytes: vec![] });
                let mut port = Port { io, uid: op.uid, calls: 0, done: 0, hard: false, crash: self.crash(op.uid), out: Some(op.uid), src: vec![] };
                let r = self.call(op, &mut ev, || {
                    if io.buffered {
                        let mut b = io::BufWriter::with_capacity(64, &mut port);
                        let r = stor::write(v, *codec, &mut b);
                        let r2 = b.flush().map_err(|e| e.to_string());
                        let _ = b.into_parts();
                        r.and(r2)
                    } else {
                        stor::write(v, *codec, &mut port)
                    }
                });
                ev.flags |= port.hard as u8;
                ev.codec = *codec;
                ev.io = port.calls;
                let s = state();
                s.busy.retain(|b| *b != op.uid);
                match r {
                    Some(Ok(())) => {
                        ev.what = 1;
                        let i = s.disk.torn.iter().position(|x| x.by == op.uid).unwrap();
                        let mut f = s.disk.torn.remove(i);
                        f.complete = true;
                        s.disk.files.retain(|x| x.f != op.f);
                        s.disk.files.push(f);
                    }
                    Some(Err(e)) => {
                        ev.what = 2;
                        ev.note = outside(|| e.clone());
                        sut(|| drop(e));
                    }
                    None => {}
                }
            }
            SK::Golden(s, style, harm) => {
                let Some(w) = spec_words(s, &self.plan.inputs) else { return ev };
                if !finite(&w) {
                    return ev;
                }
                let (text, harmed) = golden(&w, *style, *harm);
                let s = state();
                s.disk.files.retain(|x| x.f != op.f);
                s.disk.files.push(File { f: op.f, kind: w[0] as u8, codec: 0, by: op.uid, complete: !harmed, bytes: text.into_bytes() });
                ev.what = 1;
                ev.flags = 4 * harmed as u8;
                ev.words = w;
            }
            SK::Load(how, torn, io) => {
                let Some(file) = state().disk.find(op.f, *torn).cloned() else {
                    ev.what = 4;
                    return ev;
                };
                let mut src = file.bytes;
                ev.by = file.by;
                ev.codec = file.codec;
                if !file.complete {
                    ev.flags |= 4;
                }
                if let Some(c) = io.cut {
                    let n = (src.len() as f64 * c.0) as usize;
                    if n < src.len() {
                        src.truncate(n);
                        ev.flags |= 8;
                    }
                }
                let mut port = Port { io, uid: op.uid, calls: 0, done: 0, hard: false, crash: self.crash(op.uid), out: None, src };
                let r = self.call(op, &mut ev, || {
                    if io.buffered {
                        let mut b = io::BufReader::with_capacity(64, &mut port);
                        stor::read(file.kind, file.codec, *how, &mut b)
                    } else {
                        stor::read(file.kind, file.codec, *how, &mut port)
                    }
                });
                ev.flags |= port.hard as u8;
                ev.io = port.calls;
                match r {
                    Some(Ok(v)) => {
                        ev.what = 1;
                        ev.words = stor::words(&v);
                        self.put(op.f, v);
                    }
                    Some(Err(e)) => {
                        ev.what = 2;
                        ev.note = outside(|| e.clone());
                        sut(|| drop(e));
                    }
                    None => {}
                }
            }
            SK::Check(a, b) => {
                let Some(v) = self.slots.get(&op.f).cloned() else {
                    ev.what = 4;
                    return ev;
                };
                let (Some(pa), pb) = (self.pl(*a), self.pl(*b)) else {
                    ev.what = 4;
                    return ev;
                };
                let one = |d, p: &Polyline<f64>, inv: bool| {
                    let mut o = vec![stor::validate(d, p)];
                    o.extend(stor::view_vertexes(d, p, inv));
                    o
                };
                let r = match &v {
                    Val::D(d) => self.call(op, &mut ev, || {
                        let mut o = one(d, pa, false);
                        o.extend(one(d, pa, true));
                        o
                    }),
                    Val::B(l) => {
                        let Some(pb) = pb else {
                            ev.what = 4;
                            return ev;
                        };
                        self.call(op, &mut ev, || {
                            let mut o = vec![];
                            for b in l {
                                for s in &b.subslices {
                                    o.extend(one(&s.view_data, if s.source_is_pline1 { pa } else { pb }, s.view_data.inverted_direction));
                                }
                            }
                            o
                        })
                    }
                    _ => return ev,
                };
                if let Some(o) = r {
                    ev.what = 1;
                    ev.words = o.to_vec();
                    sut(|| drop(o));
                }
            }
            SK::Misfit(src, kind, amount, pos) => {
                let (Some(Val::D(d)), Some(p)) = (self.slots.get(&op.f).cloned(), self.pl(*src).cloned()) else {
                    ev.what = 4;
                    return ev;
                };
                let (d, p) = misfit(&d, p, *kind, amount.0, *pos);
                ev.words = stor::words(&Val::D(d));
                ev.words.extend(stor::words(&Val::P(p.clone())));
                let r = self.call(op, &mut ev, || stor::validate(&d, &p));
                if let Some(c) = r {
                    ev.what = 1;
                    ev.by = c as u32;
                }
            }
            SK::Forget => {
                if let Some(v) = self.slots.remove(&op.f) {
                    self.call(op, &mut ev, || drop(v));
                }
            }
        }
        ev
    }
}

/// A selection or its source, changed so that they may no longer fit.
fn misfit(d: &cavalier_contours::polyline::PlineViewData<f64>, mut p: Polyline<f64>, kind: u8, amount: f64, pos: u32) -> (cavalier_contours::polyline::PlineViewData<f64>, Polyline<f64>) {
    let mut d = *d;
    let n = p.vertex_data.len().max(1);
    match kind {
        0 => d.updated_start.x += amount,
        1 => d.updated_start.y = amount,
        2 => d.end_point.x += amount,
        3 => d.end_point.y = amount,
        4 => d.start_index = n + pos as usize % 3,
        5 => d.start_index = pos as usize % n,
        6 => d.end_index_offset = n + 1 + pos as usize % 4,
        7 => d.end_index_offset = pos as usize % (n + 1),
        8 => d.updated_end_bulge += amount,
        9 => p.vertex_data.truncate(pos as usize % n),
        10 => p.vertex_data.iter_mut().for_each(|v| v.x += amount),
        11 => {
            let k = pos as usize % n;
            if k < p.vertex_data.len() {
                p.vertex_data[k].y += amount
            }
        }
        12 => {
            let k = pos as usize % n;
            let k = k.min(p.vertex_data.len());
            p.vertex_data.rotate_left(k)
        }
        13 => d.start_index = [usize::MAX, usize::MAX / 2, 1 << 32][pos as usize % 3],
        14 => d.end_index_offset = [usize::MAX, usize::MAX - 1, 1 << 40][pos as usize % 3],
        15 => {
            let k = pos as usize % n;
            if k < p.vertex_data.len() {
                p.vertex_data[k].bulge += amount
            }
        }
        16 => std::mem::swap(&mut d.end_point.x, &mut d.end_point.y),
        17 => {
            // the end of the selection put on the vertex its last segment starts at
            let i = (d.start_index % n + d.end_index_offset % n) % n;
            if i < p.vertex_data.len() {
                d.end_point = p.vertex_data[i].pos();
            }
        }
        _ => {}
    }
    (d, p)
}

fn run_child(plan: &Plan, g: usize, disk: &Disk) -> ChildEnd {
    in_child(120, || {
        arena_map();
        let gn = &plan.gens[g];
        arena_reset(&gn.mem);
        state().disk = disk.clone();
        let n = plan.clients;
        run_clients(n, gn.first % n, &gn.sched, gn.switches.clone(), &gn.mem, g as u64, &move |me| {
            let mut c = Cl { plan, gen_: gn, slots: HashMap::new() };
            for op in gn.ops.iter().filter(|o| o.client % n == me) {
                let ev = c.exec(op);
                let s = state();
                s.hist = mix(s.hist, mix(op.uid as u64, ev.what as u64));
                s.evs.push(ev);
                if gn.crash.is_some_and(|x| x.0 == op.uid) {
                    finish_now(&enc_report(true));
                }
            }
            begin_op(0xFFFF_0000 | me as u32, 0, false, u64::MAX);
            sut(|| c.slots.drain().for_each(drop));
            end_op();
        });
        sweep();
        enc_report(false)
    })
}

// ------------------------------------------------------------------ independent geometry

type V3 = [f64; 3];

fn poly(w: &[u64]) -> (Vec<V3>, bool) {
    let n = w[0] as usize;
    ((0..n).map(|i| [0, 1, 2].map(|k| f64::from_bits(w[2 + 3 * i + k]))).collect(), w[1] == 1)
}

#[derive(Clone, Debug)]
struct D {
    start: u64,
    off: u64,
    us: V3,
    ueb: f64,
    ep: [f64; 2],
    inv: bool,
}

fn dview(w: &[u64]) -> D {
    let f = |i: usize| f64::from_bits(w[i]);
    D { start: w[0], off: w[1], us: [f(2), f(3), f(4)], ueb: f(5), ep: [f(6), f(7)], inv: w[8] == 1 }
}

/// The vertexes a selection stands for.
fn model(d: &D, src: &[V3], inv: bool) -> Option<Vec<V3>> {
    let n = src.len();
    if d.start as usize >= n || d.off as usize > n {
        return None;
    }
    let off = d.off as usize;
    let mut v = vec![d.us];
    for j in 1..=off {
        let mut x = src[(d.start as usize + j) % n];
        if j == off {
            x[2] = d.ueb;
        }
        v.push(x);
    }
    v.push([d.ep[0], d.ep[1], 0.0]);
    if !inv {
        return Some(v);
    }
    let k = v.len();
    let mut o = vec![];
    for i in 0..k {
        let p = v[k - 1 - i];
        let b = if i == 0 {
            -d.ueb
        } else if i == k - 1 {
            0.0
        } else {
            -v[k - 2 - i][2]
        };
        o.push([p[0], p[1], b]);
    }
    Some(o)
}

fn seg_len(a: &V3, b: &V3) -> f64 {
    let c = (b[0] - a[0]).hypot(b[1] - a[1]);
    if a[2].abs() < 1e-9 {
        return c;
    }
    let r = c * (1.0 + a[2] * a[2]) / (4.0 * a[2].abs());
    r * 4.0 * a[2].abs().atan()
}

fn length(v: &[V3], closed: bool) -> f64 {
    let n = v.len();
    (0..if closed { n } else { n.saturating_sub(1) }).map(|i| seg_len(&v[i], &v[(i + 1) % n])).sum()
}

/// Distance of a point to a segment (line or arc).
fn seg_dist(a: &V3, b: &V3, p: [f64; 2]) -> f64 {
    let d = |q: [f64; 2]| (p[0] - q[0]).hypot(p[1] - q[1]);
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let ends = d([a[0], a[1]]).min(d([b[0], b[1]]));
    if a[2].abs() < 1e-9 {
        let l = dx * dx + dy * dy;
        if l == 0.0 {
            return ends;
        }
        let t = (((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l).clamp(0.0, 1.0);
        return d([a[0] + t * dx, a[1] + t * dy]);
    }
    let k = (1.0 - a[2] * a[2]) / (4.0 * a[2]);
    let c = [(a[0] + b[0]) / 2.0 - dy * k, (a[1] + b[1]) / 2.0 + dx * k];
    let r = (a[0] - c[0]).hypot(a[1] - c[1]);
    let ang = |q: [f64; 2]| (q[1] - c[1]).atan2(q[0] - c[0]);
    let sweep = 4.0 * a[2].abs().atan();
    let tau = std::f64::consts::TAU;
    let off = if a[2] > 0.0 { ang(p) - ang([a[0], a[1]]) } else { ang([a[0], a[1]]) - ang(p) }.rem_euclid(tau);
    if off <= sweep { ((p[0] - c[0]).hypot(p[1] - c[1]) - r).abs().min(ends) } else { ends }
}

fn curve_dist(v: &[V3], closed: bool, p: [f64; 2]) -> f64 {
    let n = v.len();
    (0..if closed { n } else { n.saturating_sub(1) }).map(|i| seg_dist(&v[i], &v[(i + 1) % n], p)).fold(f64::INFINITY, f64::min)
}

/// A polyline nothing is degenerate about.
fn clean(v: &[V3], closed: bool) -> bool {
    let n = v.len();
    if n < 2 {
        return false;
    }
    let segs = if closed { n } else { n - 1 };
    v.iter().flatten().all(|x| x.is_finite() && x.abs() < 1e4)
        && (0..segs).all(|i| {
            let (a, b) = (v[i], v[(i + 1) % n]);
            let c = (b[0] - a[0]).hypot(b[1] - a[1]);
            c > 0.05 && c < 1e3 && (a[2] == 0.0 || (a[2].abs() >= 1e-2 && a[2].abs() <= 1.0))
        })
}

/// No repeated positions and no wild numbers: what the library asks of a polyline.
fn plain(v: &[V3]) -> bool {
    let n = v.len();
    v.iter().all(|p| p[0].abs() < 1e5 && p[1].abs() < 1e5 && p[2].abs() < 10.0) && (0..n).all(|i| (v[i][0] - v[(i + 1) % n][0]).hypot(v[i][1] - v[(i + 1) % n][1]) > 1e-3)
}

/// A selection whose ends are on vertexes or well away from them, on a polyline without degeneracy.
fn firm(d: &D, v: &[V3]) -> bool {
    plain(v)
        && v.iter().all(|p| p[2].abs() <= 1.0)
        && [[d.us[0], d.us[1]], d.ep].iter().all(|p| {
            v.iter().all(|q| {
                let x = (p[0] - q[0]).hypot(p[1] - q[1]);
                x == 0.0 || x > 1e-2
            })
        })
}

/// A selection that certainly does not fit.
fn certainly_wrong(d: &D, v: &[V3]) -> Option<&'static str> {
    let n = v.len();
    if n < 2 {
        return Some("the polyline has no segments");
    }
    if d.off > n as u64 {
        return Some("it spans more segments than the polyline has");
    }
    if d.start >= n as u64 {
        return Some("it starts at a position the polyline does not have");
    }
    let sane = |a: &V3, b: &V3| [a, b].iter().all(|p| p.iter().all(|x| x.is_finite() && x.abs() < 1e3)) && (a[2] == 0.0 || (a[2].abs() >= 1e-2 && a[2].abs() <= 2.0)) && (b[0] - a[0]).hypot(b[1] - a[1]) > 0.05;
    let off_seg = |i: usize, p: [f64; 2]| {
        if p[0].is_nan() || p[1].is_nan() {
            return true;
        }
        let (a, b) = (v[i], v[(i + 1) % n]);
        sane(&a, &b) && seg_dist(&a, &b, p) > 5e-3
    };
    if off_seg(d.start as usize, [d.us[0], d.us[1]]) {
        return Some("its first point is not on the segment it starts at");
    }
    let e = (d.start as usize + d.off as usize) % n;
    if off_seg(e, d.ep) {
        return Some("its last point is not on the segment it ends at");
    }
    if (d.ep[0] - v[e][0]).abs() < 1e-7 && (d.ep[1] - v[e][1]).abs() < 1e-7 {
        return Some("its last point is the vertex before it");
    }
    if d.off == 0 && (d.ueb - d.us[2]).abs() > 1e-4 {
        return Some("the bulges of its only segment differ");
    }
    None
}

// ------------------------------------------------------------------ judgement

fn fail(class: &str, plan: &Plan, detail: String) -> Verdict {
    Verdict::Fail { class: class.into(), detail, plan: serde_json::to_value(plan).unwrap() }
}

fn diff_words(want: &[u64], have: &[u64]) -> String {
    if want.len() != have.len() {
        return format!("{} words instead of {}", have.len(), want.len());
    }
    match want.iter().zip(have).position(|(a, b)| a != b) {
        Some(i) => format!("word {i} is {:x} ({:?}) instead of {:x} ({:?})", have[i], f64::from_bits(have[i]), want[i], f64::from_bits(want[i])),
        None => "nothing differs".into(),
    }
}

/// One selection as reported by a check: (validation code, agree, vertexes), words used.
fn take_view(w: &[u64]) -> (u64, bool, Vec<V3>, usize) {
    let n = w[2] as usize;
    let v = (0..n).map(|i| [0, 1, 2].map(|k| f64::from_bits(w[3 + 3 * i + k]))).collect();
    (w[0], w[1] == 1, v, 3 + 3 * n)
}

fn same_vs(a: &[V3], b: &[V3]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (0..3).all(|k| x[k].to_bits() == y[k].to_bits() || (x[k].is_nan() && y[k].is_nan()) || (k == 2 && x[k] == 0.0 && y[k] == 0.0)))
}

struct Judge<'a> {
    plan: &'a Plan,
    /// what every file should hold, by the operation that wrote it
    vals: HashMap<u32, Vec<u64>>,
    /// what every slot holds in the running process, per client
    info: HashMap<u32, u64>,
}

impl Judge<'_> {
    fn src(&self, f: u32) -> Option<(Vec<V3>, bool)> {
        self.vals.get(&f).filter(|w| w[0] == 0).map(|w| poly(&w[1..]))
    }

    fn made(&self, op: &SOp, s: &Spec, ev: &Ev, st: &mut Stats) -> Result<(), (String, String)> {
        let Spec::Sel(src, mode, t1, i1, t2, i2, eps, _) = s else { return Ok(()) };
        let Some((v, closed)) = self.src(*src) else { return Ok(()) };
        let n = v.len();
        let ok_t = |t: f64| t == 0.0 || t == 1.0 || (0.05..=0.95).contains(&t);
        if !clean(&v, closed) || !ok_t(t1.0) || !ok_t(t2.0) || eps.0 > 1e-4 {
            return Ok(());
        }
        st.count("selections between well separated points", 1);
        if ev.what == 3 {
            return Err(("selection".into(), format!("operation {}: making a selection of a polyline of {n} vertexes panics: {}", op.uid, ev.note)));
        }
        let segs = if closed { n } else { n - 1 };
        let mut lens = vec![0.0];
        for i in 0..segs {
            lens.push(lens[i] + seg_len(&v[i], &v[(i + 1) % n]));
        }
        let total = lens[segs];
        let pos = |i: u32, t: f64| {
            let i = i as usize % segs;
            lens[i] + (lens[i + 1] - lens[i]) * t
        };
        let (mut a, mut b) = (pos(*i1, t1.0), pos(*i2, t2.0));
        match mode % 4 {
            0 => (a, b) = (0.0, total),
            1 => b = if closed { a + total } else { total },
            2 => {
                if closed {
                    b = a + (b - a).rem_euclid(total);
                    if b - a > total - 1e-3 {
                        return Ok(());
                    }
                } else if a > b {
                    (a, b) = (b, a);
                }
            }
            _ => {
                let (x, y) = (t1.0.min(t2.0), t1.0.max(t2.0));
                (a, b) = (pos(*i1, x), pos(*i1, y));
            }
        }
        if b - a < 1e-2 {
            return Ok(());
        }
        if ev.what != 1 {
            return Err(("selection".into(), format!("operation {}: no selection is made between two points {} apart along the polyline", op.uid, b - a)));
        }
        let d = dview(&ev.words[1..]);
        let Some(m) = model(&d, &v, false) else {
            return Err(("selection".into(), format!("operation {}: the selection made does not fit its own polyline: {d:?}", op.uid)));
        };
        let l = length(&m, false);
        if (l - (b - a)).abs() > 1e-4 * (1.0 + total) {
            return Err(("selection".into(), format!("operation {}: the selection is {l} long, the stretch between its points {}", op.uid, b - a)));
        }
        // both ends and the middle of every part are on the polyline
        for w in m.windows(2) {
            let mid = mid(&w[0], &w[1]);
            if curve_dist(&v, closed, mid) > 1e-3 || curve_dist(&v, closed, [w[0][0], w[0][1]]) > 1e-3 {
                return Err(("selection".into(), format!("operation {}: the selection leaves the polyline near {mid:?}", op.uid)));
            }
        }
        let at = |s: f64| {
            let s = if closed { s.rem_euclid(total) } else { s };
            let i = (0..segs).find(|i| lens[i + 1] >= s).unwrap_or(segs - 1);
            (i, ((s - lens[i]) / (lens[i + 1] - lens[i])).clamp(0.0, 1.0))
        };
        for (s, p) in [(a, [m[0][0], m[0][1]]), (b, d.ep)] {
            let (i, t) = at(s);
            let q = along(&v[i], &v[(i + 1) % n], t);
            if (q[0] - p[0]).hypot(q[1] - p[1]) > 1e-3 {
                return Err(("selection".into(), format!("operation {}: the selection has its end at {p:?} instead of {q:?}", op.uid)));
            }
        }
        Ok(())
    }

    fn checked(&self, op: &SOp, a: u32, b: u32, ev: &Ev, st: &mut Stats) -> Result<(), (String, String)> {
        let Some(w) = self.vals.get(&op.f) else { return Ok(()) };
        let Some((pa, ca)) = self.src(a) else { return Ok(()) };
        if ev.what == 3 {
            if ev.flags & 2 != 0 {
                return Ok(());
            }
            return Err(("attach".into(), format!("operation {}: attaching a restored selection to its own polyline panics: {}", op.uid, ev.note)));
        }
        if ev.what != 1 {
            return Ok(());
        }
        let view = |o: &[u64], d: &D, src: &[V3], inv: bool, what: &str| -> Result<usize, (String, String)> {
            let (code, agree, have, used) = take_view(o);
            if code != 0 && !cfg!(debug_assertions) && (w[0] == 6 || !firm(d, src)) {
                // with its assertions the library would have refused to make this selection
                // (the build that has them judges it)
                return Err(("left out".into(), String::new()));
            }
            if code != 0 {
                return Err(("attach".into(), format!("operation {}: {what} is called invalid (reason {code}) on its own polyline", op.uid)));
            }
            if !agree {
                return Err(("attach".into(), format!("operation {}: {what}: the ways of reading the selection disagree", op.uid)));
            }
            match model(d, src, inv) {
                Some(m) if same_vs(&m, &have) => Ok(used),
                Some(m) => {
                    let i = m.iter().zip(&have).position(|(x, y)| !same_vs(&[*x], &[*y]));
                    let i = i.unwrap_or(m.len().min(have.len()));
                    Err(("vertexes".into(), format!("operation {}: {what} yields {} vertexes, vertex {i} {:?} instead of {} with {:?} ({d:?} on {} vertexes)", op.uid, have.len(), have.get(i), m.len(), m.get(i), src.len())))
                }
                None => Err(("attach".into(), format!("operation {}: {what} does not fit the polyline but is attached: {d:?}", op.uid))),
            }
        };
        match w[0] {
            4 => {
                let d = dview(&w[1..]);
                st.count("selections attached", 1);
                let k = view(&ev.words, &d, &pa, false, "the selection forward")?;
                view(&ev.words[k..], &d, &pa, true, "the selection inverted")?;
            }
            6 => {
                let Some((pb, cb)) = self.src(b) else { return Ok(()) };
                let mut o = &ev.words[..];
                let mut r = &w[2..];
                for _ in 0..w[1] {
                    let (res, closed) = poly(r);
                    r = &r[2 + 3 * res.len()..];
                    let k = r[0] as usize;
                    r = &r[1..];
                    let mut seqs = vec![];
                    for _ in 0..k {
                        let d = dview(r);
                        let first = r[9] == 1;
                        r = &r[11..];
                        let src = if first { &pa } else { &pb };
                        let used = view(o, &d, src, d.inv, "a slice of a boolean result")?;
                        o = &o[used..];
                        seqs.push(model(&d, src, d.inv).unwrap());
                    }
                    if cfg!(debug_assertions) && self.info.get(&op.f) == Some(&5) {
                        if k == 0 {
                            return Err(("slices".into(), format!("operation {}: a stitched result lists no slices", op.uid)));
                        }
                        st.count("boolean results compared with their slices", 1);
                        joined(&seqs, &res, closed).map_err(|e| ("slices".to_string(), format!("operation {}: {e}", op.uid)))?;
                    }
                }
                let _ = (ca, cb);
            }
            _ => {}
        }
        Ok(())
    }
}

fn mid(a: &V3, b: &V3) -> [f64; 2] {
    along(a, b, 0.5)
}

fn along(a: &V3, b: &V3, t: f64) -> [f64; 2] {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    if a[2].abs() < 1e-9 {
        return [a[0] + dx * t, a[1] + dy * t];
    }
    let k = (1.0 - a[2] * a[2]) / (4.0 * a[2]);
    let c = [(a[0] + b[0]) / 2.0 - dy * k, (a[1] + b[1]) / 2.0 + dx * k];
    let (s, co) = (4.0 * a[2].atan() * t).sin_cos();
    let (x, y) = (a[0] - c[0], a[1] - c[1]);
    [c[0] + x * co - y * s, c[1] + x * s + y * co]
}

/// Do the slices, in order, trace the result?
fn joined(seqs: &[Vec<V3>], res: &[V3], closed: bool) -> Result<(), String> {
    let mut out: Vec<V3> = vec![];
    let near = |a: &V3, b: &V3, e: f64| (a[0] - b[0]).abs() < e && (a[1] - b[1]).abs() < e;
    for (i, s) in seqs.iter().enumerate() {
        let prev = seqs[(i + seqs.len() - 1) % seqs.len()].last().unwrap();
        if !near(prev, &s[0], 1e-4) {
            return Err(format!("slice {i} starts at {:?}, the one before it ends at {:?}", &s[0][..2], &prev[..2]));
        }
        out.pop();
        for v in s {
            match out.last_mut() {
                Some(l) if near(l, v, 1e-5) => l[2] = v[2],
                _ => out.push(*v),
            }
        }
    }
    out.pop();
    if out.len() == res.len() && out.iter().zip(res).all(|(a, b)| near(a, b, 1e-9) && (a[2] - b[2]).abs() < 1e-9) {
        return Ok(());
    }
    // not the same vertexes: then at least the same curve
    let (l1, l2) = (length(&out, true), length(res, closed));
    if (l1 - l2).abs() > 1e-3 * (1.0 + l1.max(l2)) {
        return Err(format!("the slices are {l1} long together, the result {l2}"));
    }
    for (a, b, ca, cb, what) in [(&out[..], res, true, closed, "slices"), (res, &out[..], closed, true, "result")] {
        let n = a.len();
        for i in 0..if ca { n } else { n - 1 } {
            for t in [0.0, 0.5] {
                let p = along(&a[i], &a[(i + 1) % n], t);
                let d = curve_dist(b, cb, p);
                if d > 1e-2 {
                    return Err(format!("the {what} pass {p:?}, which is {d} away from the other"));
                }
            }
        }
    }
    Ok(())
}

pub fn execute(plan0: &Plan, st: &mut Stats) -> Verdict {
    let mut plan = plan0.clone();
    if plan.inputs.is_empty() {
        return Verdict::Pass { digest: 0, nontrivial: false };
    }
    let mut disk = Disk::default();
    let mut j = Judge { plan: plan0, vals: HashMap::new(), info: HashMap::new() };
    // contents by the operation that wrote them
    let mut by: HashMap<u32, Vec<u64>> = HashMap::new();
    let mut texts: Vec<(u32, Vec<u8>)> = vec![];
    let mut dg = 0u64;
    let mut useful = 0u64;
    let c09 = plan.prop == "C09";
    let mut g = 0;
    while g < plan.gens.len() {
        let rep = match run_child(&plan, g, &disk) {
            ChildEnd::Done(b) => dec_report(&b),
            ChildEnd::StdAbort { uid } => {
                st.count("allocation failures left out because the standard library aborts there", 1);
                let mut hit = false;
                for o in plan.gens[g].ops.iter_mut().filter(|o| o.uid == uid && o.oom.is_some()) {
                    o.oom = None;
                    hit = true;
                }
                if hit {
                    continue;
                }
                return Verdict::Harness("standard library abort without an injected failure".into());
            }
            ChildEnd::Stall(m) => {
                let u: Option<u32> = m.split("operation ").nth(1).and_then(|s| s.split(' ').next()).and_then(|s| s.parse().ok());
                let is_bool = plan.gens[g].ops.iter().any(|o| Some(o.uid) == u && matches!(o.k, SK::Make(Spec::Bool(..) | Spec::Sel(..))));
                if is_bool {
                    st.count("computations left out because they exceed the work budget", 1);
                    let u = u.unwrap();
                    plan.gens[g].ops.retain(|o| o.uid != u);
                    continue;
                }
                return fail("stall", &plan, m);
            }
            ChildEnd::Died { signal, client, uid } => {
                plan.gens[g].switches.get_or_insert(logged_switches());
                return fail("died", &plan, format!("process {g} died of signal {signal} in operation {uid} of client {client}"));
            }
            ChildEnd::Timeout => return Verdict::Harness("run timed out".into()),
            ChildEnd::Odd(c) => return Verdict::Harness(format!("child ended oddly ({c})")),
        };
        if plan.gens[g].switches.is_none() {
            plan.gens[g].switches = Some(rep.switches.clone());
        }
        let crashed = rep.n[7] == 1;
        st.count("processes", 1);
        st.count("simulated steps", rep.n[5]);
        st.count("I/O calls", rep.n[1]);
        st.count("hand-overs inside calls", rep.switches.iter().filter(|s| s.step > 0).count() as u64);
        st.fault_n("short write or read", rep.n[2]);
        st.fault_n("interrupted I/O call", rep.n[3]);
        st.fault_n("failed I/O call", rep.n[4]);
        st.fault_n("power loss", crashed as u64);
        dg = mix(dg, mix(rep.n[0], mix(rep.n[6], rep.n[5])));
        if !rep.memv.is_empty() && c09 {
            return fail("memory", &plan, rep.memv.clone());
        }
        for ev in &rep.evs {
            let op = plan.gens[g].ops.iter().find(|o| o.uid == ev.uid).unwrap();
            st.op(match &op.k {
                SK::Make(Spec::Sel(..)) => "make a selection",
                SK::Make(Spec::Bool(..)) => "boolean operation",
                SK::Make(_) => "make a value",
                SK::Store(..) => "store",
                SK::Golden(..) => "file written by hand",
                SK::Load(..) => "load",
                SK::Check(..) => "attach",
                SK::Misfit(..) => "attach where it does not fit",
                SK::Forget => "forget",
            });
            let oom = ev.flags & 2 != 0;
            if oom {
                st.fault("allocation failure");
            }
            if ev.flags & 8 != 0 {
                st.fault("file cut short");
            }
            for w in &ev.words {
                dg = mix(dg, *w);
            }
            dg = mix(dg, ev.what as u64);
            let r: Result<(), (String, String)> = match &op.k {
                SK::Make(s) => {
                    let mut r = Ok(());
                    if ev.what == 1 {
                        let mut w = ev.words.clone();
                        if matches!(s, Spec::Bool(..)) {
                            j.info.insert(op.f, w.pop().unwrap());
                        } else if let Some(want) = spec_words(s, &plan.inputs) {
                            if want != w {
                                return Verdict::Harness("value not built as specified".into());
                            }
                        }
                        j.vals.insert(op.f, w);
                    }
                    if !oom && ev.what != 4 {
                        r = j.made(op, s, ev, st);
                    }
                    r
                }
                SK::Golden(..) => {
                    if ev.what == 1 {
                        by.insert(ev.uid, ev.words.clone());
                        j.vals.insert(op.f, ev.words.clone());
                        if ev.flags & 4 != 0 {
                            st.fault("file damaged");
                        }
                    }
                    Ok(())
                }
                SK::Store(codec, _) => {
                    if let Some(v) = j.vals.get(&op.f) {
                        by.insert(ev.uid, v.clone());
                    }
                    match ev.what {
                        1 if ev.flags & 1 != 0 => Err(("swallowed".into(), format!("operation {}: the writer failed, storing reports success", op.uid))),
                        1 => {
                            useful += 1;
                            // the file may have been replaced since; judged when it is still there
                            if *codec < 3 {
                                if let Some(f) = rep.disk.files.iter().find(|f| f.by == ev.uid) {
                                    texts.push((ev.uid, f.bytes.clone()));
                                }
                            }
                            Ok(())
                        }
                        2 if ev.flags & 3 == 0 => Err(("refused".into(), format!("operation {}: storing a value fails although the writer does not: {}", op.uid, ev.note))),
                        3 if !oom => Err(("panic".into(), format!("operation {}: storing a value panics: {}", op.uid, ev.note))),
                        _ => Ok(()),
                    }
                }
                SK::Load(..) => match (ev.what, by.get(&ev.by)) {
                    (1, Some(want)) => {
                        useful += 1;
                        if ev.words == *want {
                            Ok(())
                        } else {
                            Err(("other-value".into(), format!("operation {}: a {} file written by operation {} reads as another value: {}", op.uid, if ev.flags & 4 != 0 { "torn or damaged" } else if ev.flags & 8 != 0 { "cut" } else { "complete" }, ev.by, diff_words(want, &ev.words))))
                        }
                    }
                    (2, Some(want)) if ev.flags == 0 && (ev.codec >= 3 || finite(want)) => {
                        Err(("unreadable".into(), format!("operation {}: the complete file written by operation {} (codec {}) cannot be read: {}", op.uid, ev.by, ev.codec, ev.note)))
                    }
                    (3, _) if !oom => Err(("panic".into(), format!("operation {}: reading panics: {}", op.uid, ev.note))),
                    _ => Ok(()),
                },
                SK::Check(a, b) => match j.checked(op, *a, *b, ev, st) {
                    Err((c, _)) if c == "left out" => {
                        st.count("selections of degenerate polylines the library itself calls invalid (left out)", 1);
                        Ok(())
                    }
                    r => r,
                },
                SK::Misfit(_, kind, ..) => match ev.what {
                    3 if !oom && plain(&poly(&ev.words[11..]).0) => Err(("misfit".into(), format!("operation {}: validating a selection that does not fit panics: {}", op.uid, ev.note))),
                    1 => {
                        let d = dview(&ev.words[1..]);
                        let (v, _) = poly(&ev.words[11..]);
                        match certainly_wrong(&d, &v) {
                            Some(why) => {
                                st.fault("selection attached where it does not fit");
                                if ev.by == 0 {
                                    Err(("misfit".into(), format!("operation {} (kind {kind}): a selection is called valid although {why}: {d:?} on {} vertexes", op.uid, v.len())))
                                } else {
                                    Ok(())
                                }
                            }
                            None => Ok(()),
                        }
                    }
                    _ => Ok(()),
                },
                SK::Forget => Ok(()),
            };
            if let Err((class, detail)) = r {
                return fail(&class, &plan, format!("process {g}: {detail}"));
            }
        }
        for (uid, t) in texts.drain(..) {
            let Some(want) = by.get(&uid) else { continue };
            let e = match std::str::from_utf8(&t).ok().and_then(|t| serde_json::from_str::<Value>(t).ok()) {
                None => Some("the stored text is not JSON".to_string()),
                Some(v) => shows(&doc(want), &v, "").err(),
            };
            st.count("stored texts compared with the documented form", 1);
            if let Some(e) = e {
                return fail("form", &plan, format!("process {g}: text stored by operation {uid}: {e}"));
            }
        }
        disk = rep.disk;
        // a complete file survives whatever happens to a later write of the same name
        g += 1;
    }
    st.trace(dg);
    let _ = j.plan;
    Verdict::Pass { digest: dg, nontrivial: useful > 0 }
}

// ------------------------------------------------------------------ generation

fn io(r: &mut Rng, bytes: u64, reader: bool, faults: bool) -> Io {
    let mut o = Io { buffered: r.chance(0.3), ..Io::default() };
    if !faults {
        return o;
    }
    if r.chance(0.5) {
        o.short = *r.pick(&[1, 1, 2, 3, 7, 16, 100]);
    }
    if r.chance(0.4) {
        o.eintr = *r.pick(&[2, 3, 5, 17]);
    }
    if r.chance(0.25) {
        o.fail = Some((r.u64() % bytes.max(1), r.below(3) as u8));
    }
    if reader && r.chance(0.2) {
        o.cut = Some(F(if r.chance(0.3) { 0.9999 } else { r.f() }));
    }
    o
}

fn num(r: &mut Rng) -> F {
    F(match r.weighted(&[6, 4, 3, 2, 2]) {
        0 => r.fr(-100.0, 100.0),
        1 => r.range(-20, 20) as f64,
        2 => *r.pick(&[0.0, -0.0, 5e-324, -5e-324, f64::MIN_POSITIVE, f64::MAX, -f64::MAX, 1e-300, 1e300, 9007199254740993.0, 0.1, 1.0 / 3.0, 123456789.123456789]),
        3 => {
            let x = f64::from_bits(r.u64());
            if x.is_finite() { x } else { 1.5 }
        }
        _ => *r.pick(&[1e15, 1e16, 1e17, 1e21, 1e-5, 1e-7, 2.5e-8, 1.0000000000000002, 0.30000000000000004]),
    })
}

fn dspec(r: &mut Rng) -> DSpec {
    let ix = |r: &mut Rng| *r.pick(&[0, 1, 2, 3, 17, 255, 256, 65536, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX, 1 << 53, (1 << 53) + 1]);
    DSpec { start: ix(r), off: ix(r), us: [num(r), num(r), num(r)], ueb: num(r), ep: [num(r), num(r)], inv: r.chance(0.5), flags: r.below(4) as u8 }
}

fn value_input(r: &mut Rng, big: bool) -> Input {
    match r.below(6) {
        0 => genr::polyline(r, big),
        1 => {
            let mut p = genr::polyline(r, false);
            damage(&mut p, r);
            p
        }
        _ => {
            let mut p = Input::new(r.chance(0.5));
            let n = if big { r.range(200, 3000) as usize } else { *r.pick(&[0, 0, 1, 1, 2, 3, 4, 5, 8, 20]) };
            for i in 0..n {
                if i > 0 && r.chance(0.15) {
                    // repeats, exact and nearly
                    let l = p.v[i - 1];
                    let x = if r.chance(0.5) { l[0] } else { F(f64::from_bits(l[0].0.to_bits() ^ 1)) };
                    p.v.push([x, l[1], if r.chance(0.5) { l[2] } else { num(r) }]);
                } else {
                    p.v.push([num(r), num(r), num(r)]);
                }
            }
            p
        }
    }
}

fn spec(r: &mut Rng, ni: usize) -> Spec {
    let i = |r: &mut Rng| r.below(ni) as u32;
    match r.weighted(&[10, 4, 2, 2, 4, 3, 4, 3]) {
        0 => Spec::P(i(r)),
        1 => Spec::S(i(r)),
        2 => Spec::V([num(r), num(r), num(r)]),
        3 => Spec::X([num(r), num(r)]),
        4 => Spec::D(dspec(r)),
        5 => Spec::L((0..r.below(5)).map(|_| dspec(r)).collect()),
        6 => Spec::B((0..r.below(4)).map(|_| (i(r), (0..r.below(4)).map(|_| dspec(r)).collect())).collect()),
        _ => Spec::M((0..r.below(5)).map(|_| i(r)).collect()),
    }
}

fn size_of(s: &Spec, inputs: &[Input]) -> u64 {
    spec_words(s, inputs).map(|w| 12 * w.len() as u64).unwrap_or(300)
}

pub fn generate(prop: &str, seed: u64, run: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(mix(mix(seed, fnv(prop.as_bytes())), run));
    let clients = *r.pick(&[1, 1, 2, 2, 3]);
    let ngen = if thorough { r.range(2, 4) } else { r.range(2, 3) } as usize;
    let mut uid = 0;
    let mut gens: Vec<Gen> = vec![];
    let new_gen = |r: &mut Rng, ops: Vec<SOp>, last: bool| {
        let crash = if !last && !ops.is_empty() && r.chance(0.5) { Some((ops[r.below(ops.len())].uid, *r.pick(&[1, 2, 3, 5, 9, 20, 60, 200]))) } else { None };
        Gen { ops, crash, mem: mem_knobs(r), sched: sched_knobs(r, clients), switches: None, first: r.below(clients) }
    };
    if prop == "C09" {
        let big = r.chance(if thorough { 0.05 } else { 0.02 });
        let inputs: Vec<Input> = (0..r.range(1, 3)).map(|i| value_input(&mut r, big && i == 0)).collect();
        let nf = if big { 1 } else { r.range(1, 5) } as u32;
        let faults = r.chance(0.8);
        let mut first = vec![];
        let mut sizes = vec![];
        for f in 0..nf {
            let client = r.below(clients);
            let s = spec(&mut r, inputs.len());
            let size = size_of(&s, &inputs);
            sizes.push(size);
            let mut add = |k: SK, r: &mut Rng, faults: bool| {
                uid += 1;
                let oom = if faults && r.chance(0.08) { Some((r.range(1, 12) as u32, r.chance(0.3))) } else { None };
                first.push(SOp { uid, client, f, k, oom });
            };
            if r.chance(0.3) {
                let harm = if r.chance(0.5) { 0 } else { r.range(1, 7) as u8 };
                add(SK::Golden(s, r.u64(), harm), &mut r, false);
            } else {
                add(SK::Make(s), &mut r, false);
                for _ in 0..r.range(1, 2) {
                    let fl = faults && r.chance(0.6);
                    let i = io(&mut r, size, false, fl);
                    add(SK::Store(r.below(5) as u8, i), &mut r, fl);
                }
            }
        }
        gens.push(new_gen(&mut r, first, false));
        for g in 1..ngen {
            let mut ops = vec![];
            for _ in 0..r.range(1, 2 * nf as i64) {
                let f = r.below(nf as usize) as u32;
                let client = r.below(clients);
                let mut add = |k: SK, r: &mut Rng, faults: bool| {
                    uid += 1;
                    let oom = if faults && r.chance(0.08) { Some((r.range(1, 12) as u32, r.chance(0.3))) } else { None };
                    ops.push(SOp { uid, client, f, k, oom });
                };
                let fl = faults && r.chance(0.5);
                let i = io(&mut r, sizes[f as usize], true, fl);
                add(SK::Load(r.below(4) as u8, r.chance(0.5), i), &mut r, fl);
                if r.chance(0.3) {
                    // again, nothing failing
                    let i = io(&mut r, 1, true, false);
                    add(SK::Load(r.below(4) as u8, false, i), &mut r, false);
                }
                if r.chance(0.4) && g + 1 < ngen {
                    let fl = faults && r.chance(0.4);
                    let i = io(&mut r, sizes[f as usize], false, fl);
                    add(SK::Store(r.below(5) as u8, i), &mut r, fl);
                }
            }
            let g = new_gen(&mut r, ops, g + 1 == ngen);
            gens.push(g);
        }
        return Plan { prop: prop.into(), seed, run, clients, inputs, gens };
    }
    // selections
    let inputs: Vec<Input> = {
        let mut v = vec![];
        while v.len() < r.range(1, 3) as usize {
            let mut p = if !v.is_empty() && r.chance(0.6) { genr::sibling(&v[0], &mut r) } else { genr::polyline(&mut r, false) };
            if p.len() > 60 {
                p.v.truncate(60);
            }
            if p.len() >= 2 {
                v.push(p);
            }
        }
        v
    };
    let ni = inputs.len() as u32;
    let mut ops = vec![];
    let mut metas: Vec<(u32, usize, u32, u32)> = vec![];
    let faults = r.chance(0.3);
    // every client has its own copies of the sources
    for c in 0..clients {
        for i in 0..ni {
            let f = c as u32 * 100 + i;
            uid += 1;
            ops.push(SOp { uid, client: c, f, k: SK::Make(Spec::P(i)), oom: None });
            let fl = faults && r.chance(0.3);
            let i = io(&mut r, 500, false, fl);
            uid += 1;
            ops.push(SOp { uid, client: c, f, k: SK::Store(r.below(5) as u8, i), oom: None });
        }
        for s in 0..r.range(1, 4) as u32 {
            let f = c as u32 * 100 + 10 + s;
            let src = c as u32 * 100 + r.below(ni as usize) as u32;
            let (spec, a, b) = if ni > 1 && r.chance(0.35) {
                let b = c as u32 * 100 + (src % 100 + 1 + r.below(ni as usize - 1) as u32) % ni;
                (Spec::Bool(src, b, r.below(4) as u8), src, b)
            } else {
                let t = |r: &mut Rng| F(*r.pick(&[0.0, 1.0, 0.5, 0.5, 0.25, 0.75, -1.0, -1.0, -1.0, 0.999999, 0.000001]));
                let t = |r: &mut Rng| {
                    let x = t(r);
                    if x.0 < 0.0 { F(r.fr(0.05, 0.95)) } else { x }
                };
                let i1 = r.below(64) as u32;
                let i2 = if r.chance(0.3) { i1 } else { r.below(64) as u32 };
                (Spec::Sel(src, r.below(4) as u8, t(&mut r), i1, t(&mut r), i2, F(*r.pick(&[1e-5, 1e-5, 1e-5, 1e-4, 1e-8])), r.chance(0.3)), src, src)
            };
            metas.push((f, c, a, b));
            uid += 1;
            ops.push(SOp { uid, client: c, f, k: SK::Make(spec), oom: None });
            uid += 1;
            ops.push(SOp { uid, client: c, f, k: SK::Check(a, b), oom: None });
            let fl = faults && r.chance(0.3);
            let i = io(&mut r, 300, false, fl);
            uid += 1;
            ops.push(SOp { uid, client: c, f, k: SK::Store(r.below(5) as u8, i), oom: None });
        }
    }
    gens.push(new_gen(&mut r, ops, false));
    for g in 1..ngen {
        let mut ops = vec![];
        let mut seen: Vec<(usize, u32)> = vec![];
        for (f, _, a, b) in &metas {
            let client = r.below(clients);
            for x in [*a, *b, *f] {
                if seen.contains(&(client, x)) {
                    continue;
                }
                seen.push((client, x));
                uid += 1;
                let fl = faults && r.chance(0.2);
            let i = io(&mut r, 300, true, fl);
                ops.push(SOp { uid, client, f: x, k: SK::Load(r.below(4) as u8, r.chance(0.2), i), oom: None });
            }
            uid += 1;
            ops.push(SOp { uid, client, f: *f, k: SK::Check(*a, *b), oom: None });
            for _ in 0..r.below(4) {
                uid += 1;
                let am = F(*r.pick(&[0.02, -0.02, 0.1, 1.0, -3.0, 50.0, f64::NAN, f64::INFINITY, 1e300]));
                let src = if r.chance(0.3) { *r.pick(&[*a, *b]) } else { *a };
                ops.push(SOp { uid, client, f: *f, k: SK::Misfit(src, r.below(18) as u8, am, r.below(64) as u32), oom: None });
            }
            if g + 1 < ngen && r.chance(0.5) {
                for x in [*a, *f] {
                    uid += 1;
                    let fl = faults && r.chance(0.2);
            let i = io(&mut r, 300, false, fl);
                    ops.push(SOp { uid, client, f: x, k: SK::Store(r.below(5) as u8, i), oom: None });
                }
            }
        }
        let g = new_gen(&mut r, ops, g + 1 == ngen);
        gens.push(g);
    }
    Plan { prop: prop.into(), seed, run, clients, inputs, gens }
}

// ------------------------------------------------------------------ minimisation

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut v: Vec<Plan> = vec![];
    for g in (1..p.gens.len()).rev() {
        let mut q = p.clone();
        q.gens.remove(g);
        v.push(q);
    }
    for g in 0..p.gens.len() {
        let n = p.gens[g].ops.len();
        let mut k = n / 2;
        while k >= 1 {
            let mut i = 0;
            while i < n {
                let mut q = p.clone();
                q.gens[g].ops.drain(i..(i + k).min(n));
                v.push(q);
                i += k;
            }
            k /= 2;
        }
        if p.gens[g].crash.is_some() {
            let mut q = p.clone();
            q.gens[g].crash = None;
            v.push(q);
        }
        if p.gens[g].switches.as_ref().is_some_and(|s| !s.is_empty()) {
            let mut q = p.clone();
            q.gens[g].switches = Some(vec![]);
            v.push(q);
        }
        if serde_json::to_value(&p.gens[g].mem).unwrap() != serde_json::to_value(MemKnobs::default()).unwrap() {
            let mut q = p.clone();
            q.gens[g].mem = MemKnobs::default();
            v.push(q);
        }
    }
    if p.clients > 1 {
        let mut q = p.clone();
        q.clients = 1;
        q.gens.iter_mut().for_each(|g| g.switches = Some(vec![]));
        v.push(q);
    }
    for g in 0..p.gens.len() {
        for i in 0..p.gens[g].ops.len() {
            if p.gens[g].ops[i].oom.is_some() {
                let mut q = p.clone();
                q.gens[g].ops[i].oom = None;
                v.push(q);
            }
            if let SK::Store(_, x) | SK::Load(_, _, x) = &p.gens[g].ops[i].k {
                if *x != Io::default() {
                    let mut q = p.clone();
                    if let SK::Store(_, x) | SK::Load(_, _, x) = &mut q.gens[g].ops[i].k {
                        *x = Io::default();
                    }
                    v.push(q);
                }
            }
        }
    }
    for i in 0..p.inputs.len() {
        let n = p.inputs[i].len();
        let mut k = n / 2;
        while k >= 1 {
            let mut a = 0;
            while a < n {
                let mut q = p.clone();
                q.inputs[i].v.drain(a..(a + k).min(n));
                v.push(q);
                a += k;
            }
            k /= 2;
        }
        if n <= 12 {
            for a in 0..n {
                for c in 0..3 {
                    let x = p.inputs[i].v[a][c].0;
                    for y in [0.0, x.round()] {
                        if x.is_finite() && x.to_bits() != y.to_bits() && x.to_string().len() > y.to_string().len() {
                            let mut q = p.clone();
                            q.inputs[i].v[a][c] = F(y);
                            v.push(q);
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn rule(prop: &str) -> String {
    match prop {
        "C08" => "one evaluation is a chain of processes that make selections, store them, lose power, restore and re-attach them; distinct by the hash of all reports, I/O histories and hand-overs; non-trivial when at least one record was stored or restored".into(),
        _ => "one evaluation is a chain of processes that write values through faulty writers, lose power and read them through faulty readers; distinct by the hash of all reports, I/O histories and hand-overs; non-trivial when at least one value was stored or restored".into(),
    }
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec![
        "serde_json is used with its float_roundtrip feature, without which it does not itself read back the last digit of every number".to_string(),
        "a file that is written completely replaces the old one at once; a write cut off leaves a leading part".to_string(),
    ];
    if prop == "C08" {
        v.push("where a selection should lie is judged only for polylines without degenerate segments and points not closer than 5% to a vertex".to_string());
        v.push("a selection is called unfit only where it misses its segment by more than 5e-3 (the library's own tolerance is 1e-3)".to_string());
    }
    v
}
