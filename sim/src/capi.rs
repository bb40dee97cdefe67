//! World of the C interface: clients hold polylines, lists and indexes and call the exported
//! functions under the scheduler, with bad arguments, unknown codes and failing allocations.
//! Next to every object stands its value; what a call computes is asked of the library directly.
use crate::genr;
use crate::kernel::*;
use crate::ops::{damage, mem_knobs, sched_knobs};
use crate::rng::{Rng, mix};
use crate::world::{Stats, Verdict};
use crate::cabi::*;
use glue::cref::{self, A, Index2, M, OffOpt, Q};
use glue::{F, Input};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Which object: 0 own, 1 shared by all clients, 2 element of an own list, 3 element of a shared
/// list, 9 null.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ref(pub u8, pub u32);

/// Which position: 0 inside, 1 just past the end, 2 far out, 3 last.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pos(pub u8, pub u32);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OOpt {
    pub ix: Option<Ref>,
    pub eps: [F; 3],
    pub selfi: u8,
    pub init: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BOpt {
    pub ix: Option<Ref>,
    pub eps: F,
    pub init: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    OffInit(bool),
    BoolInit(bool),
    Create(u32, u8),
    CreateBig(u32, u64, u8),
    Free(Ref),
    FreeList(Ref),
    FreeIndex(Ref),
    Reserve(Ref, u32),
    Clone(Ref),
    GetClosed(Ref),
    SetClosed(Ref, u8),
    Count(Ref),
    GetData(Ref),
    SetData(Ref, u32),
    Clear(Ref),
    Add(Ref, F, F, F),
    AddMany(Ref, u32),
    Get(Ref, Pos),
    Set(Ref, Pos, F, F, F),
    /// replace part of a vertex: only the bulge, only x, only y, or nothing at all
    Part(Ref, Pos, u8, F),
    Remove(Ref, Pos),
    Length(Ref),
    Area(Ref),
    Wn(Ref, F, F),
    Invert(Ref),
    Scale(Ref, F),
    Translate(Ref, F, F),
    RemRepeat(Ref, F),
    RemRedundant(Ref, F),
    Extents(Ref),
    Offset(Ref, F, Option<OOpt>),
    Bool(Ref, Ref, u32, Option<BOpt>),
    Index(Ref, bool),
    IxExtents(Ref),
    LCount(Ref),
    LGet(Ref, Pos),
    LPop(Ref),
    LTake(Ref, Pos),
    Send(u32),
    Recv(u32),
}

impl Call {
    pub fn name(&self) -> String {
        let s = format!("{self:?}");
        s.split(['(', ' ']).next().unwrap().to_string()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct COp {
    pub uid: u32,
    pub client: usize,
    pub c: Call,
    /// (where among the allocations of the call, all later ones too)
    pub oom: Option<(F, bool)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub clients: usize,
    pub first: usize,
    pub inputs: Vec<Input>,
    pub shared: Vec<COp>,
    pub ops: Vec<COp>,
    pub sched: SchedKnobs,
    pub switches: Option<Vec<Switch>>,
    pub mem: MemKnobs,
}

// ------------------------------------------------------------------ objects and their values

type PP = *const cavc_pline;

struct P {
    ptr: PP,
    m: M,
}
struct L {
    ptr: *const cavc_plinelist,
    e: Vec<P>,
}
struct I {
    ptr: *const cavc_aabbindex,
    ix: Index2,
    b: [f64; 4],
}
#[derive(Default)]
struct Slots {
    p: Vec<P>,
    l: Vec<L>,
    i: Vec<I>,
}
enum Parcel {
    P(P),
    L(L),
    I(I),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Bad {
    class: String,
    uid: u32,
    detail: String,
}

fn judged_by(class: &str) -> &'static [&'static str] {
    match class {
        "memory" | "leak" | "buffer" => &["C01"],
        "handed-out" | "target-after-failure" | "object-after-failure" | "argument-after-failure" => &["C02"],
        "code" => &["C02", "C03"],
        "result" | "target" | "object-changed" | "argument-changed" => &["C03"],
        "died" => &["C01", "C02", "C03"],
        "stall" => &["C02", "C03"],
        _ => &[],
    }
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same_v(a: &[f64; 3], b: &[f64; 3]) -> bool {
    (0..3).all(|i| same(a[i], b[i]))
}
fn same_m(a: &M, b: &M) -> bool {
    a.closed == b.closed && a.v.len() == b.v.len() && a.v.iter().zip(&b.v).all(|(x, y)| same_v(x, y))
}

fn show(m: &M) -> String {
    let n = m.v.len();
    let f: Vec<String> = m.v.iter().take(4).map(|v| format!("{v:?}")).collect();
    format!("{} polyline of {n} vertexes {}{}", if m.closed { "closed" } else { "open" }, f.join(" "), if n > 4 { " .." } else { "" })
}

fn diff_m(a: &M, b: &M) -> String {
    if a.closed != b.closed {
        return format!("closed flag is {} instead of {}", b.closed, a.closed);
    }
    if a.v.len() != b.v.len() {
        return format!("{} vertexes instead of {}", b.v.len(), a.v.len());
    }
    match a.v.iter().zip(&b.v).position(|(x, y)| !same_v(x, y)) {
        Some(i) => format!("vertex {i} is {:?} instead of {:?}", b.v[i], a.v[i]),
        None => "nothing differs".into(),
    }
}

/// What the reading functions say about a polyline (asked with nothing failing).
fn observe(p: PP) -> Result<M, String> {
    unsafe {
        let mut n = 0u32;
        let rc = cavc_pline_get_vertex_count(p, &mut n);
        if rc != 0 {
            return Err(format!("reading the vertex count gives code {rc}"));
        }
        let z = cavc_vertex::new(0.0, 0.0, 0.0);
        let mut buf = vec![z; n as usize + 1];
        let rc = cavc_pline_get_vertex_data(p, buf.as_mut_ptr());
        if rc != 0 {
            return Err(format!("reading the vertexes gives code {rc}"));
        }
        let mut c = 7u8;
        let rc = cavc_pline_get_is_closed(p, &mut c);
        if rc != 0 {
            return Err(format!("reading the closed flag gives code {rc}"));
        }
        Ok(M { v: buf[..n as usize].iter().map(|v| [v.x, v.y, v.bulge]).collect(), closed: c != 0 })
    }
}

const DEAD: usize = 0x5EED_0000_DEAD_BEE0;
const BUDGET: u64 = 15_000_000;
const REF_BUDGET: u64 = 4_000_000;
/// references of objects too large for anything but plain vertex access
const HEAVY: usize = 300;

#[derive(Default, Serialize, Deserialize)]
struct Out {
    bad: Vec<Bad>,
    counts: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    words: u64,
    trace: u64,
    switches: Vec<Switch>,
    leak: Option<(u32, String)>,
    memv: String,
    steps: u64,
    worked: u64,
}

struct Cl<'a> {
    me: usize,
    plan: &'a Plan,
    s: Slots,
    sh: &'a Slots,
    mail: &'a RefCell<Vec<Parcel>>,
    out: Out,
    skip: Vec<u32>,
    setup: bool,
}

struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

enum Exp {
    Rc(i32),
    Void,
}

impl<'a> Cl<'a> {
    fn bad(&mut self, class: &str, op: &COp, detail: String) {
        if self.out.bad.len() < 20 {
            self.out.bad.push(Bad { class: class.into(), uid: op.uid, detail: format!("client {} call {} ({}): {detail}", self.me, op.uid, op.c.name()) });
        }
    }
    fn count(&mut self, k: &str) {
        *self.out.counts.entry(k.into()).or_default() += 1;
    }
    fn word(&mut self, x: u64) {
        self.out.words = mix(self.out.words, x);
    }

    /// (pointer, value) of the polyline an argument names; a missing object becomes null
    fn pref(&self, r: Ref) -> (PP, Option<&M>) {
        let el = |s: &'a Slots, i: u32| -> Option<&'a P> {
            let all: Vec<&P> = s.l.iter().flat_map(|l| l.e.iter()).collect();
            if all.is_empty() { None } else { Some(all[i as usize % all.len()]) }
        };
        let own: &Slots = &self.s;
        let p: Option<&P> = match r.0 {
            0 if !own.p.is_empty() => Some(&own.p[r.1 as usize % own.p.len()]),
            1 if !self.sh.p.is_empty() => Some(&self.sh.p[r.1 as usize % self.sh.p.len()]),
            2 => {
                let all: Vec<&P> = own.l.iter().flat_map(|l| l.e.iter()).collect();
                if all.is_empty() { None } else { Some(all[r.1 as usize % all.len()]) }
            }
            3 => el(self.sh, r.1),
            _ => None,
        };
        match p {
            Some(p) => (p.ptr, Some(&p.m)),
            None => (std::ptr::null(), None),
        }
    }
    fn pown(&self, r: Ref) -> Option<usize> {
        if r.0 == 9 || self.s.p.is_empty() { None } else { Some(r.1 as usize % self.s.p.len()) }
    }
    fn lown(&self, r: Ref) -> Option<usize> {
        if r.0 == 9 || self.s.l.is_empty() { None } else { Some(r.1 as usize % self.s.l.len()) }
    }
    fn lref(&self, r: Ref) -> Option<&L> {
        match r.0 {
            0 | 2 if !self.s.l.is_empty() => Some(&self.s.l[r.1 as usize % self.s.l.len()]),
            1 | 3 if !self.sh.l.is_empty() => Some(&self.sh.l[r.1 as usize % self.sh.l.len()]),
            _ => None,
        }
    }
    fn iref(&self, r: Ref) -> Option<&I> {
        match r.0 {
            0 | 2 if !self.s.i.is_empty() => Some(&self.s.i[r.1 as usize % self.s.i.len()]),
            1 | 3 if !self.sh.i.is_empty() => Some(&self.sh.i[r.1 as usize % self.sh.i.len()]),
            _ => None,
        }
    }

    /// Ask the library: (answer or panic, allocations)
    fn ask(&self, op: &COp, m: &M, q: Q) -> (Option<A>, u32) {
        begin_ref(op.uid | REF, REF_BUDGET);
        let r = catch_unwind(AssertUnwindSafe(|| sut(|| cref::ask(m, &q))));
        let st = end_op();
        match r {
            Ok(a) => {
                // keep a copy outside the simulated heap
                let c = match &a {
                    A::F(x) => A::F(*x),
                    A::I(x) => A::I(*x),
                    A::Box(b) => A::Box(*b),
                    A::P(m) => A::P(m.clone()),
                    A::L(v) => A::L(v.clone()),
                    A::LL(v, w) => A::LL(v.clone(), w.clone()),
                    A::Ix(i) => A::Ix(i.clone()),
                };
                drop(a);
                (Some(c), st.allocs)
            }
            Err(e) => {
                drop(e);
                (None, st.allocs)
            }
        }
    }

    /// The call itself; returns its code and whether an allocation failed inside.
    fn call(&mut self, op: &COp, allocs: u32, f: impl FnOnce() -> i32) -> (i32, bool) {
        let (at, sticky) = match op.oom {
            Some((f, s)) => (1 + ((f.0 * (allocs + 2) as f64) as u32).min(allocs + 1), s),
            None => (0, false),
        };
        begin_op(op.uid, at, sticky, BUDGET);
        let rc = sut(f);
        let st = end_op();
        self.out.steps += st.steps;
        self.count("calls");
        *self.out.ops.entry(op.c.name()).or_default() += 1;
        if st.edges > 200 && rc == 0 {
            self.out.worked += 1;
        }
        if st.fired {
            *self.out.faults.entry(if sticky { "persistent allocation failure" } else { "allocation failure" }.into()).or_default() += 1;
        }
        if rc > 0 {
            *self.out.faults.entry("invalid argument answered with its documented code".into()).or_default() += 1;
        }
        if rc == -1 && !st.fired {
            *self.out.faults.entry("library panic contained".into()).or_default() += 1;
        }
        let w = mix(op.uid as u64, mix(rc as u64, st.steps));
        self.word(w);
        (rc, st.fired)
    }

    /// Judge the code; true: the call succeeded and did its work.
    fn code(&mut self, op: &COp, got: (i32, bool), exp: i32) -> bool {
        let (rc, fired) = got;
        if rc == exp {
            return rc == 0;
        }
        if fired && rc == -1 {
            return false;
        }
        self.bad("code", op, format!("returned {rc} instead of {exp}{}", if fired { " (with a failed allocation inside)" } else { "" }));
        false
    }

    /// An out pointer after a call: only a successful call may have set it, to something new.
    fn new_out(&mut self, op: &COp, ok: bool, rc: i32, p: usize) -> bool {
        if rc != 0 {
            if p != DEAD && p != 0 {
                self.bad("handed-out", op, format!("returned {rc} and handed out an object"));
            }
            return false;
        }
        if !ok {
            return false;
        }
        if p == DEAD || p == 0 {
            self.bad("result", op, "returned 0 and handed out nothing".into());
            return false;
        }
        let known = |s: &Slots| {
            s.p.iter().any(|x| x.ptr as usize == p)
                || s.l.iter().any(|x| x.ptr as usize == p || x.e.iter().any(|y| y.ptr as usize == p))
                || s.i.iter().any(|x| x.ptr as usize == p)
        };
        if known(&self.s) || known(self.sh) {
            self.bad("result", op, "handed out an object that somebody already owns".into());
            return false;
        }
        true
    }

    /// Compare everything this client can see with its value.
    fn verify(&mut self, op: &COp, rc: i32, target: Option<usize>, alt: Option<M>) {
        let mut bads: Vec<(&str, String)> = vec![];
        for k in 0..self.s.p.len() {
            let is_t = target == Some(k);
            let class = match (is_t, rc) {
                (true, 0) => "target",
                (true, _) => "target-after-failure",
                (false, 0) => "object-changed",
                (false, _) => "object-after-failure",
            };
            match observe(self.s.p[k].ptr) {
                Ok(m) => {
                    if !same_m(&self.s.p[k].m, &m) {
                        let prefix = is_t
                            && rc == -1
                            && alt.as_ref().is_some_and(|a| m.closed == a.closed && m.v.len() <= a.v.len() && m.v.iter().zip(&a.v).all(|(x, y)| same_v(x, y)));
                        if !prefix {
                            let d = diff_m(&self.s.p[k].m, &m);
                            bads.push((class, format!("code {rc}, {} own polyline {k}: {d}", if is_t { "target" } else { "other" })));
                        }
                        self.s.p[k].m = m;
                    }
                }
                Err(e) => bads.push((class, format!("own polyline {k}: {e}"))),
            }
        }
        let class = if rc == 0 { "object-changed" } else { "object-after-failure" };
        for (s, who) in [(&self.s, "own"), (self.sh, "shared")] {
            if who == "shared" {
                for (k, p) in s.p.iter().enumerate() {
                    match observe(p.ptr) {
                        Ok(m) if same_m(&p.m, &m) => {}
                        Ok(m) => bads.push((class, format!("code {rc}, shared polyline {k}: {}", diff_m(&p.m, &m)))),
                        Err(e) => bads.push((class, format!("shared polyline {k}: {e}"))),
                    }
                }
            }
            for (k, l) in s.l.iter().enumerate() {
                let mut n = u32::MAX;
                let r = unsafe { cavc_plinelist_get_count(l.ptr, &mut n) };
                if r != 0 || n as usize != l.e.len() {
                    bads.push((class, format!("code {rc}, {who} list {k} reports code {r} and {n} polylines instead of {}", l.e.len())));
                    continue;
                }
                for (j, e) in l.e.iter().enumerate() {
                    let mut p: PP = DEAD as PP;
                    let r = unsafe { cavc_plinelist_get_pline(l.ptr, j as u32, &mut p) };
                    if r != 0 || p != e.ptr {
                        bads.push((class, format!("code {rc}, {who} list {k}: polyline {j} is not the one it was (code {r})")));
                        continue;
                    }
                    match observe(e.ptr) {
                        Ok(m) if same_m(&e.m, &m) => {}
                        Ok(m) => bads.push((class, format!("code {rc}, {who} list {k} polyline {j}: {}", diff_m(&e.m, &m)))),
                        Err(x) => bads.push((class, format!("{who} list {k} polyline {j}: {x}"))),
                    }
                }
            }
            for (k, i) in s.i.iter().enumerate() {
                let mut b = [0.0f64; 4];
                let [a0, a1, a2, a3] = &mut b;
                let r = unsafe { cavc_aabbindex_get_extents(i.ptr, a0, a1, a2, a3) };
                if r != 0 || !(0..4).all(|q| same(b[q], i.b[q])) {
                    bads.push((class, format!("code {rc}, {who} index {k}: extents {b:?} (code {r}) instead of {:?}", i.b)));
                }
            }
        }
        for (c, d) in bads {
            self.bad(c, op, d);
        }
    }

    fn verts(m: &M) -> Vec<cavc_vertex> {
        m.v.iter().map(|v| cavc_vertex::new(v[0], v[1], v[2])).collect()
    }

    fn input(&self, i: u32) -> M {
        let n = self.plan.inputs.len();
        if n == 0 {
            return M::default();
        }
        let i = &self.plan.inputs[i as usize % n];
        M { v: i.v.iter().map(|v| [v[0].0, v[1].0, v[2].0]).collect(), closed: i.closed }
    }

    fn create(&mut self, op: &COp, m: M, flag: u8, null: bool) {
        let v = Self::verts(&m);
        let before = v.clone();
        let mut p: PP = DEAD as PP;
        let data = if null { std::ptr::null() } else { v.as_ptr() };
        let n = if null { 0 } else { v.len() as u32 };
        let m = if null { M { v: vec![], closed: m.closed } } else { m };
        let g = self.call(op, 2, || unsafe { cavc_pline_create(data, n, flag, &mut p) });
        let ok = self.code(op, g, 0);
        if self.new_out(op, ok, g.0, p as usize) {
            let m = M { closed: flag != 0, ..m };
            self.s.p.push(P { ptr: p, m });
            let k = self.s.p.len() - 1;
            self.arg_same(op, &before, &v);
            self.verify(op, g.0, Some(k), None);
            return;
        }
        self.arg_same(op, &before, &v);
        self.verify(op, g.0, None, None);
    }

    fn arg_same(&mut self, op: &COp, a: &[cavc_vertex], b: &[cavc_vertex]) {
        let s = |v: &cavc_vertex| [v.x, v.y, v.bulge];
        if a.len() != b.len() || !a.iter().zip(b).all(|(x, y)| same_v(&s(x), &s(y))) {
            self.bad("argument-changed", op, "the vertexes passed in were changed".into());
        }
    }

    fn lists(&mut self, op: &COp, want: Vec<Box<M>>, p: *const cavc_plinelist) {
        let mut n = u32::MAX;
        let rc = unsafe { cavc_plinelist_get_count(p, &mut n) };
        if rc != 0 || n as usize != want.len() {
            self.bad("result", op, format!("list of {n} polylines (code {rc}) instead of {}", want.len()));
        }
        let mut e = vec![];
        for j in 0..n.min(100_000) {
            let mut q: PP = DEAD as PP;
            let rc = unsafe { cavc_plinelist_get_pline(p, j, &mut q) };
            if rc != 0 || q as usize == DEAD || q.is_null() {
                self.bad("result", op, format!("polyline {j} of the result cannot be read (code {rc})"));
                continue;
            }
            match observe(q) {
                Ok(m) => {
                    if let Some(w) = want.get(j as usize) {
                        if !same_m(w, &m) {
                            let d = diff_m(w, &m);
                            self.bad("result", op, format!("result polyline {j}: {d}; the library itself gives {}", show(w)));
                        }
                    }
                    let mut w = m.v.len() as u64;
                    for v in &m.v {
                        for x in v {
                            w = mix(w, if x.is_nan() { 1 } else { x.to_bits() });
                        }
                    }
                    self.word(w);
                    e.push(P { ptr: q, m });
                }
                Err(x) => self.bad("result", op, format!("result polyline {j}: {x}")),
            }
        }
        self.s.l.push(L { ptr: p, e });
    }

    fn read_f64(&mut self, op: &COp, r: Ref, q: Q, f: unsafe extern "C" fn(PP, *mut f64) -> i32) {
        let (p, m) = self.pref(r);
        let m = m.cloned();
        let (a, n) = match &m {
            Some(m) => self.ask(op, m, q),
            None => (Some(A::F(0.0)), 0),
        };
        let mut x = [f64::from_bits(0x7ff4_0000_dead_0001); 3];
        let out = &mut x[1] as *mut f64;
        let g = self.call(op, n, || unsafe { f(p, out) });
        let exp = if m.is_none() { 1 } else if a.is_none() { -1 } else { 0 };
        if self.code(op, g, exp) {
            if let Some(A::F(w)) = a {
                if !same(w, x[1]) {
                    self.bad("result", op, format!("{} instead of {w}, which the library itself gives", x[1]));
                }
            }
            self.word(if x[1].is_nan() { 1 } else { x[1].to_bits() });
        }
        if x[0].to_bits() != 0x7ff4_0000_dead_0001 || x[2].to_bits() != 0x7ff4_0000_dead_0001 {
            self.bad("buffer", op, "wrote beside the out parameter".into());
        }
        self.verify(op, g.0, None, None);
    }

    fn edit(&mut self, op: &COp, r: Ref, q: Q, f: impl FnOnce(*mut cavc_pline) -> i32) {
        let t = self.pown(r);
        let Some(k) = t else {
            let g = self.call(op, 0, || f(std::ptr::null_mut()));
            self.code(op, g, 1);
            self.verify(op, g.0, None, None);
            return;
        };
        let m = self.s.p[k].m.clone();
        let (a, n) = self.ask(op, &m, q);
        let p = self.s.p[k].ptr as *mut cavc_pline;
        let g = self.call(op, n, || f(p));
        let exp = if a.is_none() { -1 } else { 0 };
        let mut alt = None;
        if self.code(op, g, exp) {
            if let Some(A::P(w)) = a {
                self.s.p[k].m = w;
            }
        } else if g.0 == -1 && !g.1 {
            // the library itself panics half way through this edit
            alt = Some(m);
        }
        let _ = &alt;
        self.verify(op, g.0, Some(k), None);
    }

    /// An edit whose effect is plain: `w` is the value afterwards.
    fn plain(&mut self, op: &COp, k: Option<usize>, exp: i32, w: impl FnOnce(&mut M), alt: Option<M>, f: impl FnOnce(*mut cavc_pline) -> i32) {
        let p = k.map(|k| self.s.p[k].ptr as *mut cavc_pline).unwrap_or(std::ptr::null_mut());
        let g = self.call(op, 1, || f(p));
        let exp = if k.is_none() { 1 } else { exp };
        if self.code(op, g, exp) {
            if let Some(k) = k {
                w(&mut self.s.p[k].m);
            }
        }
        self.verify(op, g.0, k, alt);
    }

    fn pos(&self, p: Pos, n: usize) -> u32 {
        match p.0 {
            0 if n > 0 => p.1 % n as u32,
            1 => n as u32 + p.1 % 3,
            2 => u32::MAX - p.1 % 3,
            3 if n > 0 => n as u32 - 1,
            4 => (n as u32).wrapping_add(1 << (8 + p.1 % 24)),
            _ => p.1 % 3,
        }
    }

    fn exec(&mut self, op: &COp) {
        if self.skip.contains(&op.uid) {
            return;
        }
        let cap = 10;
        let full = self.s.p.len() >= cap;
        match op.c.clone() {
            Call::OffInit(null) => {
                let mut o = cavc_pline_parallel_offset_o::garbage();
                let p = if null { std::ptr::null_mut() } else { &mut o as *mut _ };
                let g = self.call(op, 0, || unsafe { cavc_pline_parallel_offset_o_init(p) });
                if self.code(op, g, if null { 1 } else { 0 }) {
                    let (e, s, _) = cref::defaults();
                    if !o.aabb_index.is_null()
                        || o.pos_equal_eps != e[0]
                        || o.slice_join_eps != e[1]
                        || o.offset_dist_eps != e[2]
                        || (o.handle_self_intersects != 0) != s
                    {
                        self.bad("result", op, "default options differ from those of the library".into());
                    }
                }
            }
            Call::BoolInit(null) => {
                let mut o = cavc_pline_boolean_o::garbage();
                let p = if null { std::ptr::null_mut() } else { &mut o as *mut _ };
                let g = self.call(op, 0, || unsafe { cavc_pline_boolean_o_init(p) });
                if self.code(op, g, if null { 1 } else { 0 }) {
                    let (_, _, e) = cref::defaults();
                    if !o.pline1_aabb_index.is_null() || o.pos_equal_eps != e {
                        self.bad("result", op, "default options differ from those of the library".into());
                    }
                }
            }
            Call::Create(i, flag) => {
                if full {
                    return;
                }
                let m = self.input(i);
                let null = m.v.is_empty() && i % 2 == 0;
                self.create(op, m, flag, null);
            }
            Call::CreateBig(n, seed, flag) => {
                if full || self.s.p.iter().any(|p| p.m.v.len() > HEAVY) {
                    return;
                }
                let m = M {
                    v: (0..n)
                        .map(|i| {
                            let h = mix(seed, i as u64);
                            [i as f64 * 0.25, (h % 64) as f64 * 0.125, 0.0]
                        })
                        .collect(),
                    closed: false,
                };
                self.create(op, m, flag, false);
            }
            Call::Free(r) => {
                let k = self.pown(r);
                let p = match k {
                    Some(k) => self.s.p.remove(k).ptr as *mut cavc_pline,
                    None => std::ptr::null_mut(),
                };
                self.call(op, 0, || unsafe {
                    cavc_pline_f(p);
                    0
                });
                self.verify(op, 0, None, None);
            }
            Call::FreeList(r) => {
                let k = self.lown(r);
                let p = match k {
                    Some(k) => self.s.l.remove(k).ptr as *mut cavc_plinelist,
                    None => std::ptr::null_mut(),
                };
                self.call(op, 0, || unsafe {
                    cavc_plinelist_f(p);
                    0
                });
                self.verify(op, 0, None, None);
            }
            Call::FreeIndex(r) => {
                let k = if r.0 == 9 || self.s.i.is_empty() { None } else { Some(r.1 as usize % self.s.i.len()) };
                let p = match k {
                    Some(k) => self.s.i.remove(k).ptr as *mut cavc_aabbindex,
                    None => std::ptr::null_mut(),
                };
                self.call(op, 0, || unsafe {
                    cavc_aabbindex_f(p);
                    0
                });
                self.verify(op, 0, None, None);
            }
            Call::Reserve(r, n) => {
                let k = self.pown(r);
                self.plain(op, k, 0, |_| {}, None, |p| unsafe { cavc_pline_reserve(p, n) });
            }
            Call::Clone(r) => {
                if full {
                    return;
                }
                let (p, m) = self.pref(r);
                let m = m.cloned();
                let mut q: PP = DEAD as PP;
                let g = self.call(op, 2, || unsafe { cavc_pline_clone(p, &mut q) });
                let ok = self.code(op, g, if m.is_none() { 1 } else { 0 });
                let mut t = None;
                if self.new_out(op, ok, g.0, q as usize) {
                    self.s.p.push(P { ptr: q, m: m.unwrap_or_default() });
                    t = Some(self.s.p.len() - 1);
                }
                self.verify(op, g.0, t, None);
            }
            Call::GetClosed(r) => {
                let (p, m) = self.pref(r);
                let m = m.map(|m| m.closed);
                let mut c = [0x55u8; 3];
                let out = &mut c[1] as *mut u8;
                let g = self.call(op, 0, || unsafe { cavc_pline_get_is_closed(p, out) });
                if self.code(op, g, if m.is_none() { 1 } else { 0 }) && (c[1] != 0) != m.unwrap() {
                    self.bad("result", op, format!("reports closed flag {} instead of {}", c[1], m.unwrap()));
                }
                if c[0] != 0x55 || c[2] != 0x55 {
                    self.bad("buffer", op, "wrote beside the out parameter".into());
                }
                self.verify(op, g.0, None, None);
            }
            Call::SetClosed(r, x) => {
                let k = self.pown(r);
                self.plain(op, k, 0, |m| m.closed = x != 0, None, |p| unsafe { cavc_pline_set_is_closed(p, x) });
            }
            Call::Count(r) => {
                let (p, m) = self.pref(r);
                let n = m.map(|m| m.v.len());
                let mut c = [0x5555_5555u32; 3];
                let out = &mut c[1] as *mut u32;
                let g = self.call(op, 0, || unsafe { cavc_pline_get_vertex_count(p, out) });
                if self.code(op, g, if n.is_none() { 1 } else { 0 }) && c[1] as usize != n.unwrap() {
                    self.bad("result", op, format!("reports {} vertexes instead of {}", c[1], n.unwrap()));
                }
                if c[0] != 0x5555_5555 || c[2] != 0x5555_5555 {
                    self.bad("buffer", op, "wrote beside the out parameter".into());
                }
                self.verify(op, g.0, None, None);
            }
            Call::GetData(r) => {
                let (p, m) = self.pref(r);
                let m = m.cloned();
                let n = m.as_ref().map(|m| m.v.len()).unwrap_or(0);
                let tag = f64::from_bits(0x4037_1234_5678_9ABC);
                let mut buf = vec![cavc_vertex::new(tag, tag, tag); n + 4];
                let out = unsafe { buf.as_mut_ptr().add(2) };
                let g = self.call(op, 0, || unsafe { cavc_pline_get_vertex_data(p, out) });
                if self.code(op, g, if m.is_none() { 1 } else { 0 }) {
                    let got = M { v: buf[2..2 + n].iter().map(|v| [v.x, v.y, v.bulge]).collect(), closed: m.as_ref().unwrap().closed };
                    if !same_m(m.as_ref().unwrap(), &got) {
                        let d = diff_m(m.as_ref().unwrap(), &got);
                        self.bad("result", op, format!("vertexes read: {d}"));
                    }
                }
                let t = |v: &cavc_vertex| v.x == tag && v.y == tag && v.bulge == tag;
                if !(t(&buf[0]) && t(&buf[1]) && t(&buf[n + 2]) && t(&buf[n + 3])) {
                    self.bad("buffer", op, "wrote beyond the buffer of vertexes".into());
                }
                self.verify(op, g.0, None, None);
            }
            Call::SetData(r, i) => {
                let m = self.input(i);
                let v = Self::verts(&m);
                let before = v.clone();
                let k = self.pown(r);
                let alt = k.map(|k| M { v: m.v.clone(), closed: self.s.p[k].m.closed });
                let (d, n) = (v.as_ptr(), v.len() as u32);
                self.plain(op, k, 0, |w| w.v = m.v, alt, |p| unsafe { cavc_pline_set_vertex_data(p, d, n) });
                self.arg_same(op, &before, &v);
            }
            Call::Clear(r) => {
                let k = self.pown(r);
                self.plain(op, k, 0, |m| m.v.clear(), None, |p| unsafe { cavc_pline_clear(p) });
            }
            Call::Add(r, x, y, b) => {
                let k = self.pown(r);
                self.plain(op, k, 0, |m| m.v.push([x.0, y.0, b.0]), None, |p| unsafe { cavc_pline_add(p, x.0, y.0, b.0) });
            }
            Call::AddMany(r, n) => {
                // growth through many reallocations, judged at the end
                let Some(k) = self.pown(r) else { return };
                let p = self.s.p[k].ptr as *mut cavc_pline;
                let mut done = 0;
                let g = self.call(op, 3, || {
                    for i in 0..n {
                        let rc = unsafe { cavc_pline_add(p, i as f64, 0.5 * i as f64, 0.0) };
                        if rc != 0 {
                            return rc;
                        }
                        done += 1;
                    }
                    0
                });
                for i in 0..done {
                    self.s.p[k].m.v.push([i as f64, 0.5 * i as f64, 0.0]);
                }
                self.code(op, g, 0);
                self.verify(op, g.0, Some(k), None);
            }
            Call::Get(r, pos) => {
                let (p, m) = self.pref(r);
                let m = m.cloned();
                let n = m.as_ref().map(|m| m.v.len()).unwrap_or(0);
                let i = self.pos(pos, n);
                let tag = f64::from_bits(0x4037_1234_5678_9ABC);
                let mut buf = [cavc_vertex::new(tag, tag, tag); 3];
                let out = &mut buf[1] as *mut cavc_vertex;
                let g = self.call(op, 0, || unsafe { cavc_pline_get_vertex(p, i, out) });
                let exp = if m.is_none() { 1 } else if i as usize >= n { 2 } else { 0 };
                if self.code(op, g, exp) {
                    let w = m.unwrap().v[i as usize];
                    let got = [buf[1].x, buf[1].y, buf[1].bulge];
                    if !same_v(&w, &got) {
                        self.bad("result", op, format!("vertex {i} reads {got:?} instead of {w:?}"));
                    }
                }
                let t = |v: &cavc_vertex| v.x == tag && v.y == tag && v.bulge == tag;
                if !(t(&buf[0]) && t(&buf[2])) {
                    self.bad("buffer", op, "wrote beside the out parameter".into());
                }
                self.verify(op, g.0, None, None);
            }
            Call::Set(r, pos, x, y, b) => {
                let k = self.pown(r);
                let n = k.map(|k| self.s.p[k].m.v.len()).unwrap_or(0);
                let i = self.pos(pos, n);
                let exp = if i as usize >= n { 2 } else { 0 };
                self.plain(op, k, exp, |m| m.v[i as usize] = [x.0, y.0, b.0], None, |p| unsafe { cavc_pline_set_vertex(p, i, cavc_vertex::new(x.0, y.0, b.0)) });
            }
            Call::Part(r, pos, which, z) => {
                let k = self.pown(r);
                let n = k.map(|k| self.s.p[k].m.v.len()).unwrap_or(0);
                let i = self.pos(pos, n);
                if i as usize >= n {
                    return;
                }
                let mut v = self.s.p[k.unwrap()].m.v[i as usize];
                match which % 4 {
                    0 => v[2] = z.0,
                    1 => v[0] = z.0,
                    2 => v[1] = z.0,
                    _ => {}
                }
                self.plain(op, k, 0, |m| m.v[i as usize] = v, None, |p| unsafe { cavc_pline_set_vertex(p, i, cavc_vertex::new(v[0], v[1], v[2])) });
            }
            Call::Remove(r, pos) => {
                let k = self.pown(r);
                let n = k.map(|k| self.s.p[k].m.v.len()).unwrap_or(0);
                let i = self.pos(pos, n);
                let exp = if i as usize >= n { 2 } else { 0 };
                self.plain(
                    op,
                    k,
                    exp,
                    |m| {
                        m.v.remove(i as usize);
                    },
                    None,
                    |p| unsafe { cavc_pline_remove(p, i) },
                );
            }
            Call::Length(r) => self.read_f64(op, r, Q::Length, cavc_pline_eval_path_length),
            Call::Area(r) => self.read_f64(op, r, Q::Area, cavc_pline_eval_area),
            Call::Wn(r, x, y) => {
                let (p, m) = self.pref(r);
                let m = m.cloned();
                let (a, n) = match &m {
                    Some(m) => self.ask(op, m, Q::Wn(x.0, y.0)),
                    None => (Some(A::I(0)), 0),
                };
                let mut w = [0x5555_5555i32; 3];
                let out = &mut w[1] as *mut i32;
                let g = self.call(op, n, || unsafe { cavc_pline_eval_wn(p, x.0, y.0, out) });
                let exp = if m.is_none() { 1 } else if a.is_none() { -1 } else { 0 };
                if self.code(op, g, exp) {
                    if let Some(A::I(v)) = a {
                        if v != w[1] as i64 {
                            self.bad("result", op, format!("winding number {} instead of {v}, which the library itself gives", w[1]));
                        }
                    }
                }
                if w[0] != 0x5555_5555 || w[2] != 0x5555_5555 {
                    self.bad("buffer", op, "wrote beside the out parameter".into());
                }
                self.verify(op, g.0, None, None);
            }
            Call::Extents(r) => {
                let (p, m) = self.pref(r);
                let m = m.cloned();
                let (a, n) = match &m {
                    Some(m) => self.ask(op, m, Q::Extents),
                    None => (None, 0),
                };
                let mut b = [0.125f64; 6];
                let [_, a0, a1, a2, a3, _] = &mut b;
                let (a0, a1, a2, a3) = (a0 as *mut f64, a1 as *mut f64, a2 as *mut f64, a3 as *mut f64);
                let g = self.call(op, n, || unsafe { cavc_pline_eval_extents(p, a0, a1, a2, a3) });
                let exp = match (&m, &a) {
                    (None, _) => 1,
                    (_, None) => -1,
                    (_, Some(A::Box(None))) => 2,
                    _ => 0,
                };
                if let (Some(m), Some(A::Box(x))) = (&m, &a) {
                    if (m.v.len() < 2) != x.is_none() {
                        self.count("extents of the library absent for two vertexes or more");
                    }
                }
                if self.code(op, g, exp) {
                    if let Some(A::Box(Some(w))) = a {
                        if !(0..4).all(|q| same(w[q], b[q + 1])) {
                            self.bad("result", op, format!("extents {:?} instead of {w:?}, which the library itself gives", &b[1..5]));
                        }
                    }
                }
                if b[0] != 0.125 || b[5] != 0.125 {
                    self.bad("buffer", op, "wrote beside the out parameters".into());
                }
                self.verify(op, g.0, None, None);
            }
            Call::Invert(r) => self.edit(op, r, Q::Invert, |p| unsafe { cavc_pline_invert_direction(p) }),
            Call::Scale(r, f) => self.edit(op, r, Q::Scale(f.0), |p| unsafe { cavc_pline_scale(p, f.0) }),
            Call::Translate(r, x, y) => self.edit(op, r, Q::Translate(x.0, y.0), |p| unsafe { cavc_pline_translate(p, x.0, y.0) }),
            Call::RemRepeat(r, e) => self.edit(op, r, Q::RemRepeat(e.0), |p| unsafe { cavc_pline_remove_repeat_pos(p, e.0) }),
            Call::RemRedundant(r, e) => self.edit(op, r, Q::RemRedundant(e.0), |p| unsafe { cavc_pline_remove_redundant(p, e.0) }),
            Call::Offset(r, d, opt) => {
                let (p, m) = self.pref(r);
                let m = m.cloned();
                if m.as_ref().is_some_and(|m| m.v.len() > HEAVY) || self.s.l.len() > 6 {
                    return;
                }
                let mut o: cavc_pline_parallel_offset_o = Default::default();
                let mut ix: Option<&Index2> = None;
                if let Some(w) = &opt {
                    if let Some(i) = w.ix.and_then(|i| self.iref(i)) {
                        o.aabb_index = i.ptr;
                        ix = Some(&i.ix);
                    }
                    if !w.init {
                        o.pos_equal_eps = w.eps[0].0;
                        o.slice_join_eps = w.eps[1].0;
                        o.offset_dist_eps = w.eps[2].0;
                        o.handle_self_intersects = w.selfi;
                    }
                }
                let oo = OffOpt { ix, eps: [o.pos_equal_eps, o.slice_join_eps, o.offset_dist_eps], selfi: o.handle_self_intersects != 0 };
                let (a, n) = match &m {
                    Some(m) => self.ask(op, m, Q::Offset(d.0, opt.as_ref().map(|_| oo))),
                    None => (None, 0),
                };
                let po = if opt.is_some() { &o as *const _ } else { std::ptr::null() };
                let mut out: *const cavc_plinelist = DEAD as _;
                let before = unsafe { std::ptr::read(&raw const o) };
                let g = self.call(op, n, || unsafe { cavc_pline_parallel_offset(p, d.0, po, &mut out) });
                let now = unsafe { std::ptr::read_volatile(&raw const o) };
                if now.aabb_index != before.aabb_index
                    || now.pos_equal_eps.to_bits() != before.pos_equal_eps.to_bits()
                    || now.slice_join_eps.to_bits() != before.slice_join_eps.to_bits()
                    || now.offset_dist_eps.to_bits() != before.offset_dist_eps.to_bits()
                    || now.handle_self_intersects != before.handle_self_intersects
                {
                    self.bad(if g.0 == 0 { "argument-changed" } else { "argument-after-failure" }, op, "the call changed its options".into());
                }
                let exp = if m.is_none() { 1 } else if a.is_none() { -1 } else { 0 };
                let ok = self.code(op, g, exp);
                if self.new_out(op, ok, g.0, out as usize) {
                    if let Some(A::L(w)) = a {
                        self.lists(op, w, out);
                    }
                }
                self.verify(op, g.0, None, None);
            }
            Call::Bool(r1, r2, code, opt) => {
                let (p1, m1) = self.pref(r1);
                let (p2, m2) = self.pref(r2);
                let (m1, m2) = (m1.cloned(), m2.cloned());
                let heavy = |m: &Option<M>| m.as_ref().is_some_and(|m| m.v.len() > HEAVY);
                if heavy(&m1) || heavy(&m2) || self.s.l.len() > 6 {
                    return;
                }
                let mut o: cavc_pline_boolean_o = Default::default();
                let mut ix: Option<&Index2> = None;
                if let Some(w) = &opt {
                    if let Some(i) = w.ix.and_then(|i| self.iref(i)) {
                        o.pline1_aabb_index = i.ptr;
                        ix = Some(&i.ix);
                    }
                    if !w.init {
                        o.pos_equal_eps = w.eps.0;
                    }
                }
                let (a, n) = match (&m1, &m2) {
                    (Some(m1), Some(m2)) if code < 4 => self.ask(op, m1, Q::Bool(m2, code, opt.as_ref().map(|_| (ix, o.pos_equal_eps)))),
                    _ => (None, 0),
                };
                let po = if opt.is_some() { &o as *const _ } else { std::ptr::null() };
                let mut op1: *const cavc_plinelist = DEAD as _;
                let mut op2: *const cavc_plinelist = DEAD as _;
                let before = unsafe { std::ptr::read(&raw const o) };
                let g = self.call(op, n, || unsafe { cavc_pline_boolean(p1, p2, code, po, &mut op1, &mut op2) });
                let now = unsafe { std::ptr::read_volatile(&raw const o) };
                if now.pline1_aabb_index != before.pline1_aabb_index || now.pos_equal_eps.to_bits() != before.pos_equal_eps.to_bits() {
                    self.bad(if g.0 == 0 { "argument-changed" } else { "argument-after-failure" }, op, "the call changed its options".into());
                }
                let exp = if m1.is_none() || m2.is_none() {
                    1
                } else if code > 3 {
                    2
                } else if a.is_none() {
                    -1
                } else {
                    0
                };
                let ok = self.code(op, g, exp);
                let (n1, n2) = (self.new_out(op, ok, g.0, op1 as usize), self.new_out(op, ok, g.0, op2 as usize));
                if n1 && n2 {
                    if let Some(A::LL(w1, w2)) = a {
                        self.lists(op, w1, op1);
                        self.lists(op, w2, op2);
                    }
                }
                self.verify(op, g.0, None, None);
            }
            Call::Index(r, approx) => {
                let (p, m) = self.pref(r);
                let m = m.cloned();
                if self.s.i.len() >= 6 || m.as_ref().is_some_and(|m| m.v.len() > HEAVY) {
                    return;
                }
                let (a, n) = match &m {
                    Some(m) => self.ask(op, m, Q::Index(approx)),
                    None => (None, 0),
                };
                let mut q: *const cavc_aabbindex = DEAD as _;
                let g = self.call(op, n, || unsafe {
                    if approx { cavc_pline_create_approx_aabbindex(p, &mut q) } else { cavc_pline_create_aabbindex(p, &mut q) }
                });
                let exp = if m.is_none() { 1 } else if a.is_none() { -1 } else { 0 };
                let ok = self.code(op, g, exp);
                if self.new_out(op, ok, g.0, q as usize) {
                    if let Some(A::Ix(ix)) = a {
                        let b = cref::bounds(&ix);
                        let mut x = [0.0f64; 4];
                        let [a0, a1, a2, a3] = &mut x;
                        let rc = unsafe { cavc_aabbindex_get_extents(q, a0, a1, a2, a3) };
                        if rc != 0 || !(0..4).all(|k| same(x[k], b[k])) {
                            self.bad("result", op, format!("new index has extents {x:?} (code {rc}) instead of {b:?}"));
                        }
                        self.s.i.push(I { ptr: q, ix, b: x });
                    }
                }
                self.verify(op, g.0, None, None);
            }
            Call::IxExtents(r) => {
                let (p, w) = match self.iref(r) {
                    Some(i) => (i.ptr, Some(i.b)),
                    None => (std::ptr::null(), None),
                };
                let mut x = [0.125f64; 6];
                let [_, a0, a1, a2, a3, _] = &mut x;
                let (a0, a1, a2, a3) = (a0 as *mut f64, a1 as *mut f64, a2 as *mut f64, a3 as *mut f64);
                let g = self.call(op, 0, || unsafe { cavc_aabbindex_get_extents(p, a0, a1, a2, a3) });
                if self.code(op, g, if w.is_none() { 1 } else { 0 }) {
                    let w = w.unwrap();
                    if !(0..4).all(|q| same(w[q], x[q + 1])) {
                        self.bad("result", op, format!("extents {:?} instead of {w:?}", &x[1..5]));
                    }
                }
                if x[0] != 0.125 || x[5] != 0.125 {
                    self.bad("buffer", op, "wrote beside the out parameters".into());
                }
                self.verify(op, g.0, None, None);
            }
            Call::LCount(r) => {
                let (p, w) = match self.lref(r) {
                    Some(l) => (l.ptr, Some(l.e.len())),
                    None => (std::ptr::null(), None),
                };
                let mut c = [0x5555_5555u32; 3];
                let out = &mut c[1] as *mut u32;
                let g = self.call(op, 0, || unsafe { cavc_plinelist_get_count(p, out) });
                if self.code(op, g, if w.is_none() { 1 } else { 0 }) && c[1] as usize != w.unwrap() {
                    self.bad("result", op, format!("reports {} polylines instead of {}", c[1], w.unwrap()));
                }
                self.verify(op, g.0, None, None);
            }
            Call::LGet(r, pos) => {
                let (p, w) = match self.lref(r) {
                    Some(l) => (l.ptr, Some(l.e.iter().map(|e| e.ptr).collect::<Vec<_>>())),
                    None => (std::ptr::null(), None),
                };
                let n = w.as_ref().map(|w| w.len()).unwrap_or(0);
                let i = self.pos(pos, n);
                let mut q: PP = DEAD as PP;
                let g = self.call(op, 0, || unsafe { cavc_plinelist_get_pline(p, i, &mut q) });
                let exp = if w.is_none() { 1 } else if i as usize >= n { 2 } else { 0 };
                if self.code(op, g, exp) && q != w.unwrap()[i as usize] {
                    self.bad("result", op, format!("position {i} of the list gives another polyline"));
                }
                if g.0 != 0 && q as usize != DEAD && !q.is_null() {
                    self.bad("handed-out", op, format!("returned {} and handed out a polyline", g.0));
                }
                self.verify(op, g.0, None, None);
            }
            Call::LPop(r) => self.release(op, r, None),
            Call::LTake(r, pos) => self.release(op, r, Some(pos)),
            Call::Send(i) => {
                if self.setup {
                    return;
                }
                let s = &mut self.s;
                let total = s.p.len() + s.l.len() + s.i.len();
                if total == 0 || self.mail.borrow().len() > 8 {
                    return;
                }
                let mut k = i as usize % total;
                let x = if k < s.p.len() {
                    Parcel::P(s.p.remove(k))
                } else {
                    k -= s.p.len();
                    if k < s.l.len() { Parcel::L(s.l.remove(k)) } else { Parcel::I(s.i.remove(k - s.l.len())) }
                };
                self.mail.borrow_mut().push(x);
                self.count("objects handed to another client");
            }
            Call::Recv(i) => {
                let mut m = self.mail.borrow_mut();
                if m.is_empty() || full {
                    return;
                }
                let k = i as usize % m.len();
                let x = m.remove(k);
                drop(m);
                match x {
                    Parcel::P(p) => self.s.p.push(p),
                    Parcel::L(l) => self.s.l.push(l),
                    Parcel::I(i) => self.s.i.push(i),
                }
                self.verify(op, 0, None, None);
            }
        }
    }

    fn release(&mut self, op: &COp, r: Ref, pos: Option<Pos>) {
        if self.s.p.len() >= 14 {
            return;
        }
        let k = self.lown(r);
        let n = k.map(|k| self.s.l[k].e.len()).unwrap_or(0);
        let p = k.map(|k| self.s.l[k].ptr as *mut cavc_plinelist).unwrap_or(std::ptr::null_mut());
        let mut q: PP = DEAD as PP;
        let (g, i, exp) = match pos {
            None => {
                let g = self.call(op, 0, || unsafe { cavc_plinelist_pop(p, &mut q) });
                (g, n.wrapping_sub(1), if k.is_none() { 1 } else if n == 0 { 2 } else { 0 })
            }
            Some(pos) => {
                let i = self.pos(pos, n);
                let g = self.call(op, 0, || unsafe { cavc_plinelist_take(p, i, &mut q) });
                (g, i as usize, if k.is_none() { 1 } else if i as usize >= n { 2 } else { 0 })
            }
        };
        let ok = self.code(op, g, exp);
        if g.0 != 0 && q as usize != DEAD && !q.is_null() {
            self.bad("handed-out", op, format!("returned {} and handed out a polyline", g.0));
        }
        if ok {
            let l = &mut self.s.l[k.unwrap()];
            match l.e.iter().position(|e| e.ptr == q) {
                Some(j) => {
                    let e = l.e.remove(j);
                    self.s.p.push(e);
                    if j != i {
                        self.bad("result", op, format!("released polyline {j} of the list instead of {i}"));
                    }
                }
                None => self.bad("result", op, "released something that was not in the list".into()),
            }
        }
        self.verify(op, g.0, None, None);
    }

    /// Release everything that is left.
    fn finish(&mut self) {
        let op = COp { uid: 0x0FFF_FFFF, client: self.me, c: Call::Free(Ref(9, 0)), oom: None };
        let s = std::mem::take(&mut self.s);
        for (k, x) in s.p.into_iter().enumerate() {
            if k == 0 {
                // read back one more time through the calls
                let _ = observe(x.ptr);
            }
            self.call(&op, 0, || unsafe {
                cavc_pline_f(x.ptr as *mut _);
                0
            });
        }
        for x in s.i {
            self.call(&op, 0, || unsafe {
                cavc_aabbindex_f(x.ptr as *mut _);
                0
            });
        }
        for x in s.l {
            self.call(&op, 0, || unsafe {
                cavc_plinelist_f(x.ptr as *mut _);
                0
            });
        }
    }
}

const REF: u32 = 1 << 30;

fn body(plan: &Plan, skip: &[u32], switches: Option<Vec<Switch>>, rep: u64) -> (Out, u64, Vec<Switch>) {
    let none = SchedKnobs::none();
    let mail: Share<RefCell<Vec<Parcel>>> = Share(RefCell::new(vec![]));
    let empty: Share<Slots> = Share(Slots::default());
    let shared: Share<RefCell<Option<(Slots, Out)>>> = Share(RefCell::new(None));
    {
        let (mail, empty, shared) = (&mail, &empty, &shared);
        run_clients(1, 0, &none, None, &plan.mem, rep * 3, &move |_| {
            let (mail, empty, shared) = (mail, empty, shared);
            let mut c = Cl { me: 0, plan, s: Slots::default(), sh: &empty.0, mail: &mail.0, out: Out::default(), skip: skip.to_vec(), setup: true };
            for op in &plan.shared {
                c.exec(op);
            }
            *shared.0.borrow_mut() = Some((c.s, c.out));
        });
    }
    let (sh, mut out) = shared.0.borrow_mut().take().unwrap();
    let sh = Share(sh);
    let outs: Vec<Share<RefCell<Option<Out>>>> = (0..plan.clients).map(|_| Share(RefCell::new(None))).collect();
    {
        let (mail, sh, outs) = (&mail, &sh, &outs);
        run_clients(plan.clients, plan.first, &plan.sched, switches, &plan.mem, rep * 3 + 1, &move |me| {
            let (mail, sh) = (mail, sh);
            let mut c = Cl { me, plan, s: Slots::default(), sh: &sh.0, mail: &mail.0, out: Out::default(), skip: skip.to_vec(), setup: false };
            for op in plan.ops.iter().filter(|o| o.client % plan.clients == me) {
                c.exec(op);
            }
            c.finish();
            *outs[me].0.borrow_mut() = Some(c.out);
        });
    }
    let (th, sw) = (trace_hash(), recorded());
    let tail: Share<RefCell<Option<(Slots, Vec<Parcel>)>>> = Share(RefCell::new(Some((sh.0, std::mem::take(&mut *mail.0.borrow_mut())))));
    let last: Share<RefCell<Option<Out>>> = Share(RefCell::new(None));
    {
        let (tail, last, empty, mail) = (&tail, &last, &empty, &mail);
        run_clients(1, 0, &none, None, &plan.mem, rep * 3 + 2, &move |_| {
            let (tail, last, empty, mail) = (tail, last, empty, mail);
            let (mut s, m) = tail.0.borrow_mut().take().unwrap();
            for x in m {
                match x {
                    Parcel::P(p) => s.p.push(p),
                    Parcel::L(l) => s.l.push(l),
                    Parcel::I(i) => s.i.push(i),
                }
            }
            let mut c = Cl { me: 0, plan, s, sh: &empty.0, mail: &mail.0, out: Out::default(), skip: vec![], setup: true };
            let op = COp { uid: 0x0FFF_FFFE, client: 0, c: Call::Recv(0), oom: None };
            c.verify(&op, 0, None, None);
            c.finish();
            *last.0.borrow_mut() = Some(c.out);
        });
    }
    let mut all: Vec<Out> = outs.into_iter().map(|o| o.0.into_inner().unwrap_or_default()).collect();
    all.push(last.0.into_inner().unwrap_or_default());
    for o in all {
        out.bad.extend(o.bad);
        for (k, v) in o.counts {
            *out.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.ops {
            *out.ops.entry(k).or_default() += v;
        }
        for (k, v) in o.faults {
            *out.faults.entry(k).or_default() += v;
        }
        out.words = mix(out.words, o.words);
        out.steps += o.steps;
        out.worked += o.worked;
    }
    (out, th, sw)
}

fn run_child(plan: &Plan, skip: &[u32]) -> ChildEnd {
    in_child(120, || {
        arena_map();
        arena_reset(&plan.mem);
        unsafe { HUGE_FAILS = true };
        let (mut out, th, sw) = body(plan, skip, plan.switches.clone(), 0);
        let l1 = live_count();
        if l1 > 0 {
            let mut last = l1;
            for rep in 1..=2 {
                let seq = mem_seq();
                body(plan, skip, Some(sw.clone()), rep);
                let now = live_count();
                if now <= last {
                    out.leak = None;
                    break;
                }
                let b = live_blocks(seq);
                let f = b.first();
                let uid = f.map(|r| r.uid & !REF).unwrap_or(0);
                out.leak = Some((
                    uid,
                    format!(
                        "{} blocks stay allocated after everything was released, e.g. {} bytes allocated by call {} ({})",
                        now - last,
                        f.map(|r| r.size).unwrap_or(0),
                        uid,
                        plan.ops.iter().chain(&plan.shared).find(|o| o.uid == uid).map(|o| o.c.name()).unwrap_or_default()
                    ),
                ));
                last = now;
            }
        }
        sweep();
        out.memv = mem_violation().unwrap_or_default();
        out.trace = th;
        out.switches = sw;
        let t = mem_totals();
        *out.counts.entry("allocations".into()).or_default() += t.0;
        *out.counts.entry("recycled blocks".into()).or_default() += t.2;
        *out.counts.entry("oversized requests refused".into()).or_default() += unsafe { HUGE_FAILED };
        serde_json::to_vec(&out).unwrap()
    })
}

fn fail(class: &str, plan: Plan, detail: String) -> Verdict {
    Verdict::Fail { class: class.to_string(), detail, plan: serde_json::to_value(plan).unwrap() }
}

pub fn execute(plan0: &Plan, st: &mut Stats) -> Verdict {
    let mut plan = plan0.clone();
    let prop = plan.prop.clone();
    let mut skip: Vec<u32> = vec![];
    let out: Out = loop {
        match run_child(&plan, &skip) {
            ChildEnd::Done(b) => match serde_json::from_slice(&b) {
                Ok(o) => break o,
                Err(e) => return Verdict::Harness(format!("report of a run cannot be read: {e}")),
            },
            ChildEnd::StdAbort { uid } => {
                st.count("allocation failures left out because the standard library aborts there", 1);
                let mut hit = false;
                for o in plan.ops.iter_mut().chain(plan.shared.iter_mut()) {
                    if o.uid == uid && o.oom.is_some() {
                        o.oom = None;
                        hit = true;
                    }
                }
                if !hit {
                    return Verdict::Harness("standard library abort without an injected failure".into());
                }
            }
            ChildEnd::Stall(m) => {
                // does the library itself run away on these values?  then the call says nothing
                let u: Option<u32> = m.split("operation ").nth(1).and_then(|s| s.split(' ').next()).and_then(|s| s.parse().ok());
                match u {
                    Some(u) if u & REF != 0 && skip.len() < 50 => {
                        st.count("calls left out because the library itself exceeds the work budget", 1);
                        skip.push(u & !REF);
                    }
                    _ => {
                        if judged_by("stall").contains(&prop.as_str()) {
                            plan.switches.get_or_insert(logged_switches());
                            return fail("stall", plan, format!("the library answers by itself, the call does not return: {m}"));
                        }
                        return Verdict::Pass { digest: 1, nontrivial: false };
                    }
                }
            }
            ChildEnd::Died { signal, client, uid } => {
                if uid & REF != 0 && skip.len() < 50 {
                    st.count("calls left out because the library itself ends the process", 1);
                    skip.push(uid & !REF);
                    continue;
                }
                plan.switches.get_or_insert(logged_switches());
                let n = plan.ops.iter().chain(&plan.shared).find(|o| o.uid == uid).map(|o| o.c.name()).unwrap_or_default();
                return fail("died", plan, format!("process died of signal {signal} during or after call {uid} ({n}) of client {client}"));
            }
            ChildEnd::Timeout => return Verdict::Harness("run timed out".into()),
            ChildEnd::Odd(c) => return Verdict::Harness(format!("run child ended oddly ({c})")),
        }
    };
    if plan.switches.is_none() {
        plan.switches = Some(out.switches.clone());
    }
    for (k, v) in &out.counts {
        st.count(k, *v);
    }
    for (k, v) in &out.ops {
        *st.ops.entry(k.clone()).or_default() += v;
    }
    for (k, v) in &out.faults {
        st.fault_n(k, *v);
    }
    st.fault_n("oversized request refused", out.counts.get("oversized requests refused").copied().unwrap_or(0));
    st.count("simulated steps", out.steps);
    st.count("hand-overs inside calls", out.switches.iter().filter(|s| s.step > 0).count() as u64);
    st.count("hand-overs between calls", out.switches.iter().filter(|s| s.step == 0).count() as u64);
    st.trace(mix(out.trace, out.words));
    let mine = |c: &str| judged_by(c).contains(&prop.as_str());
    if !out.memv.is_empty() && mine("memory") {
        return fail("memory", plan, out.memv.clone());
    }
    if let Some(b) = out.bad.iter().find(|b| mine(&b.class)) {
        return fail(&b.class, plan, b.detail.clone());
    }
    if let Some((_, d)) = &out.leak {
        if mine("leak") {
            return fail("leak", plan, d.clone());
        }
    }
    let faults: u64 = out.faults.values().sum();
    let calls = out.counts.get("calls").copied().unwrap_or(0);
    let nontrivial = match prop.as_str() {
        "C01" => out.counts.get("allocations").copied().unwrap_or(0) > 4 && calls > 4,
        "C02" => faults > 0,
        _ => out.worked > 0 || calls > 8,
    };
    Verdict::Pass { digest: mix(out.trace, mix(out.words, out.steps)), nontrivial }
}

// ------------------------------------------------------------------ generation

fn coordinate(r: &mut Rng) -> F {
    if r.chance(0.06) {
        return F(*r.pick(&[f64::NAN, f64::INFINITY, -0.0, 1e300, 5e-324, f64::MAX]));
    }
    genr::coord(r)
}

fn pref(r: &mut Rng) -> Ref {
    Ref(*r.pick(&[0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 9]), r.u64() as u32 & 0xFF)
}
fn own(r: &mut Rng) -> Ref {
    Ref(if r.chance(0.05) { 9 } else { 0 }, r.u64() as u32 & 0xFF)
}
fn any(r: &mut Rng) -> Ref {
    Ref(*r.pick(&[0, 0, 0, 1, 1, 9]), r.u64() as u32 & 0xFF)
}
fn pos(r: &mut Rng) -> Pos {
    Pos(*r.pick(&[0, 0, 0, 0, 3, 3, 1, 1, 2, 4]), r.u64() as u32 & 0xFFFF)
}
fn flag(r: &mut Rng) -> u8 {
    *r.pick(&[0, 0, 1, 1, 1, 2, 128, 255])
}

fn odd_eps(r: &mut Rng) -> F {
    if r.chance(0.06) { F(*r.pick(&[0.0, -1e-5, -0.3, 1e-12, f64::NAN, f64::INFINITY, 1e-300])) } else { genr::eps(r) }
}

fn oopt(r: &mut Rng) -> Option<OOpt> {
    if r.chance(0.35) {
        return None;
    }
    let eps = if r.chance(0.6) { [F(1e-5), F(1e-4), F(1e-4)] } else { [odd_eps(r), odd_eps(r), odd_eps(r)] };
    Some(OOpt { ix: if r.chance(0.4) { Some(any(r)) } else { None }, eps, selfi: flag(r), init: r.chance(0.3) })
}

fn any_call(r: &mut Rng) -> Call {
    let f = |r: &mut Rng| coordinate(r);
    match r.weighted(&[2, 10, 8, 4, 2, 2, 6, 2, 2, 2, 3, 6, 2, 6, 5, 6, 6, 3, 3, 2, 3, 3, 3, 4, 4, 3, 10, 10, 6, 3, 2, 4, 4, 5, 3, 3, 2]) {
        0 => {
            if r.chance(0.5) {
                Call::OffInit(r.chance(0.3))
            } else {
                Call::BoolInit(r.chance(0.3))
            }
        }
        1 => Call::Create(r.u64() as u32 & 0xFF, flag(r)),
        2 => Call::Free(own(r)),
        3 => Call::FreeList(own(r)),
        4 => Call::FreeIndex(own(r)),
        5 => Call::Reserve(own(r), *r.pick(&[0, 1, 7, 100, 4000, 1 << 24, u32::MAX])),
        6 => Call::Clone(pref(r)),
        7 => Call::GetClosed(pref(r)),
        8 => Call::SetClosed(own(r), flag(r)),
        9 => Call::Count(pref(r)),
        10 => Call::GetData(pref(r)),
        11 => Call::SetData(own(r), r.u64() as u32 & 0xFF),
        12 => Call::Clear(own(r)),
        13 => Call::Add(own(r), f(r), f(r), F(genr::bulge(r))),
        14 => Call::Get(pref(r), pos(r)),
        15 if r.chance(0.5) => {
            let o = own(r);
            part(r, o)
        }
        15 => Call::Set(own(r), pos(r), f(r), f(r), F(genr::bulge(r))),
        16 => Call::Remove(own(r), pos(r)),
        17 => Call::Length(pref(r)),
        18 => Call::Area(pref(r)),
        19 => Call::Wn(pref(r), f(r), f(r)),
        20 => Call::Invert(own(r)),
        21 => Call::Scale(own(r), F(*r.pick(&[0.5, 2.0, -1.0, 1.5, 0.0, 0.5, 2.0, -1.0, 1.5, 0.0, 1.0, 1e-9, -0.0]))),
        22 => Call::Translate(own(r), genr::coord(r), genr::coord(r)),
        23 => Call::RemRepeat(own(r), if r.chance(0.5) { F(0.3) } else { odd_eps(r) }),
        24 => Call::RemRedundant(own(r), odd_eps(r)),
        25 => Call::Extents(pref(r)),
        26 => Call::Offset(pref(r), if r.chance(0.05) { F(*r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, 1e300, -1e-9])) } else { genr::dist(r) }, oopt(r)),
        27 => {
            let o = if r.chance(0.4) { None } else { Some(BOpt { ix: if r.chance(0.4) { Some(any(r)) } else { None }, eps: odd_eps(r), init: r.chance(0.4) }) };
            Call::Bool(pref(r), pref(r), *r.pick(&[0, 0, 1, 1, 2, 2, 3, 3, 4, 7, 255, 256, u32::MAX]), o)
        }
        28 => Call::Index(pref(r), r.chance(0.5)),
        29 => Call::IxExtents(any(r)),
        30 => Call::LCount(any(r)),
        31 => Call::LGet(any(r), pos(r)),
        32 => Call::LPop(own(r)),
        33 => Call::LTake(own(r), pos(r)),
        34 => Call::Send(r.u64() as u32 & 0xFF),
        35 => Call::Recv(r.u64() as u32 & 0xFF),
        _ => Call::AddMany(own(r), r.range(5, 300) as u32),
    }
}

fn part(r: &mut Rng, o: Ref) -> Call {
    let w = *r.pick(&[0, 0, 1, 2, 3]);
    Call::Part(o, Pos(*r.pick(&[0, 0, 3]), r.u64() as u32 & 0xFFFF), w, if w == 0 { F(genr::bulge(r)) } else { coordinate(r) })
}

/// Something that answers without changing the polyline `o`.
fn reading(r: &mut Rng, o: Ref) -> Call {
    match r.weighted(&[3, 2, 2, 2, 2, 2, 1, 1, 1, 1]) {
        0 => Call::Extents(o),
        1 => Call::Length(o),
        2 => Call::Area(o),
        3 => Call::Wn(o, genr::coord(r), genr::coord(r)),
        4 => Call::Offset(o, genr::dist(r), oopt(r)),
        5 => Call::Bool(o, if r.chance(0.5) { o } else { pref(r) }, r.below(4) as u32, None),
        6 => Call::Index(o, r.chance(0.5)),
        7 => Call::Count(o),
        8 => Call::Get(o, pos(r)),
        _ => Call::GetData(o),
    }
}

/// Something that changes the polyline `o`, usually a little.
fn editing(r: &mut Rng, o: Ref) -> Call {
    match r.weighted(&[8, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1]) {
        0 => part(r, o),
        1 => Call::SetClosed(o, flag(r)),
        2 => Call::Invert(o),
        3 => Call::Scale(o, F(*r.pick(&[0.5, 2.0, -1.0, 1.5, 1.0]))),
        4 => Call::Translate(o, genr::coord(r), genr::coord(r)),
        5 => Call::SetData(o, r.u64() as u32 & 0xFF),
        6 => Call::Add(o, coordinate(r), coordinate(r), F(genr::bulge(r))),
        7 => Call::Remove(o, pos(r)),
        8 => Call::Reserve(o, *r.pick(&[1, 50, 4000])),
        9 => Call::RemRepeat(o, F(0.3)),
        _ => Call::Clear(o),
    }
}

pub fn generate(prop: &str, seed: u64, run: u64, thorough: bool) -> Plan {
    let mut rr = Rng::new(mix(mix(seed, run), crate::rng::fnv(prop.as_bytes())));
    let r = &mut rr;
    let clients = match prop {
        "C03" => *r.pick(&[1, 1, 2, 2, 3, 4]),
        _ => *r.pick(&[1, 1, 1, 2, 2, 3]),
    };
    let ni = r.range(2, 6) as usize;
    let mut inputs = genr::inputs(r, ni, if thorough { 0.05 } else { 0.02 });
    if r.chance(if prop == "C02" { 0.4 } else { 0.15 }) {
        let k = r.below(ni);
        damage(&mut inputs[k], r);
    }
    if r.chance(0.3) {
        inputs.push(Input::new(r.chance(0.5)));
    }
    let mut uid = 0;
    let mut next = || {
        uid += 1;
        uid
    };
    let mut shared = vec![];
    if clients > 1 || r.chance(0.3) {
        for _ in 0..r.range(1, 3) {
            shared.push(COp { uid: next(), client: 0, c: Call::Create(r.u64() as u32 & 0xFF, flag(r)), oom: None });
        }
        if r.chance(0.7) {
            shared.push(COp { uid: next(), client: 0, c: Call::Index(Ref(0, r.u64() as u32 & 7), r.chance(0.5)), oom: None });
        }
        if r.chance(0.5) {
            shared.push(COp { uid: next(), client: 0, c: Call::Offset(Ref(0, r.u64() as u32 & 7), genr::dist(r), None), oom: None });
        }
    }
    let long = r.chance(if thorough { 0.25 } else { 0.1 });
    let nops = if long { r.range(40, 160) } else { r.range(4, 28) } as usize;
    let oom_p = match prop {
        "C01" => *r.pick(&[0.0, 0.15, 0.4]),
        "C02" => *r.pick(&[0.1, 0.3, 0.6]),
        _ => *r.pick(&[0.0, 0.0, 0.1]),
    };
    let mut ops = vec![];
    for c in 0..clients {
        // something to start from
        for _ in 0..r.range(1, 2) {
            ops.push(COp { uid: next(), client: c, c: Call::Create(r.u64() as u32 & 0xFF, flag(r)), oom: None });
        }
    }
    if r.chance(0.015) {
        let n = *r.pick(&[257, 300, 65_536, 65_537, 70_000, 66_000, 131_073]);
        ops.push(COp { uid: next(), client: 0, c: Call::CreateBig(n, r.u64(), flag(r)), oom: None });
    }
    let focus: Option<Vec<Call>> = if r.chance(0.3) { Some((0..r.range(2, 5)).map(|_| any_call(r)).collect()) } else { None };
    // the same question about one polyline before and after it changes
    let again_p = *r.pick(&[0.0, 0.0, 0.1, 0.3]);
    for _ in 0..nops {
        if r.chance(again_p) {
            let (client, o) = (r.below(clients), own(r));
            let q = reading(r, o);
            for _ in 0..r.range(1, 3) {
                ops.push(COp { uid: next(), client, c: q.clone(), oom: None });
                for _ in 0..*r.pick(&[1, 1, 1, 2]) {
                    let oom = if r.chance(oom_p * 0.5) { Some((F(r.f()), r.chance(0.4))) } else { None };
                    ops.push(COp { uid: next(), client, c: editing(r, o), oom });
                }
                ops.push(COp { uid: next(), client, c: q.clone(), oom: None });
            }
            continue;
        }
        let c = match &focus {
            Some(f) if r.chance(0.6) => r.pick(f).clone(),
            _ => any_call(r),
        };
        // leave more often what can be read than a null pointer
        let oom = if r.chance(oom_p) { Some((F(r.f()), r.chance(0.4))) } else { None };
        let client = r.below(clients);
        ops.push(COp { uid: next(), client, c: c.clone(), oom });
        if oom.is_some() && r.chance(0.4) {
            ops.push(COp { uid: next(), client, c, oom: None });
        }
    }
    Plan {
        prop: prop.into(),
        seed,
        run,
        clients,
        first: r.below(clients),
        inputs,
        shared,
        ops,
        sched: sched_knobs(r, clients),
        switches: None,
        mem: mem_knobs(r),
    }
}

// ------------------------------------------------------------------ minimisation

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let n = p.ops.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut i = 0;
        while i < n {
            let mut q = p.clone();
            q.ops.drain(i..(i + size).min(n));
            if !q.ops.is_empty() {
                out.push(q);
            }
            i += size;
        }
        size /= 2;
    }
    for i in 0..p.shared.len() {
        let mut q = p.clone();
        q.shared.remove(i);
        out.push(q);
    }
    if let Some(sw) = &p.switches {
        let m = sw.len();
        if m > 0 {
            let mut q = p.clone();
            q.switches = Some(vec![]);
            out.push(q);
        }
        let mut size = m / 2;
        while size >= 1 {
            let mut i = 0;
            while i < m {
                let mut q = p.clone();
                q.switches.as_mut().unwrap().drain(i..(i + size).min(m));
                out.push(q);
                i += size;
            }
            size /= 2;
        }
    }
    if p.clients > 1 {
        let mut q = p.clone();
        q.clients = 1;
        q.first = 0;
        q.switches = Some(vec![]);
        for o in q.ops.iter_mut() {
            o.client = 0;
        }
        out.push(q);
    }
    for i in 0..n {
        if p.ops[i].oom.is_some() {
            let mut q = p.clone();
            q.ops[i].oom = None;
            out.push(q);
        }
    }
    let plain = MemKnobs::default();
    if serde_json::to_string(&p.mem).ok() != serde_json::to_string(&plain).ok() {
        let mut q = p.clone();
        q.mem = plain;
        out.push(q);
    }
    for i in 0..p.inputs.len() {
        let m = p.inputs[i].len();
        let mut size = m / 2;
        while size >= 1 {
            let mut j = 0;
            while j < m {
                let mut q = p.clone();
                q.inputs[i].v.drain(j..(j + size).min(m));
                out.push(q);
                j += size;
            }
            size /= 2;
        }
    }
    out
}

pub fn rule(prop: &str) -> String {
    let nt = match prop {
        "C01" => "non-trivial: more than four calls and more than four allocations",
        "C02" => "non-trivial: an allocation failed inside a call, a documented error code was returned, or a library panic was contained",
        _ => "non-trivial: a call returned after real work, or more than eight calls were made",
    };
    format!("seeded histories of C calls by 1-4 clients, each on its own objects and on shared read-only ones, with objects handed between clients, null and out of range arguments, unknown codes, damaged coordinates, refused and failing allocations, under a seeded preemptive scheduler with a seeded heap; distinct by the hash of hand-overs, codes, results and step counts; {nt}")
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec![
        "callers keep the documented preconditions: pointers are null or valid, buffers are large enough, objects are not shared mutably".to_string(),
        "interleavings are sequentially consistent and change at instrumented edges and allocations only".to_string(),
        "a call whose arguments make the library itself exceed the work budget is left out (C14 judges that)".to_string(),
    ];
    if prop != "C03" {
        v.push("allocation failures at places where the standard library itself aborts (B-tree node splits) are left out and counted".into());
    }
    if prop == "C01" {
        v.push("memory obtained once and kept is not a leak, memory that grows with every repetition of the history is".into());
    }
    v
}
