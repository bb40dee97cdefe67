//! World of library computations: clients run computations on shared immutable inputs under the
//! scheduler, with failing allocations, failing user storage, cancelling and failing visitors.
use crate::genr;
use crate::kernel::*;
use crate::rng::{Rng, mix};
use crate::world::{Stats, Verdict, digest_words};
use glue::{Env, F, Fl, Index, Input, Ix, K, Src};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    None,
    /// the n-th allocation of the computation fails (and, if sticky, all later ones)
    Alloc { at: u64, frac: F, sticky: bool },
    /// the n-th access to user storage panics
    Access { at: u64, frac: F },
    /// the visitor asks to stop at its n-th visit
    Stop { at: u64, frac: F },
    /// the visitor panics at its n-th visit
    VisitPanic { at: u64, frac: F },
}

impl Fault {
    fn kind(&self) -> &'static str {
        match self {
            Fault::None => "none",
            Fault::Alloc { sticky: false, .. } => "allocation failure",
            Fault::Alloc { sticky: true, .. } => "persistent allocation failure",
            Fault::Access { .. } => "storage failure",
            Fault::Stop { .. } => "visitor cancellation",
            Fault::VisitPanic { .. } => "visitor panic",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nested {
    pub at: u64,
    pub k: K,
    pub a: usize,
    pub b: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub uid: u32,
    pub client: usize,
    pub k: K,
    pub a: usize,
    pub b: usize,
    pub fa: Fl,
    pub fb: Fl,
    /// build the operands for this computation only (their memory is recycled)
    pub private: bool,
    pub fault: Fault,
    #[serde(default)]
    pub nested: Option<Nested>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub clients: usize,
    pub first: usize,
    pub inputs: Vec<Input>,
    pub ops: Vec<Op>,
    pub sched: SchedKnobs,
    pub switches: Option<Vec<Switch>>,
    pub mem: MemKnobs,
}

// ------------------------------------------------------------------ per-operation context

#[derive(Default)]
struct Ctx {
    words: Vec<u64>,
    nested_words: Vec<u64>,
    in_nested: bool,
    accesses: u64,
    fail_access: u64,
    visits: u64,
    items: Vec<[u64; 7]>,
    stop_at: u64,
    stop_value: u64,
    panic_at: u64,
    nested: Option<(u64, K, Src, Src)>,
    nested_status: u8,
    after_stop: bool,
    fired: bool,
    stopped: bool,
    complaints: Vec<String>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

pub struct StorageFault;
pub struct VisitorFault;

fn h_word(x: u64) {
    outside(|| {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.in_nested {
                c.nested_words.push(x);
            } else if c.words.len() < MAX_WORDS {
                c.words.push(x);
            } else if let Some(last) = c.words.last_mut() {
                // a long result is reported in full up to here, the rest of it as one number
                *last = mix(*last, x);
            }
        })
    });
}

const MAX_WORDS: usize = 30_000;

fn h_access(_kind: u32, _i: usize, _n: usize) {
    user_event();
    let fail = outside(|| {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.in_nested {
                return false;
            }
            c.accesses += 1;
            if c.fail_access != 0 && c.accesses == c.fail_access && !std::thread::panicking() {
                c.fired = true;
                return true;
            }
            false
        })
    });
    if fail {
        std::panic::panic_any(StorageFault);
    }
}

fn h_visit(item: &[u64]) -> Option<u64> {
    user_event();
    let (fail, stop, nested) = outside(|| {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.in_nested {
                c.nested_words.extend_from_slice(item);
                return (false, None, None);
            }
            if c.stopped {
                c.after_stop = true;
            }
            c.visits += 1;
            let mut a = [0; 7];
            a.copy_from_slice(item);
            c.items.push(a);
            let v = c.visits;
            if c.panic_at == v {
                c.fired = true;
                return (true, None, None);
            }
            let stop = if c.stop_at == v {
                c.stopped = true;
                Some(c.stop_value)
            } else {
                None
            };
            let nested = if c.nested.as_ref().is_some_and(|n| n.0 == v) {
                c.in_nested = true;
                c.nested.take()
            } else {
                None
            };
            (false, stop, nested)
        })
    });
    if let Some((_, k, a, b)) = nested {
        let env = Env { shared_ix: None, inputs: &[] };
        let r = catch_unwind(AssertUnwindSafe(|| glue::run(&k, &a, &b, &env)));
        outside(|| {
            let ok = r.is_ok();
            drop(r);
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                c.in_nested = false;
                c.nested_status = if ok { 1 } else { 2 };
            });
        });
        drop((a, b));
    }
    if fail {
        std::panic::panic_any(VisitorFault);
    }
    stop
}

fn h_complain(s: &str) {
    outside(|| CTX.with(|c| c.borrow_mut().complaints.push(s.to_string())));
}

fn h_size(n: usize, shape: bool) -> bool {
    // a computation chained to earlier results gets the work its own input allows
    if BOUNDED.get() {
        if n > if shape { MAX_SHAPE } else { 64 } {
            return false;
        }
        outside(|| extend_budget(if shape { shape_bound(n as u64) } else { bound_for(n as u64) }));
    }
    true
}

/// Shapes whose loops coincide grow with a high power of their size, so only small ones are judged.
const MAX_SHAPE: usize = 6;
fn shape_bound(n: u64) -> u64 {
    2_000_000 + 5 * (n + 2).pow(8)
}

thread_local! {
    static BOUNDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_hooks() {
    glue::set_hooks(glue::Hooks { word: h_word, access: h_access, visit: h_visit, complain: h_complain, size: h_size });
}

// ------------------------------------------------------------------ records

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub uid: u32,
    pub status: u8, // 1 ok, 2 panicked
    pub fired: bool,
    pub stopped: bool,
    pub after_stop: bool,
    pub input_changed: bool,
    pub edges: u64,
    pub steps: u64,
    pub allocs: u64,
    pub accesses: u64,
    pub visits: u64,
    pub nested_status: u8,
    pub words: Vec<u64>,
    pub items: Vec<u64>,
    pub nested_words: Vec<u64>,
    pub msg: String,
    pub complaints: String,
}

pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn u(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    pub fn v(&mut self, x: &[u64]) {
        self.u(x.len() as u64);
        for w in x {
            self.u(*w);
        }
    }
    pub fn s(&mut self, x: &str) {
        self.u(x.len() as u64);
        self.0.extend_from_slice(x.as_bytes());
    }
}
pub struct Dec<'a>(pub &'a [u8]);
impl Dec<'_> {
    pub fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    pub fn v(&mut self) -> Vec<u64> {
        let n = self.u();
        (0..n).map(|_| self.u()).collect()
    }
    pub fn s(&mut self) -> String {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        String::from_utf8_lossy(a).into_owned()
    }
}

impl Rec {
    fn enc(&self, e: &mut Enc) {
        for x in [
            self.uid as u64,
            self.status as u64,
            self.fired as u64,
            self.stopped as u64,
            self.after_stop as u64,
            self.input_changed as u64,
            self.edges,
            self.steps,
            self.allocs,
            self.accesses,
            self.visits,
            self.nested_status as u64,
        ] {
            e.u(x);
        }
        e.v(&self.words);
        e.v(&self.items);
        e.v(&self.nested_words);
        e.s(&self.msg);
        e.s(&self.complaints);
    }
    fn dec(d: &mut Dec) -> Rec {
        Rec {
            uid: d.u() as u32,
            status: d.u() as u8,
            fired: d.u() != 0,
            stopped: d.u() != 0,
            after_stop: d.u() != 0,
            input_changed: d.u() != 0,
            edges: d.u(),
            steps: d.u(),
            allocs: d.u(),
            accesses: d.u(),
            visits: d.u(),
            nested_status: d.u() as u8,
            words: d.v(),
            items: d.v(),
            nested_words: d.v(),
            msg: d.s(),
            complaints: d.s(),
        }
    }
}

fn bits_of(s: &Src) -> u64 {
    let mut h = 0x1234u64;
    glue::src_bits(s, &mut |x| h = mix(h, x));
    h
}

struct Sources {
    by: HashMap<(usize, Fl), (Src, u64)>,
    ix: HashMap<(usize, Fl), Index>,
}
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

fn stop_value(uid: u32) -> u64 {
    mix(uid as u64, 0x5707)
}

/// Execute one operation on the current client (harness mode on entry and exit).
fn exec_op(op: &Op, plan: &Plan, srcs: &Sources, budget: u64) -> Rec {
    let (mut alloc, mut sticky) = (0u32, false);
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        *c = Ctx::default();
        match op.fault {
            Fault::None => {}
            Fault::Alloc { at, sticky: s, .. } => {
                alloc = at as u32;
                sticky = s;
            }
            Fault::Access { at, .. } => c.fail_access = at,
            Fault::Stop { at, .. } => {
                c.stop_at = at;
                c.stop_value = stop_value(op.uid);
            }
            Fault::VisitPanic { at, .. } => c.panic_at = at,
        }
    });
    if let Some(n) = &op.nested {
        let (a, b) = sut(|| {
            (glue::build(&plan.inputs[n.a % plan.inputs.len()], Fl::Lib), glue::build(&plan.inputs[n.b % plan.inputs.len()], Fl::Lib))
        });
        CTX.with(|c| c.borrow_mut().nested = Some((n.at, n.k.clone(), a, b)));
    }
    begin_op(op.uid, alloc, sticky, budget);
    BOUNDED.set(plan.prop == "C14");
    let na = plan.inputs.len();
    let (ia, ib) = (op.a % na, op.b % na);
    let mut changed = false;
    let res = if op.private {
        let res = catch_unwind(AssertUnwindSafe(|| {
            sut(|| {
                let a = glue::build(&plan.inputs[ia], op.fa);
                let b = glue::build(&plan.inputs[ib], op.fb);
                let ix = if uses_shared(&op.k) { glue::build_index(&a, false) } else { None };
                let (ha, hb) = outside(|| (bits_of(&a), bits_of(&b)));
                let env = Env { shared_ix: ix.as_ref(), inputs: &plan.inputs };
                glue::run(&op.k, &a, &b, &env);
                outside(|| ha != bits_of(&a) || hb != bits_of(&b))
            })
        }));
        match res {
            Ok(c) => {
                changed = c;
                Ok(())
            }
            Err(e) => Err(e),
        }
    } else {
        let a = &srcs.by[&(ia, op.fa)];
        let b = &srcs.by[&(ib, op.fb)];
        let env = Env { shared_ix: srcs.ix.get(&(ia, op.fa)), inputs: &plan.inputs };
        let r = catch_unwind(AssertUnwindSafe(|| sut(|| glue::run(&op.k, &a.0, &b.0, &env))));
        changed |= bits_of(&a.0) != a.1 || bits_of(&b.0) != b.1;
        r
    };
    let st = end_op();
    let mut rec = Rec { uid: op.uid, status: if res.is_ok() { 1 } else { 2 }, input_changed: changed, ..Default::default() };
    if res.is_err() {
        rec.msg = last_panic();
    }
    drop(res);
    rec.edges = st.edges;
    rec.steps = st.steps;
    rec.allocs = st.allocs as u64;
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.nested = None;
        rec.fired = c.fired || st.fired;
        rec.stopped = c.stopped;
        rec.after_stop = c.after_stop;
        rec.accesses = c.accesses;
        rec.visits = c.visits;
        rec.nested_status = c.nested_status;
        rec.words = std::mem::take(&mut c.words);
        rec.nested_words = std::mem::take(&mut c.nested_words);
        rec.items = c.items.iter().flatten().copied().collect();
        rec.complaints = c.complaints.join("; ");
        *c = Ctx::default();
    });
    rec
}

fn uses_shared(k: &K) -> bool {
    match k {
        K::SelfIntr(_, _, Ix::Shared) | K::FindIntr(_, Ix::Shared) | K::Offset(.., Ix::Shared) | K::Bool(_, _, Ix::Shared) => true,
        K::Seq(v) => v.iter().any(uses_shared),
        _ => false,
    }
}

fn body(plan: &Plan, ops: &[Op], clients: usize, sched: &SchedKnobs, switches: Option<Vec<Switch>>, first: usize, mem: &MemKnobs, budget: u64, rep: u64) -> Vec<Rec> {
    // set-up phase: inputs shared by all clients
    let none = SchedKnobs::none();
    let srcs: Share<RefCell<Sources>> = Share(RefCell::new(Sources { by: HashMap::new(), ix: HashMap::new() }));
    let n = plan.inputs.len();
    {
        let srcs = &srcs;
        run_clients(1, 0, &none, None, mem, rep.wrapping_mul(3), &move |_| {
            let s = srcs;
            begin_op(0, 0, false, u64::MAX);
            for op in ops.iter().filter(|o| !o.private) {
                for (i, fl) in [(op.a % n, op.fa), (op.b % n, op.fb)] {
                    if !s.0.borrow().by.contains_key(&(i, fl)) {
                        let x = sut(|| glue::build(&plan.inputs[i], fl));
                        let h = bits_of(&x);
                        s.0.borrow_mut().by.insert((i, fl), (x, h));
                    }
                }
                let key = (op.a % n, op.fa);
                if uses_shared(&op.k) && !s.0.borrow().ix.contains_key(&key) {
                    let b = s.0.borrow();
                    let ix = catch_unwind(AssertUnwindSafe(|| sut(|| glue::build_index(&b.by[&key].0, false)))).unwrap_or(None);
                    drop(b);
                    if let Some(ix) = ix {
                        s.0.borrow_mut().ix.insert(key, ix);
                    }
                }
            }
            end_op();
            CTX.with(|c| *c.borrow_mut() = Ctx::default());
        });
    }
    let srcs = srcs.0.into_inner();
    let out: Vec<Share<RefCell<Vec<Rec>>>> = (0..clients).map(|_| Share(RefCell::new(vec![]))).collect();
    {
        let srcs = Share(&srcs);
        let out = &out;
        let srcs = &srcs;
        run_clients(clients, first, sched, switches, mem, rep.wrapping_mul(3) + 1, &move |me| {
            let srcs: &Sources = srcs.0;
            for op in ops.iter().filter(|o| o.client % clients == me) {
                let r = exec_op(op, plan, srcs, budget);
                out[me].0.borrow_mut().push(r);
            }
        });
    }
    let th = trace_hash();
    let rec = recorded();
    {
        let cell = Share(RefCell::new(Some(srcs)));
        let cell = &cell;
        run_clients(1, 0, &none, None, mem, rep.wrapping_mul(3) + 2, &move |_| {
            let c = cell;
            let s = c.0.borrow_mut().take();
            drop(s);
        });
    }
    set_trace(th, rec);
    out.into_iter().flat_map(|c| c.0.into_inner()).collect()
}

thread_local! {
    static TRACE: RefCell<(u64, Vec<Switch>)> = const { RefCell::new((0, vec![])) };
}
fn set_trace(h: u64, v: Vec<Switch>) {
    TRACE.with(|t| *t.borrow_mut() = (h, v));
}

/// The computation alone, in a fresh process.
fn solo(plan: &Plan, op: &Op, budget: u64) -> ChildEnd {
    let mut o = op.clone();
    o.client = 0;
    o.private = true;
    o.fault = Fault::None;
    o.nested = None;
    let p2 = plan;
    in_child(60, move || {
        arena_map();
        let mem = MemKnobs::default();
        arena_reset(&mem);
        install_hooks();
        let ops = [o];
        let v = body(p2, &ops, 1, &SchedKnobs::none(), None, 0, &mem, budget, 0);
        let mut e = Enc(vec![]);
        v[0].enc(&mut e);
        e.0
    })
}

pub struct RunOut {
    pub recs: Vec<Rec>,
    pub trace_hash: u64,
    pub switches: Vec<Switch>,
    pub leak: String,
    pub memv: String,
    pub mem_totals: (u64, u64, u64),
    pub first: HashMap<u32, ()>,
}

fn run_child(plan: &Plan, budget: u64) -> ChildEnd {
    in_child(120, || {
        arena_map();
        arena_reset(&plan.mem);
        install_hooks();
        let recs = body(plan, &plan.ops, plan.clients, &plan.sched, plan.switches.clone(), plan.first, &plan.mem, budget, 0);
        let (th, sw) = TRACE.with(|t| t.borrow().clone());
        let mut leak = String::new();
        let l1 = live_count();
        if l1 > 0 {
            // whatever is set up once stays; what grows with every repetition is a leak
            let mut last = l1;
            let mut grew = true;
            for rep in 1..=2 {
                let seq = mem_seq();
                body(plan, &plan.ops, plan.clients, &plan.sched, Some(sw.clone()), plan.first, &plan.mem, budget, rep);
                let now = live_count();
                if now <= last {
                    grew = false;
                    break;
                }
                let b = live_blocks(seq);
                leak = format!(
                    "{} blocks stay allocated after every repetition, e.g. {} bytes allocated by operation {}",
                    now - last,
                    b.first().map(|r| r.size).unwrap_or(0),
                    b.first().map(|r| r.uid).unwrap_or(0)
                );
                last = now;
            }
            if !grew {
                leak.clear();
            }
        }
        sweep();
        let mut e = Enc(vec![]);
        e.u(recs.len() as u64);
        for r in &recs {
            r.enc(&mut e);
        }
        e.u(th);
        e.u(sw.len() as u64);
        for s in &sw {
            e.u(s.client as u64);
            e.u(s.uid as u64);
            e.u(s.step);
            e.u(s.to as u64);
        }
        e.s(&leak);
        e.s(&mem_violation().unwrap_or_default());
        let t = mem_totals();
        e.u(t.0);
        e.u(t.1);
        e.u(t.2);
        e.0
    })
}

fn dec_run(b: &[u8]) -> RunOut {
    let mut d = Dec(b);
    let n = d.u();
    let recs = (0..n).map(|_| Rec::dec(&mut d)).collect();
    let trace_hash = d.u();
    let n = d.u();
    let switches = (0..n)
        .map(|_| Switch { client: d.u() as usize, uid: d.u() as u32, step: d.u(), to: d.u() as usize })
        .collect();
    RunOut {
        recs,
        trace_hash,
        switches,
        leak: d.s(),
        memv: d.s(),
        mem_totals: (d.u(), d.u(), d.u()),
        first: HashMap::new(),
    }
}

// ------------------------------------------------------------------ execution and judgement

const BUDGET: u64 = 15_000_000;

pub fn op_size(plan: &Plan, op: &Op) -> u64 {
    let n = plan.inputs.len();
    let mut s = plan.inputs[op.a % n].len() as u64;
    if op.k.uses_b() {
        s += plan.inputs[op.b % n].len() as u64;
    }
    if let K::Shape(ids, ..) = &op.k {
        s = ids.iter().map(|i| plan.inputs[glue::untile(*i) % n].len() as u64).sum();
    }
    s
}

/// Work allowed for one computation: polynomial in its size with generous constants.
pub fn work_bound(plan: &Plan, op: &Op) -> u64 {
    let n = op_size(plan, op);
    let f = match &op.k {
        K::Shape(..) => return shape_bound(n.min(MAX_SHAPE as u64)),
        K::Seq(v) => 1 + v.len() as u64,
        _ => 1,
    };
    f * bound_for(n)
}

fn bound_for(n: u64) -> u64 {
    let n = n + 4;
    2_000_000 + 4_000 * n * n + 300 * n * n * n + 30 * n * n * n * n
}

fn solo_op(plan: &Plan, op: &Op) -> Op {
    let mut o = op.clone();
    if plan.prop == "C07" {
        // user storage and views are judged against the library's own polyline
        o.fa = Fl::Lib;
        o.fb = Fl::Lib;
    }
    if plan.prop == "C10" {
        o.k = own_index(&o.k);
    }
    o
}

fn fail(class: &str, plan: Plan, detail: String) -> Verdict {
    Verdict::Fail { class: class.to_string(), detail, plan: serde_json::to_value(plan).unwrap() }
}

pub fn execute(plan0: &Plan, st: &mut Stats) -> Verdict {
    let mut plan = plan0.clone();
    if plan.inputs.is_empty() || plan.ops.is_empty() {
        return Verdict::Pass { digest: 0, nontrivial: false };
    }
    if plan.prop == "C14" {
        return execute_bounded(&plan, st);
    }
    // 1. every computation alone, in a pristine process
    let mut cache: HashMap<String, Option<Rec>> = HashMap::new();
    let mut solos: HashMap<u32, Rec> = HashMap::new();
    let mut nsolos: HashMap<u32, Rec> = HashMap::new();
    let mut keep = vec![];
    let mut one = |plan: &Plan, o: &Op, st: &mut Stats| -> Result<Option<Rec>, String> {
        let key = format!("{:?}|{}|{}|{:?}|{:?}", o.k, o.a, o.b, o.fa, o.fb);
        if let Some(r) = cache.get(&key) {
            return Ok(r.clone());
        }
        let r = match solo(plan, o, BUDGET) {
            ChildEnd::Done(b) => Some(Rec::dec(&mut Dec(&b))),
            ChildEnd::Stall(_) => {
                st.count("solo computation exceeded its budget (left out)", 1);
                None
            }
            ChildEnd::Died { signal, .. } => {
                st.count(&format!("solo computation died of signal {signal} (left out)"), 1);
                None
            }
            ChildEnd::StdAbort { .. } => return Err("standard library abort without an injected failure".into()),
            ChildEnd::Timeout => return Err(format!("solo computation timed out: {:?}", o.k)),
            ChildEnd::Odd(c) => return Err(format!("child ended oddly ({c}): {:?}", o.k)),
        };
        st.count("reference computations", 1);
        cache.insert(key, r.clone());
        Ok(r)
    };
    for op in &plan.ops {
        let r = match one(&plan, &solo_op(&plan, op), st) {
            Ok(r) => r,
            Err(e) => return Verdict::Harness(e),
        };
        let Some(r) = r else { continue };
        let mut op = op.clone();
        // totals for fault placement come from the computation as it will run
        let tot = if plan.prop == "C07" && (op.fa != Fl::Lib || op.fb != Fl::Lib) && matches!(op.fault, Fault::Access { .. } | Fault::Alloc { .. }) {
            match one(&plan, &op, st) {
                Ok(Some(r)) => r,
                Ok(None) => continue,
                Err(e) => return Verdict::Harness(e),
            }
        } else {
            r.clone()
        };
        let place = |at: &mut u64, frac: &F, total: u64| -> bool {
            if *at == 0 {
                if total == 0 {
                    return false;
                }
                *at = 1 + ((frac.0 * total as f64) as u64).min(total - 1);
            }
            true
        };
        let ok = match &mut op.fault {
            Fault::None => true,
            Fault::Alloc { at, frac, .. } => place(at, frac, tot.allocs),
            Fault::Access { at, frac } => place(at, frac, tot.accesses),
            Fault::Stop { at, frac } | Fault::VisitPanic { at, frac } => place(at, frac, tot.visits),
        };
        if !ok {
            op.fault = Fault::None;
        }
        if let Some(n) = &mut op.nested {
            if n.at == 0 {
                n.at = 1 + mix(op.uid as u64, plan.seed) % tot.visits.max(1);
            }
            let (nk, na, nb) = (n.k.clone(), n.a, n.b);
            let mut no = op.clone();
            no.k = nk;
            no.a = na;
            no.b = nb;
            no.fa = Fl::Lib;
            no.fb = Fl::Lib;
            match one(&plan, &no, st) {
                Ok(Some(r)) => {
                    nsolos.insert(op.uid, r);
                }
                Ok(None) => op.nested = None,
                Err(e) => return Verdict::Harness(e),
            }
        }
        solos.insert(op.uid, r);
        keep.push(op);
    }
    plan.ops = keep;
    if plan.ops.is_empty() {
        return Verdict::Pass { digest: 0, nontrivial: false };
    }
    // 2. for visitors: full enumeration must be local followed by global
    if plan.prop == "C06" {
        for op in &plan.ops {
            if let K::SelfIntr(m, e, ix) = &op.k {
                let mut parts = vec![];
                for inc in [0u8, 1, 2] {
                    let mut o = solo_op(&plan, op);
                    o.k = K::SelfIntr(inc, *e, if *ix == Ix::Short { Ix::None } else { *ix });
                    if *ix == Ix::Short {
                        o.k = K::SelfIntr(inc, F(1e-5), Ix::None);
                    }
                    match one(&plan, &o, st) {
                        Ok(Some(r)) => parts.push(r),
                        Ok(None) => {}
                        Err(e) => return Verdict::Harness(e),
                    }
                }
                let _ = m;
                if parts.len() == 3 && parts.iter().all(|p| p.status == 1) {
                    let mut want = parts[1].items.clone();
                    want.extend_from_slice(&parts[2].items);
                    if want != parts[0].items {
                        return fail(
                            "all-not-local-then-global",
                            plan.clone(),
                            format!(
                                "enumerating all gives {} items, local gives {} and global {}, and they are not the concatenation",
                                parts[0].items.len() / 7,
                                parts[1].items.len() / 7,
                                parts[2].items.len() / 7
                            ),
                        );
                    }
                    let eps = if *ix == Ix::Short { 1e-5 } else { e.0 };
                    if let Some(d) = enumeration_wrong(&plan.inputs[op.a % plan.inputs.len()], eps, &parts[1].items, &parts[2].items) {
                        return fail("enumeration-wrong", plan.clone(), d);
                    }
                }
            }
        }
    }
    // 3. the run
    let end = loop {
        let end = run_child(&plan, BUDGET * 4);
        if let ChildEnd::StdAbort { uid } = end {
            st.count("allocation failures left out because the standard library aborts there", 1);
            if let Some(o) = plan.ops.iter_mut().find(|o| o.uid == uid) {
                if o.fault != Fault::None {
                    o.fault = Fault::None;
                    continue;
                }
            }
            return Verdict::Harness("standard library abort without an injected failure".into());
        }
        break end;
    };
    let out = match end {
        ChildEnd::Done(b) => dec_run(&b),
        ChildEnd::Stall(m) => {
            plan.switches.get_or_insert(logged_switches());
            return fail("stall", plan, format!("finishes alone but not in this history: {m}"));
        }
        ChildEnd::Died { signal, client, uid } => {
            plan.switches.get_or_insert(logged_switches());
            return fail("died", plan, format!("process died of signal {signal} while client {client} ran operation {uid}"));
        }
        ChildEnd::StdAbort { .. } => unreachable!(),
        ChildEnd::Timeout => return Verdict::Harness("run timed out".into()),
        ChildEnd::Odd(c) => return Verdict::Harness(format!("run child ended oddly ({c})")),
    };
    if plan.switches.is_none() {
        plan.switches = Some(out.switches.clone());
    }
    // 4. judgement
    let mut dg = mix(out.trace_hash, out.recs.len() as u64);
    for r in &out.recs {
        dg = mix(dg, digest_words(&r.words));
        dg = mix(dg, digest_words(&r.items));
        dg = mix(dg, r.steps ^ ((r.status as u64) << 60));
    }
    st.count("computations", out.recs.len() as u64);
    st.count("simulated steps", out.recs.iter().map(|r| r.steps).sum());
    st.count("hand-overs inside computations", out.switches.iter().filter(|s| s.step > 0).count() as u64);
    st.count("hand-overs between computations", out.switches.iter().filter(|s| s.step == 0).count() as u64);
    st.count("allocations", out.mem_totals.0);
    st.count("recycled blocks", out.mem_totals.2);
    let mut th = out.trace_hash;
    for o in &plan.ops {
        if let Fault::Alloc { at, .. } | Fault::Access { at, .. } | Fault::Stop { at, .. } | Fault::VisitPanic { at, .. } = &o.fault {
            th = mix(th, mix(o.uid as u64, mix(*at, crate::rng::fnv(o.fault.kind().as_bytes()))));
        }
    }
    st.trace(th);
    let mut fired_any = false;
    for r in &out.recs {
        let op = plan.ops.iter().find(|o| o.uid == r.uid).unwrap();
        if r.fired || r.stopped {
            fired_any = true;
            st.fault(op.fault.kind());
        }
        if r.nested_status != 0 {
            st.count("nested computations", 1);
        }
        st.count(if r.status == 1 { "computations returned" } else { "computations panicked" }, 1);
        st.op(op.k.name());
        if r.fired && r.status == 2 && matches!(op.k, K::Edits(..)) {
            st.count("edits interrupted", 1);
        }
    }
    let find = |uid: u32| plan.ops.iter().find(|o| o.uid == uid).unwrap();
    for r in &out.recs {
        let op = find(r.uid);
        let s = &solos[&r.uid];
        let what = format!("operation {} ({}) of client {}", r.uid, op.k.name(), op.client);
        if r.input_changed {
            return fail("input-changed", plan.clone(), format!("{what} changed its input"));
        }
        if r.complaints.contains("harness:") {
            return Verdict::Harness(r.complaints.clone());
        }
        let (edits, ours): (Vec<&str>, Vec<&str>) = r.complaints.split("; ").filter(|c| !c.is_empty()).partition(|c| c.starts_with("interrupted edit:"));
        if !edits.is_empty() && plan.prop == "C05" {
            return fail("half-edited", plan.clone(), format!("{what}: {}", edits[0]));
        }
        if !ours.is_empty() && plan.prop == "C10" {
            return fail("incoherent", plan.clone(), format!("{what}: {}", ours[0]));
        }
        if let (Some(n), true) = (nsolos.get(&r.uid), r.nested_status != 0 && !(r.fired && matches!(op.fault, Fault::Alloc { .. }))) {
            // visits inside the nested computation are recorded with its words
            let mut want: Vec<u64> = n.items.clone();
            want.extend_from_slice(&n.words);
            if r.nested_status != n.status || sorted(&want) != sorted(&r.nested_words) {
                return fail("nested-differs", plan.clone(), format!("{what}: a computation started inside a visit differs from the same computation alone"));
            }
        }
        if r.after_stop {
            return fail("visited-after-stop", plan.clone(), format!("{what}: visitor called again after asking to stop"));
        }
        if r.stopped {
            let k = r.items.len();
            if s.status == 1 && (k > s.items.len() || r.items[..] != s.items[..k]) {
                return fail("not-a-prefix", plan.clone(), format!("{what}: items before the stop are not a prefix of the complete enumeration"));
            }
            let want = [0xB0, stop_value(r.uid)];
            if matches!(op.k, K::SelfIntr(..)) && (r.status != 1 || r.words != want) {
                return fail(
                    "stop-value-lost",
                    plan.clone(),
                    format!("{what}: visitor stopped with {:#x}, caller got status {} words {:x?}", want[1], r.status, r.words),
                );
            }
            continue;
        }
        let same = r.status == s.status && r.words == s.words && r.items == s.items;
        if r.fired {
            let k = r.items.len();
            let prefix_ok = s.status != 1 || (k <= s.items.len() && r.items[..] == s.items[..k]);
            if r.status == 1 && !same && plan.prop != "C10" {
                return fail(
                    "failure-swallowed",
                    plan.clone(),
                    format!("{what}: {} was injected, the computation still returned a value, but not the right one: {}", op.fault.kind(), diff(s, r)),
                );
            }
            if !prefix_ok {
                return fail("not-a-prefix", plan.clone(), format!("{what}: items before the failure are not a prefix of the complete enumeration"));
            }
            continue;
        }
        if !same {
            let d = diff(s, r);
            return fail("result-differs", plan.clone(), format!("{what}: {d}"));
        }
    }
    if plan.prop == "C05" {
        if !out.memv.is_empty() {
            return fail("memory", plan.clone(), out.memv.clone());
        }
        if !out.leak.is_empty() {
            return fail("leak", plan.clone(), out.leak.clone());
        }
    }
    let inside = out.switches.iter().any(|s| s.step > 0);
    let worked = out.recs.iter().filter(|r| r.status == 1 && r.edges > 50).count();
    let nontrivial = match plan.prop.as_str() {
        "C04" => worked >= 2 && (plan.clients == 1 || inside),
        "C05" => fired_any && worked >= 1,
        "C06" => out.recs.iter().any(|r| r.visits > 0),
        "C07" => out.recs.iter().any(|r| r.accesses > 0 || r.words.len() > 4),
        _ => worked >= 1,
    };
    Verdict::Pass { digest: dg, nontrivial }
}

fn sorted(v: &[u64]) -> Vec<u64> {
    let mut v = v.to_vec();
    v.sort_unstable();
    v
}

fn diff(s: &Rec, r: &Rec) -> String {
    if s.status != r.status {
        return format!(
            "alone: {} {}; in this history: {} {}",
            if s.status == 1 { "returned" } else { "panicked" },
            s.msg,
            if r.status == 1 { "returned" } else { "panicked" },
            r.msg
        );
    }
    if s.words != r.words {
        let i = s.words.iter().zip(&r.words).position(|(a, b)| a != b).unwrap_or(s.words.len().min(r.words.len()));
        let g = |v: &Vec<u64>| v.get(i).map(|x| format!("{x:#x} ({:?})", f64::from_bits(*x))).unwrap_or("nothing".into());
        return format!(
            "result of {} words instead of {}; first difference at word {i}: {} instead of {}",
            r.words.len(),
            s.words.len(),
            g(&r.words),
            g(&s.words)
        );
    }
    format!("{} visits instead of {}", r.items.len() / 7, s.items.len() / 7)
}

/// What independent arithmetic knows about a complete enumeration: crossings that are plain (away
/// from ends and from tangency) are in it, and pairs sharing a vertex are local, others global.
fn enumeration_wrong(p: &Input, eps: f64, local: &[u64], global: &[u64]) -> Option<String> {
    let n = p.len();
    if n < 3 || !(eps <= 1e-4) {
        return None;
    }
    let segs = if p.closed { n } else { n - 1 };
    let pieces: Vec<Option<Piece>> = (0..segs).map(|i| Piece::new(p, i)).collect();
    let adjacent = |i: usize, j: usize| (i + 1) % n == j || (j + 1) % n == i;
    for (items, what) in [(local, "local"), (global, "global")] {
        for c in items.chunks(7) {
            let (i, j) = (c[1] as usize, c[2] as usize);
            if i >= segs || j >= segs || i == j {
                return Some(format!("{what} intersect of segments {i} and {j}: there are {segs} segments"));
            }
            if adjacent(i, j) != (what == "local") {
                return Some(format!("segments {i} and {j} are reported as {what} intersect"));
            }
        }
    }
    if n > 400 {
        return None;
    }
    let mut at: HashMap<(usize, usize), Vec<(f64, f64)>> = HashMap::new();
    for c in local.chunks(7).chain(global.chunks(7)) {
        let (i, j) = (c[1] as usize, c[2] as usize);
        let e = at.entry((i.min(j), i.max(j))).or_default();
        e.push((f64::from_bits(c[3]), f64::from_bits(c[4])));
        if c[0] != 1 {
            e.push((f64::from_bits(c[5]), f64::from_bits(c[6])));
        }
    }
    for i in 0..segs {
        let Some(a) = &pieces[i] else { continue };
        for j in i + 1..segs {
            let Some(b) = &pieces[j] else { continue };
            for q in a.plain_crossings(b) {
                let near = |h: &(f64, f64)| ((h.0 - q.0).powi(2) + (h.1 - q.1).powi(2)).sqrt() < 1e-2;
                if !at.get(&(i, j)).is_some_and(|l| l.iter().any(near)) {
                    return Some(format!("segments {i} and {j} cross at {q:?} but the complete enumeration does not mention it"));
                }
            }
        }
    }
    None
}

/// A segment in the simulator's own arithmetic.
struct Piece {
    a: (f64, f64),
    b: (f64, f64),
    /// centre, radius, angle at the start, signed sweep
    arc: Option<((f64, f64), f64, f64, f64)>,
}

impl Piece {
    fn new(p: &Input, i: usize) -> Option<Piece> {
        let n = p.len();
        let (v, u) = (p.v[i], p.v[(i + 1) % n]);
        let (a, b, bulge) = ((v[0].0, v[1].0), (u[0].0, u[1].0), v[2].0);
        let l = ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt();
        if ![a.0, a.1, b.0, b.1, bulge].iter().all(|x| x.is_finite() && x.abs() < 1e3) || l < 0.1 {
            return None;
        }
        if bulge == 0.0 {
            return Some(Piece { a, b, arc: None });
        }
        if !(1e-2..=1.0).contains(&bulge.abs()) {
            return None;
        }
        let sweep = 4.0 * bulge.atan();
        let r = l / (2.0 * (sweep / 2.0).sin().abs());
        // centre: left of a->b by the signed distance from the chord
        let h = l * (1.0 - bulge * bulge) / (4.0 * bulge);
        let (dx, dy) = ((b.0 - a.0) / l, (b.1 - a.1) / l);
        let c = ((a.0 + b.0) / 2.0 - dy * h, (a.1 + b.1) / 2.0 + dx * h);
        if r > 200.0 || r < 0.1 {
            return None;
        }
        Some(Piece { a, b, arc: Some((c, r, (a.1 - c.1).atan2(a.0 - c.0), sweep)) })
    }

    /// How far along the arc the direction from the centre to `q` is, as a part of the sweep.
    fn along(c: (f64, f64), start: f64, sweep: f64, q: (f64, f64)) -> f64 {
        let t = (q.1 - c.1).atan2(q.0 - c.0);
        let d = if sweep > 0.0 { t - start } else { start - t };
        d.rem_euclid(std::f64::consts::TAU) / sweep.abs()
    }

    fn distance(&self, q: (f64, f64)) -> f64 {
        let d = |p: (f64, f64)| ((p.0 - q.0).powi(2) + (p.1 - q.1).powi(2)).sqrt();
        let ends = d(self.a).min(d(self.b));
        match self.arc {
            None => {
                let (vx, vy) = (self.b.0 - self.a.0, self.b.1 - self.a.1);
                let t = (((q.0 - self.a.0) * vx + (q.1 - self.a.1) * vy) / (vx * vx + vy * vy)).clamp(0.0, 1.0);
                d((self.a.0 + t * vx, self.a.1 + t * vy))
            }
            Some((c, r, start, sweep)) => {
                if Self::along(c, start, sweep, q) <= 1.0 {
                    ends.min((d(c) - r).abs())
                } else {
                    ends
                }
            }
        }
    }

    /// Direction of travel at `q`, a point of the piece; nothing when `q` is not plainly inside.
    fn inside(&self, q: (f64, f64)) -> Option<(f64, f64)> {
        const M: f64 = 2e-2;
        let d = |p: (f64, f64)| ((p.0 - q.0).powi(2) + (p.1 - q.1).powi(2)).sqrt();
        if d(self.a) < M || d(self.b) < M || self.distance(q) > 1e-6 {
            return None;
        }
        Some(match self.arc {
            None => {
                let l = ((self.b.0 - self.a.0).powi(2) + (self.b.1 - self.a.1).powi(2)).sqrt();
                ((self.b.0 - self.a.0) / l, (self.b.1 - self.a.1) / l)
            }
            Some((c, r, _, s)) => {
                let s = s.signum();
                (-(q.1 - c.1) / r * s, (q.0 - c.0) / r * s)
            }
        })
    }

    fn plain_crossings(&self, o: &Piece) -> Vec<(f64, f64)> {
        let mut c: Vec<(f64, f64)> = vec![];
        match (self.arc, o.arc) {
            (None, None) => {
                let (r, s) = ((self.b.0 - self.a.0, self.b.1 - self.a.1), (o.b.0 - o.a.0, o.b.1 - o.a.1));
                let den = r.0 * s.1 - r.1 * s.0;
                if den != 0.0 {
                    let t = ((o.a.0 - self.a.0) * s.1 - (o.a.1 - self.a.1) * s.0) / den;
                    c.push((self.a.0 + t * r.0, self.a.1 + t * r.1));
                }
            }
            (None, Some((m, q, ..))) => line_circle(self.a, self.b, m, q, &mut c),
            (Some((m, q, ..)), None) => line_circle(o.a, o.b, m, q, &mut c),
            (Some((m, q, ..)), Some((k, p, ..))) => {
                let (dx, dy) = (k.0 - m.0, k.1 - m.1);
                let d = (dx * dx + dy * dy).sqrt();
                if d > 1e-2 {
                    let x = (d * d + q * q - p * p) / (2.0 * d);
                    let y2 = q * q - x * x;
                    if y2 > 0.0 {
                        let y = y2.sqrt();
                        for y in [y, -y] {
                            c.push((m.0 + (x * dx - y * dy) / d, m.1 + (x * dy + y * dx) / d));
                        }
                    }
                }
            }
        }
        c.retain(|q| match (self.inside(*q), o.inside(*q)) {
            (Some(u), Some(v)) => (u.0 * v.1 - u.1 * v.0).abs() > 0.1,
            _ => false,
        });
        c
    }
}

fn line_circle(a: (f64, f64), b: (f64, f64), m: (f64, f64), r: f64, out: &mut Vec<(f64, f64)>) {
    let l = ((b.0 - a.0).powi(2) + (b.1 - a.1).powi(2)).sqrt();
    let (dx, dy) = ((b.0 - a.0) / l, (b.1 - a.1) / l);
    let t = (m.0 - a.0) * dx + (m.1 - a.1) * dy;
    let h = (m.0 - a.0) * dy - (m.1 - a.1) * dx;
    let y2 = r * r - h * h;
    if y2 > 0.0 {
        for y in [y2.sqrt(), -y2.sqrt()] {
            out.push((a.0 + (t + y) * dx, a.1 + (t + y) * dy));
        }
    }
}

fn execute_bounded(plan: &Plan, st: &mut Stats) -> Verdict {
    let mut dg = 0;
    let mut did = false;
    for op in &plan.ops {
        let mut p = plan.clone();
        p.ops = vec![op.clone()];
        p.clients = 1;
        p.ops[0].client = 0;
        let bound = work_bound(plan, op);
        let what = format!("operation {} ({}) on {} vertexes", op.uid, op.k.name(), op_size(plan, op));
        match run_child(&p, bound) {
            ChildEnd::Done(b) => {
                let out = dec_run(&b);
                let r = &out.recs[0];
                st.count("computations", 1);
                st.count("simulated steps", r.steps);
                st.count(if r.status == 1 { "computations returned" } else { "computations panicked" }, 1);
                st.op(op.k.name());
                if !matches!(op.k, K::Shape(..) | K::Edits(..)) {
                    st.max("largest share of the work bound used (ppm)", r.steps * 1_000_000 / bound);
                }
                st.trace(mix(digest_words(&r.words), r.steps));
                dg = mix(dg, mix(r.steps, digest_words(&r.words)));
                did |= r.edges > 20;
            }
            ChildEnd::Stall(m) => return fail("runaway", p, format!("{what}: {m}")),
            ChildEnd::Died { signal, .. } => return fail("died", p, format!("{what}: process died of signal {signal}")),
            ChildEnd::StdAbort { .. } => return Verdict::Harness(format!("{what}: standard library abort without an injected failure")),
            ChildEnd::Timeout => return Verdict::Harness(format!("{what}: wall-clock limit before work limit")),
            ChildEnd::Odd(c) => return Verdict::Harness(format!("{what}: child ended oddly ({c})")),
        }
    }
    st.fault_n("damaged stored values", plan.inputs.iter().flat_map(|i| &i.v).flatten().filter(|x| !x.0.is_finite() || x.0.abs() > 1e6 || (x.0 != 0.0 && x.0.abs() < 1e-12)).count() as u64);
    Verdict::Pass { digest: dg, nontrivial: did }
}

// ------------------------------------------------------------------ generation

pub fn mem_knobs(r: &mut Rng) -> MemKnobs {
    MemKnobs {
        base_off: (r.below(4096) * 16) as u64,
        pad_max: *r.pick(&[0, 0, 64, 512]),
        fill: *r.pick(&[0, 0xA5, 0xFF, 0x7F, 0x3F]),
        free: *r.pick(&[FreeMode::Quarantine, FreeMode::Lifo, FreeMode::Lifo, FreeMode::Fifo]),
        layout_seed: r.u64(),
        hash_seed: r.u64(),
        clock_base: r.u64() >> 20,
    }
}

pub fn sched_knobs(r: &mut Rng, clients: usize) -> SchedKnobs {
    if clients < 2 {
        return SchedKnobs::none();
    }
    SchedKnobs {
        seed: r.u64(),
        mean_gap: *r.pick(&[0.0, 15.0, 100.0, 600.0, 3000.0, 20000.0]),
        boundary_prob: *r.pick(&[0.1, 0.5, 0.9]),
        max_switches: *r.pick(&[2, 8, 60, 1500]),
    }
}

fn view_fl(r: &mut Rng, user: bool) -> Fl {
    let (a, b, c, d, e) = (r.below(4) as u8, r.below(4) as u8, r.chance(0.5), r.below(16) as u8, r.chance(0.4));
    if user { Fl::UView(a, b, c, d, e) } else { Fl::View(a, b, c, d, e) }
}

fn flavours(r: &mut Rng) -> (Fl, Fl) {
    loop {
        let one = |r: &mut Rng| match r.below(8) {
            0 => Fl::Lib,
            1..=3 => Fl::User,
            4 | 5 => view_fl(r, false),
            _ => view_fl(r, true),
        };
        let p = (one(r), one(r));
        if glue::pair_ok(p.0, p.1) {
            return p;
        }
    }
}

pub fn damage(p: &mut Input, r: &mut Rng) {
    if p.is_empty() {
        return;
    }
    let n = *r.pick(&[1, 1, 1, 2, 3, 6]);
    for _ in 0..n {
        let i = r.below(p.len());
        let k = r.below(3);
        let v = p.v[i][k].0;
        p.v[i][k].0 = match r.below(10) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            3 => f64::MAX,
            4 => f64::MIN_POSITIVE * 0.5,
            5 => -f64::MAX * 0.25,
            6 | 7 => f64::from_bits(v.to_bits() ^ (1u64 << r.below(64))),
            8 => *r.pick(&[1e300, 1e154, 1e100, 1e16, 1e-300, 1e-16]),
            _ => f64::from_bits(r.u64()),
        };
    }
}

pub fn generate(prop: &str, seed: u64, run: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(mix(mix(seed, run), crate::rng::fnv(prop.as_bytes())));
    let r = &mut r;
    let big = if thorough { 0.08 } else { 0.04 };
    let mut uid = 0;
    let mut next = || {
        uid += 1;
        uid
    };
    let mut plan = Plan {
        prop: prop.into(),
        seed,
        run,
        clients: 1,
        first: 0,
        inputs: vec![],
        ops: vec![],
        sched: SchedKnobs::none(),
        switches: None,
        mem: mem_knobs(r),
    };
    let blank = |uid: u32, client: usize, k: K, a: usize, b: usize| Op {
        uid,
        client,
        k,
        a,
        b,
        fa: Fl::Lib,
        fb: Fl::Lib,
        private: false,
        fault: Fault::None,
        nested: None,
    };
    match prop {
        "C04" | "C05" => {
            plan.clients = *r.pick(&[1, 2, 2, 2, 3, 4]);
            plan.first = r.below(plan.clients);
            let ni = r.range(2, 6) as usize;
            plan.inputs = genr::inputs(r, ni, big);
            // one thing that fails, over and over, in one process: what adds up shows
            let storm = r.chance(if prop == "C05" { 0.05 } else { 0.02 });
            if storm {
                plan.clients = *r.pick(&[1, 1, 2]);
                plan.first = 0;
                for i in plan.inputs.iter_mut() {
                    i.v.truncate(10);
                }
                plan.inputs.truncate(2);
            }
            let ni = plan.inputs.len();
            let long = storm || r.chance(0.06);
            let nops = if storm { r.range(80, 160) } else if long { r.range(40, 140) } else { r.range(3, 16) } as usize;
            // a few computations repeated over many inputs, or anything goes
            let focus: Option<Vec<K>> = if storm || r.chance(0.5) {
                let n = r.range(1, 3);
                let mut f: Vec<K> = (0..n).map(|_| genr::query(r, 1)).collect();
                if r.chance(0.25) {
                    f.push(K::SelfIntr(*r.pick(&[0, 0, 1, 2]), F(1e-5), genr::ix(r)));
                    f.push(genr::offset_k(r));
                }
                Some(f)
            } else {
                None
            };
            let fault_p = if storm { 0.8 } else if prop == "C05" { *r.pick(&[0.3, 0.6]) } else { *r.pick(&[0.0, 0.0, 0.15]) };
            let stop_p = *r.pick(&[0.0, 0.4, 0.7]);
            let storage = prop == "C05" && r.chance(0.5);
            let private_p = *r.pick(&[0.0, 0.3, 1.0]);
            let mut pending: Vec<Op> = vec![];
            for _ in 0..nops {
                let client = r.below(plan.clients);
                let k = match &focus {
                    Some(f) if r.chance(0.8) => r.pick(f).clone(),
                    _ => genr::query(r, 1),
                };
                let mut op = blank(next(), client, k, r.below(ni), r.below(ni));
                op.private = r.chance(private_p);
                if storage && r.chance(0.7) {
                    let (a, b) = if r.chance(0.8) { (Fl::User, Fl::User) } else { (Fl::Lib, Fl::User) };
                    op.fa = a;
                    op.fb = b;
                }
                // a visitor that stops is ordinary use
                let stop = matches!(op.k, K::SelfIntr(..)) && r.chance(stop_p);
                if stop || r.chance(fault_p) {
                    let frac = F(r.f());
                    let mut kinds = vec![0, 0, 1];
                    if op.fa != Fl::Lib || op.fb != Fl::Lib {
                        kinds.extend([2, 2, 2]);
                    }
                    if op.k.visits() {
                        kinds.extend([3, 4, 4]);
                    }
                    op.fault = match r.pick(&kinds) {
                        0 => Fault::Alloc { at: 0, frac, sticky: false },
                        1 => Fault::Alloc { at: 0, frac, sticky: true },
                        2 => Fault::Access { at: 0, frac },
                        3 => Fault::Stop { at: 0, frac },
                        _ => Fault::VisitPanic { at: 0, frac },
                    };
                    if stop {
                        op.fault = Fault::Stop { at: 0, frac };
                    }
                    if matches!(op.fault, Fault::Stop { .. }) && !matches!(op.k, K::SelfIntr(..)) {
                        op.fault = Fault::None;
                    }
                    // often ask for the same computation again right after the failure
                    if r.chance(if storm { 0.15 } else { 0.6 }) {
                        let mut again = op.clone();
                        again.uid = next();
                        again.fault = Fault::None;
                        if r.chance(0.3) {
                            again.a = r.below(ni);
                        }
                        pending.push(again);
                    }
                }
                plan.ops.push(op);
                plan.ops.append(&mut pending);
            }
            plan.sched = sched_knobs(r, plan.clients);
        }
        "C06" => {
            plan.clients = *r.pick(&[1, 1, 2, 3]);
            plan.first = r.below(plan.clients);
            let ni = r.range(1, 4) as usize;
            plan.inputs = genr::inputs(r, ni, big);
            let storm = r.chance(0.03);
            if storm {
                for i in plan.inputs.iter_mut() {
                    i.v.truncate(10);
                }
            }
            let nops = if storm { r.range(60, 160) } else { r.range(2, 10) } as usize;
            for _ in 0..nops {
                let inc = *r.pick(&[0u8, 0, 1, 2]);
                let k = K::SelfIntr(inc, if r.chance(0.8) { F(1e-5) } else { genr::eps(r) }, genr::ix(r));
                let mut op = blank(next(), r.below(plan.clients), k, r.below(ni), r.below(ni));
                op.private = r.chance(0.3);
                if r.chance(0.25) {
                    op.fa = Fl::User;
                    op.fb = Fl::User;
                }
                let frac = F(if r.chance(0.3) { *r.pick(&[0.0, 0.9999]) } else { r.f() });
                op.fault = match r.weighted(&[3, 8, 1, 1]) {
                    0 => Fault::None,
                    1 => Fault::Stop { at: 0, frac },
                    2 => Fault::VisitPanic { at: 0, frac },
                    _ => Fault::Alloc { at: 0, frac, sticky: false },
                };
                if r.chance(0.3) {
                    op.nested = Some(Nested { at: 0, k: nested_query(r), a: r.below(ni), b: r.below(ni) });
                }
                plan.ops.push(op);
            }
            plan.sched = sched_knobs(r, plan.clients);
        }
        "C07" => {
            let ni = r.range(1, 4) as usize;
            plan.inputs = genr::inputs(r, ni, big);
            for i in plan.inputs.iter_mut() {
                // half of the polylines can be presented as views
                if r.chance(0.5) && i.len() >= 2 {
                    i.closed = false;
                    let l = i.len();
                    i.v[l - 1][2] = F(0.0);
                }
            }
            let nops = r.range(2, 8) as usize;
            for _ in 0..nops {
                let k = genr::query(r, 1);
                let k = if matches!(k, K::Shape(..)) { genr::offset_k(r) } else { k };
                let mut op = blank(next(), 0, k, r.below(ni), r.below(ni));
                let (a, b) = flavours(r);
                let norm = |fl: Fl, i: &Input| match fl {
                    Fl::View(..) if !glue::viewable(i) => Fl::Lib,
                    Fl::UView(..) if !glue::viewable(i) => Fl::User,
                    f => f,
                };
                op.fa = norm(a, &plan.inputs[op.a]);
                op.fb = norm(b, &plan.inputs[op.b]);
                if !glue::pair_ok(op.fa, op.fb) {
                    op.fa = Fl::User;
                    op.fb = Fl::User;
                }
                op.private = r.chance(0.5);
                if r.chance(0.3) {
                    op.fault = Fault::Access { at: 0, frac: F(r.f()) };
                }
                plan.ops.push(op);
            }
        }
        "C10" => {
            let ni = r.range(1, 5) as usize;
            plan.inputs = genr::inputs(r, ni, big);
            let nops = r.range(1, 4) as usize;
            for _ in 0..nops {
                let k = match r.below(6) {
                    0 => K::Index(r.chance(0.5)),
                    1 => loop {
                        let k = genr::query(r, 0);
                        if has_index(&k) {
                            break k;
                        }
                    },
                    _ => coherent_shape_k(r, ni),
                };
                let mut op = blank(next(), 0, k, r.below(ni), r.below(ni));
                if matches!(op.k, K::Shape(..)) && r.chance(0.3) {
                    op.fault = Fault::Alloc { at: 0, frac: F(r.f()), sticky: false };
                }
                plan.ops.push(op);
            }
        }
        "C14" => {
            let ni = r.range(1, 3) as usize;
            plan.inputs = genr::inputs(r, ni, 0.0);
            for i in 0..ni {
                if r.chance(0.85) {
                    damage(&mut plan.inputs[i], r);
                }
            }
            let nops = r.range(1, 4) as usize;
            for _ in 0..nops {
                let mut k = match r.below(16) {
                    0 | 1 => genr::math_k(r, 0.5),
                    2 | 3 => damaged_selection(r, &plan.inputs),
                    _ => genr::query(r, 1),
                };
                if matches!(k, K::ArcsToLines(_)) || r.chance(0.02) {
                    k = K::ArcsToLines(F(*r.pick(&[1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.0, -1e-3, f64::MIN_POSITIVE, 1e-300, 1e-24])));
                }
                if r.chance(0.15) {
                    k = wild_params(k, r);
                }
                let mut op = blank(next(), 0, k, r.below(ni), r.below(ni));
                op.private = true;
                plan.ops.push(op);
            }
        }
        _ => unreachable!(),
    }
    plan
}

/// A detached selection whose members were damaged one by one.
fn damaged_selection(r: &mut Rng, inputs: &[Input]) -> K {
    let i = &inputs[r.below(inputs.len())];
    let n = i.v.len() as u32;
    let vx = |r: &mut Rng| if n > 0 { i.v[r.below(n as usize)] } else { [F(0.0); 3] };
    let ix = |r: &mut Rng| match r.below(6) {
        0 => n,
        1 => n + r.below(3) as u32,
        2 => u32::MAX - r.below(9) as u32,
        3 => 1 << r.below(31),
        _ => r.below(n as usize + 1) as u32,
    };
    let wild = |r: &mut Rng, x: F| match r.below(8) {
        0 => F(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 1e-300, f64::MAX])),
        1 => F(f64::from_bits(x.0.to_bits() ^ (1 << r.below(64)))),
        _ => x,
    };
    let (a, b) = (vx(r), vx(r));
    let (s, o) = (ix(r), ix(r));
    K::Validate(s, o, wild(r, a[0]), wild(r, a[1]), wild(r, a[2]), wild(r, a[2]), wild(r, b[0]), wild(r, b[1]))
}

fn has_index(k: &K) -> bool {
    matches!(k, K::SelfIntr(..) | K::FindIntr(..) | K::Offset(..) | K::Bool(..))
}

/// The same computation, left to build its own index.
fn own_index(k: &K) -> K {
    match k.clone() {
        K::SelfIntr(a, b, Ix::Approx | Ix::Shared) => K::SelfIntr(a, b, Ix::None),
        K::FindIntr(a, Ix::Approx | Ix::Shared) => K::FindIntr(a, Ix::None),
        K::Offset(a, b, c, d, e, Ix::Approx | Ix::Shared) => K::Offset(a, b, c, d, e, Ix::None),
        K::Bool(a, b, Ix::Approx | Ix::Shared) => K::Bool(a, b, Ix::None),
        k => k,
    }
}

fn coherent_shape_k(r: &mut Rng, ni: usize) -> K {
    let K::Shape(ids, mut st, a, b, c) = genr::shape_k(r, ni) else { unreachable!() };
    for s in st.iter_mut() {
        match r.below(4) {
            0 => *s = glue::ShapeStep::Twin(F(genr::dist(r).0 * 0.5)),
            1 => *s = glue::ShapeStep::Try(F(genr::dist(r).0 * 0.5)),
            _ => {}
        }
    }
    K::Shape(ids, st, a, b, c)
}

fn nested_query(r: &mut Rng) -> K {
    loop {
        let k = genr::query(r, 0);
        if !matches!(k, K::Shape(..)) && !uses_shared(&k) {
            return k;
        }
    }
}

fn wild(r: &mut Rng) -> F {
    F(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e300, -1e300, 1e-300, 1e16, -1.0]))
}

fn wild_params(k: K, r: &mut Rng) -> K {
    match k {
        K::Offset(d, s, a, b, c, i) => match r.below(4) {
            0 => K::Offset(wild(r), s, a, b, c, i),
            1 => K::Offset(d, s, wild(r), b, c, Ix::None),
            2 => K::Offset(d, s, a, wild(r), c, Ix::None),
            _ => K::Offset(d, s, a, b, wild(r), Ix::None),
        },
        K::Bool(o, _, _) => K::Bool(o, wild(r), Ix::None),
        K::FindIntr(..) => K::FindIntr(wild(r), Ix::None),
        K::SelfIntr(m, ..) => K::SelfIntr(m, wild(r), Ix::None),
        K::Wn(..) => K::Wn(wild(r), wild(r)),
        K::Closest(a, _, e) => K::Closest(a, wild(r), e),
        K::RemRepeat(_) => K::RemRepeat(wild(r)),
        K::RemRedundant(_) => K::RemRedundant(wild(r)),
        K::PtAtLen(_) => K::PtAtLen(wild(r)),
        K::ArcsToLines(_) => K::ArcsToLines(wild(r)),
        K::Seg(m, x, _, e) => K::Seg(m, x, wild(r), e),
        K::Slice(m, _, i, b, j, e, v) => K::Slice(m, wild(r), i, b, j, e, v),
        K::IndexQuery(e, a, b, c, _) => K::IndexQuery(e, a, b, c, wild(r)),
        K::RotStart(i, x, _, e) => K::RotStart(i, x, wild(r), e),
        K::Shape(a, b, _, d, e) => match r.below(3) {
            0 => K::Shape(a, b, wild(r), d, e),
            1 => K::Shape(a, vec![ShapeStepWild(r)], F(1e-5), d, e),
            _ => K::Shape(a, b, F(1e-5), wild(r), e),
        },
        k => k,
    }
}

#[allow(non_snake_case)]
fn ShapeStepWild(r: &mut Rng) -> glue::ShapeStep {
    glue::ShapeStep::Offset(wild(r))
}

// ------------------------------------------------------------------ minimisation

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let n = p.ops.len();
    // drop chunks of operations
    let mut size = n / 2;
    while size >= 1 {
        let mut i = 0;
        while i < n {
            let mut q = p.clone();
            q.ops.drain(i..(i + size).min(n));
            if !q.ops.is_empty() {
                out.push(q);
            }
            i += size;
        }
        size /= 2;
    }
    // drop hand-overs
    if let Some(sw) = &p.switches {
        let m = sw.len();
        if m > 0 {
            let mut q = p.clone();
            q.switches = Some(vec![]);
            out.push(q);
        }
        let mut size = m / 2;
        while size >= 1 {
            let mut i = 0;
            while i < m {
                let mut q = p.clone();
                q.switches.as_mut().unwrap().drain(i..(i + size).min(m));
                out.push(q);
                i += size;
            }
            size /= 2;
        }
    }
    if p.clients > 1 {
        let mut q = p.clone();
        q.clients = 1;
        q.first = 0;
        q.switches = Some(vec![]);
        for o in q.ops.iter_mut() {
            o.client = 0;
        }
        out.push(q);
    }
    for i in 0..n {
        let o = &p.ops[i];
        if o.fault != Fault::None {
            let mut q = p.clone();
            q.ops[i].fault = Fault::None;
            out.push(q);
        }
        if o.nested.is_some() {
            let mut q = p.clone();
            q.ops[i].nested = None;
            out.push(q);
        }
        match &o.k {
            K::Edits(c, e) => {
                for j in 0..e.len() {
                    let mut e2 = e.clone();
                    e2.remove(j);
                    let mut q = p.clone();
                    q.ops[i].k = K::Edits(*c, e2);
                    out.push(q);
                }
            }
            K::Shape(ids, st, a, b, c) => {
                for j in 0..st.len() {
                    let mut s2 = st.clone();
                    s2.remove(j);
                    let mut q = p.clone();
                    q.ops[i].k = K::Shape(ids.clone(), s2, *a, *b, *c);
                    out.push(q);
                }
                for j in 0..ids.len() {
                    let mut s2 = ids.clone();
                    s2.remove(j);
                    let mut q = p.clone();
                    q.ops[i].k = K::Shape(s2, st.clone(), *a, *b, *c);
                    out.push(q);
                }
            }
            _ => {}
        }
    }
    // plainer memory
    let plain = MemKnobs::default();
    if serde_json::to_string(&p.mem).ok() != serde_json::to_string(&plain).ok() {
        let mut q = p.clone();
        q.mem = plain;
        out.push(q);
    }
    // smaller inputs
    for i in 0..p.inputs.len() {
        let m = p.inputs[i].len();
        let mut size = m / 2;
        while size >= 1 {
            let mut j = 0;
            while j < m {
                let mut q = p.clone();
                q.inputs[i].v.drain(j..(j + size).min(m));
                out.push(q);
                j += size;
            }
            size /= 2;
        }
        for j in 0..m.min(24) {
            if p.inputs[i].v[j][2].0 != 0.0 {
                let mut q = p.clone();
                q.inputs[i].v[j][2] = F(0.0);
                out.push(q);
            }
        }
    }
    out
}

// ------------------------------------------------------------------ evidence texts

pub fn rule(prop: &str) -> String {
    let common = "seeded polylines (simple, self-intersecting, overlapping, degenerate, closely related siblings), tolerances and computations, run by 1-4 clients under a seeded preemptive scheduler with a seeded heap layout, hash keys and clock";
    let nt = match prop {
        "C04" => "non-trivial: at least two computations returned after real work and, with several clients, at least one was preempted inside a computation",
        "C05" => "non-trivial: an injected allocation, storage or visitor failure fired and another computation returned after real work",
        "C06" => "non-trivial: a visitor was visited at least once",
        "C07" => "non-trivial: simulated storage was read or a non-empty result produced",
        "C10" => "non-trivial: at least one computation returned after real work",
        _ => "non-trivial: a computation on damaged data executed more than 20 edges of library code",
    };
    format!("{common}; distinct by the hash of the hand-over sequence, results, visited items and step counts of the run; {nt}")
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec![
        "interleavings are sequentially consistent and change at instrumented edges, allocations, storage accesses and callbacks only; weak memory effects are not simulated".to_string(),
        "library results are compared within one build on one machine".to_string(),
    ];
    if prop == "C14" {
        v.push("the work bound is 2e6 + 4e3 m^2 + 300 m^3 + 30 m^4 (m = n + 4) edges per computation on n vertexes, and 2e6 + 5 (n+2)^8 per shape offset step on n <= 8 vertexes".into());
    }
    if prop == "C05" {
        v.push("allocation failure reaches the caller as an unwinding panic (alloc error hook); memory obtained once and kept is not a leak, memory that grows with every repetition is".into());
    }
    v
}
