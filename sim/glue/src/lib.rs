//! Instrumented, non-generic entry points into the library under test.  Everything that has to be
//! instantiated from the library's generics is instantiated here, so that the simulator's edge
//! callbacks cover it.  This crate also holds the simulated user storage and user result type.
#![allow(static_mut_refs, clippy::field_reassign_with_default)]
use cavalier_contours::core::{Control, math::Vector2};
use cavalier_contours::polyline::internal::{pline_intersects, pline_offset};
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::{Shape, ShapeOffsetOptions};
use cavalier_contours::static_aabb2d_index::{Control as ACtl, StaticAABB2DIndex};
use serde::{Deserialize, Serialize};

pub mod codec;
pub mod cref;
pub mod stor;

// ------------------------------------------------------------------ seams

#[derive(Clone, Copy)]
pub struct Hooks {
    /// one word of an encoded result
    pub word: fn(u64),
    /// an access to simulated storage: kind, index, length (may panic: an injected storage fault)
    pub access: fn(u32, usize, usize),
    /// a visitor invocation, with its encoded item; returns Some(value) to stop
    pub visit: fn(&[u64]) -> Option<u64>,
    /// an invariant judged inside the instrumented code is broken
    pub complain: fn(&str),
    /// the computation goes on with this many vertexes (its own earlier results)
    /// (shape or not); false: go no further
    pub size: fn(usize, bool) -> bool,
}

fn nop_word(_: u64) {}
fn nop_access(_: u32, _: usize, _: usize) {}
fn nop_visit(_: &[u64]) -> Option<u64> {
    None
}
fn nop_complain(_: &str) {}
fn nop_size(_: usize, _: bool) -> bool {
    true
}

static mut HOOKS: Hooks = Hooks { word: nop_word, access: nop_access, visit: nop_visit, complain: nop_complain, size: nop_size };

pub fn set_hooks(h: Hooks) {
    unsafe { HOOKS = h }
}

fn w(x: u64) {
    unsafe { (HOOKS.word)(x) }
}
fn access(kind: u32, i: usize, n: usize) {
    unsafe { (HOOKS.access)(kind, i, n) }
}
fn size(n: usize, shape: bool) -> bool {
    unsafe { (HOOKS.size)(n, shape) }
}
fn complain(s: &str) {
    if !MUTE.get() {
        unsafe { (HOOKS.complain)(s) }
    }
}

thread_local! {
    /// the rest of this operation works on something the library, with its assertions, refuses
    static MUTE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn fbits(x: f64) -> u64 {
    if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() }
}
fn wf(x: f64) {
    w(fbits(x))
}
fn wv(v: PlineVertex<f64>) {
    wf(v.x);
    wf(v.y);
    wf(v.bulge);
}
fn wp(v: Vector2<f64>) {
    wf(v.x);
    wf(v.y);
}
fn wpl<P: PlineSource<Num = f64> + ?Sized>(p: &P) {
    w(0x504C);
    let n = p.vertex_count();
    w(n as u64);
    w(p.is_closed() as u64);
    for i in 0..n {
        wv(p.at(i));
    }
}
fn wopt_pl<P: PlineSource<Num = f64>>(p: &Option<P>) {
    match p {
        None => w(0x4E4F),
        Some(p) => wpl(p),
    }
}
fn widx(ix: &StaticAABB2DIndex<f64>) {
    w(0x4958);
    w(ix.count() as u64);
    match ix.bounds() {
        None => w(0),
        Some(b) => {
            w(1);
            for x in [b.min_x, b.min_y, b.max_x, b.max_y] {
                wf(x);
            }
        }
    }
    for (i, b) in ix.item_indices().iter().zip(ix.item_boxes().iter()) {
        w(*i as u64);
        for x in [b.min_x, b.min_y, b.max_x, b.max_y] {
            wf(x);
        }
    }
}
fn wview(d: &PlineViewData<f64>) {
    w(d.start_index as u64);
    w(d.end_index_offset as u64);
    wv(d.updated_start);
    wf(d.updated_end_bulge);
    wp(d.end_point);
    w(d.inverted_direction as u64);
}

// ------------------------------------------------------------------ exact floats in replay files

#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);

impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Serialize for F {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_finite() {
            s.serialize_str(&format!("{:?}", self.0))
        } else {
            s.serialize_str(&format!("bits:{:016x}", self.0.to_bits()))
        }
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(h) = s.strip_prefix("bits:") {
            u64::from_str_radix(h, 16).map(|b| F(f64::from_bits(b))).map_err(serde::de::Error::custom)
        } else {
            s.parse().map(F).map_err(serde::de::Error::custom)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Input {
    pub closed: bool,
    pub v: Vec<[F; 3]>,
}

impl Input {
    pub fn new(closed: bool) -> Input {
        Input { closed, v: vec![] }
    }
    pub fn add(&mut self, x: f64, y: f64, b: f64) {
        self.v.push([F(x), F(y), F(b)]);
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
}

// ------------------------------------------------------------------ simulated user storage

/// A user's read-only polyline: vertexes live in small chunks, every access is reported.
pub struct UserPline {
    chunks: Vec<Vec<[f64; 3]>>,
    n: usize,
    closed: bool,
}

const CHUNK: usize = 3;

impl UserPline {
    pub fn new(v: &[[F; 3]], closed: bool) -> UserPline {
        let mut chunks = Vec::new();
        for c in v.chunks(CHUNK) {
            chunks.push(c.iter().map(|a| [a[0].0, a[1].0, a[2].0]).collect::<Vec<_>>());
        }
        UserPline { chunks, n: v.len(), closed }
    }
    fn raw(&self, i: usize) -> PlineVertex<f64> {
        let a = self.chunks[i / CHUNK][i % CHUNK];
        PlineVertex::new(a[0], a[1], a[2])
    }
}

impl PlineSource for UserPline {
    type Num = f64;
    type OutputPolyline = OutPline;
    fn vertex_count(&self) -> usize {
        access(0, 0, self.n);
        self.n
    }
    fn is_closed(&self) -> bool {
        access(1, 0, self.n);
        self.closed
    }
    fn get(&self, index: usize) -> Option<PlineVertex<f64>> {
        access(2, index, self.n);
        if index < self.n { Some(self.raw(index)) } else { None }
    }
    fn at(&self, index: usize) -> PlineVertex<f64> {
        access(3, index, self.n);
        assert!(index < self.n, "user storage: index {index} out of bounds for {}", self.n);
        self.raw(index)
    }
}

/// A user's result polyline: structure of arrays, only the required methods.
#[derive(Clone)]
pub struct OutPline {
    x: Vec<f64>,
    y: Vec<f64>,
    b: Vec<f64>,
    closed: bool,
}

impl OutPline {
    /// Room for all three numbers of a vertex before any is stored: a failure leaves nothing half done.
    fn room(&mut self, n: usize) {
        self.x.reserve(n);
        self.y.reserve(n);
        self.b.reserve(n);
    }
}

impl PlineSource for OutPline {
    type Num = f64;
    type OutputPolyline = OutPline;
    fn vertex_count(&self) -> usize {
        access(4, 0, self.x.len());
        self.x.len()
    }
    fn is_closed(&self) -> bool {
        self.closed
    }
    fn get(&self, i: usize) -> Option<PlineVertex<f64>> {
        access(5, i, self.x.len());
        if i < self.x.len() { Some(PlineVertex::new(self.x[i], self.y[i], self.b[i])) } else { None }
    }
    fn at(&self, i: usize) -> PlineVertex<f64> {
        access(6, i, self.x.len());
        PlineVertex::new(self.x[i], self.y[i], self.b[i])
    }
}

impl PlineSourceMut for OutPline {
    fn set_vertex(&mut self, i: usize, v: PlineVertex<f64>) {
        access(7, i, self.x.len());
        self.x[i] = v.x;
        self.y[i] = v.y;
        self.b[i] = v.bulge;
    }
    fn insert_vertex(&mut self, i: usize, v: PlineVertex<f64>) {
        access(8, i, self.x.len());
        self.room(1);
        self.x.insert(i, v.x);
        self.y.insert(i, v.y);
        self.b.insert(i, v.bulge);
    }
    fn remove(&mut self, i: usize) -> PlineVertex<f64> {
        access(9, i, self.x.len());
        PlineVertex::new(self.x.remove(i), self.y.remove(i), self.b.remove(i))
    }
    fn clear(&mut self) {
        access(10, 0, self.x.len());
        self.x.clear();
        self.y.clear();
        self.b.clear();
    }
    fn add_vertex(&mut self, v: PlineVertex<f64>) {
        access(11, self.x.len(), self.x.len());
        self.room(1);
        self.x.push(v.x);
        self.y.push(v.y);
        self.b.push(v.bulge);
    }
    fn extend_vertexes<I>(&mut self, vs: I)
    where
        I: IntoIterator<Item = PlineVertex<f64>>,
    {
        for v in vs {
            self.add_vertex(v);
        }
    }
    fn reserve(&mut self, n: usize) {
        access(12, n, self.x.len());
        self.room(n);
    }
    fn set_is_closed(&mut self, c: bool) {
        access(13, c as usize, self.x.len());
        self.closed = c;
    }
}

impl PlineCreation for OutPline {
    fn with_capacity(c: usize, closed: bool) -> Self {
        access(14, c, 0);
        OutPline { x: Vec::with_capacity(c.min(1 << 20)), y: Vec::new(), b: Vec::new(), closed }
    }
    fn from_iter<I>(iter: I, closed: bool) -> Self
    where
        I: Iterator<Item = PlineVertex<f64>>,
    {
        let mut r = Self::with_capacity(0, closed);
        r.extend_vertexes(iter);
        r
    }
}

// ------------------------------------------------------------------ inputs in their storages

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Fl {
    Lib,
    User,
    /// a view of a library polyline; (junk before, junk after, closed source, rotation, inverted)
    View(u8, u8, bool, u8, bool),
    UView(u8, u8, bool, u8, bool),
}

pub enum Src {
    Lib(Polyline<f64>),
    User(UserPline),
    View(Polyline<f64>, PlineViewData<f64>),
    UView(UserPline, PlineViewData<f64>),
}

/// Can this input be presented as a view?
pub fn viewable(inp: &Input) -> bool {
    !inp.closed && inp.len() >= 2 && inp.v[inp.len() - 1][2].0.to_bits() == 0
}

fn view_source(inp: &Input, before: u8, after: u8, closed: bool, rot: u8, inv: bool) -> (Vec<[F; 3]>, bool, PlineViewData<f64>) {
    let n = inp.len();
    let mut seq: Vec<[F; 3]> = inp.v.clone();
    if inv {
        // reversed order; bulge of a segment moves to its other end, negated
        seq = (0..n)
            .map(|i| {
                let v = inp.v[n - 1 - i];
                let b = if i + 1 < n { -inp.v[n - 2 - i][2].0 } else { 0.0 };
                [v[0], v[1], F(b)]
            })
            .collect();
    }
    let mut all = Vec::with_capacity(n + before as usize + after as usize);
    for i in 0..before {
        all.push([F(seq[0][0].0 - 1.0 - i as f64), F(seq[0][1].0 + 0.5 * i as f64), F(0.25)]);
    }
    all.extend_from_slice(&seq);
    for i in 0..after {
        all.push([F(seq[n - 1][0].0 + 2.0 + i as f64), F(seq[n - 1][1].0 - 0.5 * i as f64), F(-0.25)]);
    }
    let m = all.len();
    let mut start = before as usize;
    if closed && m > 0 {
        let r = rot as usize % m;
        all.rotate_left(r);
        start = (start + m - r) % m;
    }
    let f = |a: [F; 3]| PlineVertex::new(a[0].0, a[1].0, a[2].0);
    let data = PlineViewData {
        start_index: start,
        end_index_offset: n - 2,
        updated_start: f(seq[0]),
        updated_end_bulge: seq[n - 2][2].0,
        end_point: Vector2::new(seq[n - 1][0].0, seq[n - 1][1].0),
        inverted_direction: inv,
    };
    (all, closed, data)
}

fn lib_pline(v: &[[F; 3]], closed: bool) -> Polyline<f64> {
    let mut p = Polyline::with_capacity(v.len(), closed);
    for a in v {
        p.vertex_data.push(PlineVertex::new(a[0].0, a[1].0, a[2].0));
    }
    p
}

pub fn build(inp: &Input, fl: Fl) -> Src {
    match fl {
        Fl::View(b, a, c, r, i) if viewable(inp) => {
            let (v, closed, d) = view_source(inp, b, a, c, r, i);
            Src::View(lib_pline(&v, closed), d)
        }
        Fl::UView(b, a, c, r, i) if viewable(inp) => {
            let (v, closed, d) = view_source(inp, b, a, c, r, i);
            Src::UView(UserPline::new(&v, closed), d)
        }
        Fl::User | Fl::UView(..) => Src::User(UserPline::new(&inp.v, inp.closed)),
        _ => Src::Lib(lib_pline(&inp.v, inp.closed)),
    }
}

/// The stored content, read past the library and past the hooks.
pub fn src_bits(s: &Src, out: &mut dyn FnMut(u64)) {
    let put = |a: [f64; 3], out: &mut dyn FnMut(u64)| {
        for x in a {
            out(x.to_bits());
        }
    };
    match s {
        Src::Lib(p) | Src::View(p, _) => {
            out(p.is_closed as u64);
            for v in &p.vertex_data {
                put([v.x, v.y, v.bulge], out);
            }
        }
        Src::User(u) | Src::UView(u, _) => {
            out(u.closed as u64);
            for c in &u.chunks {
                for a in c {
                    put(*a, out);
                }
            }
        }
    }
    if let Src::View(_, d) | Src::UView(_, d) = s {
        out(d.start_index as u64);
        out(d.end_index_offset as u64);
        put([d.updated_start.x, d.updated_start.y, d.updated_start.bulge], out);
        put([d.updated_end_bulge, d.end_point.x, d.end_point.y], out);
        out(d.inverted_direction as u64);
    }
}

pub type Index = StaticAABB2DIndex<f64>;

pub fn build_index(s: &Src, exact: bool) -> Option<Index> {
    fn g<P: PlineSource<Num = f64>>(p: &P, exact: bool) -> Option<Index> {
        if p.vertex_count() < 2 {
            return None;
        }
        Some(if exact { p.create_aabb_index() } else { p.create_approx_aabb_index() })
    }
    match s {
        Src::Lib(p) => g(p, exact),
        Src::User(p) => g(p, exact),
        Src::View(p, d) => g(&PlineView::new(p, *d), exact),
        Src::UView(p, d) => g(&PlineView::new(p, *d), exact),
    }
}

// ------------------------------------------------------------------ operations

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ix {
    /// options entirely defaulted (the short-hand method)
    Short,
    None,
    Approx,
    Exact,
    /// index shared by all clients, built when the run starts
    Shared,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Set(u32, F, F, F),
    SetLast(F, F, F),
    Insert(u32, F, F, F),
    Remove(u32),
    RemoveLast,
    Clear,
    Add(F, F, F),
    AddArr(F, F, F),
    AddOrReplace(F, F, F, F),
    ExtendB,
    ExtendBRemoveRepeat(F),
    ExtendVertexes(u32),
    Reserve(u32),
    Closed(bool),
    Scale(F),
    Translate(F, F),
    Invert,
    /// write directly to the public vertex storage
    Poke(u32, F, F, F),
    /// a query in the middle of editing
    Query(Box<K>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ShapeStep {
    Offset(F),
    /// offset but keep the original (result only recorded)
    Peek(F),
    CloneIt,
    /// crash: only the polylines survive, everything else is rebuilt
    Restart,
    /// an offset that may fail half way; the shape stays
    Try(F),
    /// a twin rebuilt from the polylines must be the same and offset the same
    Twin(F),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum K {
    Area,
    PathLen,
    Extents,
    Orient,
    Iter,
    Wn(F, F),
    Closest(F, F, F),
    Index(bool),
    IndexQuery(bool, F, F, F, F),
    RemRepeat(F),
    RemRedundant(F),
    RotStart(u32, F, F, F),
    ArcsToLines(F),
    PtAtLen(F),
    Copy(u8, F),
    RawOffset(F, F),
    OffsetParts(F, bool),
    SelfIntr(u8, F, Ix),
    AllSelfBasic(bool, F),
    FindIntr(F, Ix),
    Offset(F, bool, F, F, F, Ix),
    Bool(u8, F, Ix),
    FuzzyEq(F),
    Wrap(u32, u32),
    Slice(u8, F, u32, F, u32, F, bool),
    Validate(u32, u32, F, F, F, F, F, F),
    Seg(u8, F, F, F),
    Edits(bool, Vec<Edit>),
    Shape(Vec<u32>, Vec<ShapeStep>, F, F, F),
    Seq(Vec<K>),
    /// the same through 32 bit floats
    Single(u8, F, F),
    /// the public scalar and vector math: which function, arguments, 32 bit floats
    Math(u8, [F; 8], bool),
}

impl K {
    pub fn name(&self) -> &'static str {
        match self {
            K::Area => "area",
            K::PathLen => "path_length",
            K::Extents => "extents",
            K::Orient => "orientation",
            K::Iter => "iterate",
            K::Wn(..) => "winding_number",
            K::Closest(..) => "closest_point",
            K::Index(_) => "create_aabb_index",
            K::IndexQuery(..) => "index_query",
            K::RemRepeat(_) => "remove_repeat_pos",
            K::RemRedundant(_) => "remove_redundant",
            K::RotStart(..) => "rotate_start",
            K::ArcsToLines(_) => "arcs_to_approx_lines",
            K::PtAtLen(_) => "find_point_at_path_length",
            K::Copy(..) => "create_from",
            K::RawOffset(..) => "raw_offset",
            K::OffsetParts(..) => "offset_parts",
            K::SelfIntr(..) => "visit_self_intersects",
            K::AllSelfBasic(..) => "all_self_intersects",
            K::FindIntr(..) => "find_intersects",
            K::Offset(..) => "parallel_offset",
            K::Bool(..) => "boolean",
            K::FuzzyEq(_) => "fuzzy_eq",
            K::Wrap(..) => "wrapping_index",
            K::Slice(..) => "slice_view",
            K::Validate(..) => "validate_view",
            K::Seg(..) => "segment_math",
            K::Edits(..) => "edits",
            K::Shape(..) => "shape_offset",
            K::Seq(_) => "sequence",
            K::Single(..) => "single_precision",
            K::Math(..) => "core_math",
        }
    }
    pub fn uses_b(&self) -> bool {
        match self {
            K::FindIntr(..) | K::Bool(..) | K::FuzzyEq(_) => true,
            K::Edits(_, e) => e.iter().any(|e| match e {
                Edit::ExtendB | Edit::ExtendBRemoveRepeat(_) => true,
                Edit::Query(k) => k.uses_b(),
                _ => false,
            }),
            K::Seq(v) => v.iter().any(|k| k.uses_b()),
            K::Single(m, ..) => *m >= 2,
            _ => false,
        }
    }
    pub fn visits(&self) -> bool {
        match self {
            K::SelfIntr(..) | K::IndexQuery(..) => true,
            K::Seq(v) => v.iter().any(|k| k.visits()),
            _ => false,
        }
    }
}

pub fn bop(i: u8) -> BooleanOp {
    match i % 4 {
        0 => BooleanOp::Or,
        1 => BooleanOp::And,
        2 => BooleanOp::Not,
        _ => BooleanOp::Xor,
    }
}
fn inc(i: u8) -> SelfIntersectsInclude {
    match i % 3 {
        0 => SelfIntersectsInclude::All,
        1 => SelfIntersectsInclude::Local,
        _ => SelfIntersectsInclude::Global,
    }
}

struct Vis;
impl PlineIntersectVisitor<f64, Control<u64>> for Vis {
    fn visit_basic_intr(&mut self, i: PlineBasicIntersect<f64>) -> Control<u64> {
        let item = [1, i.start_index1 as u64, i.start_index2 as u64, fbits(i.point.x), fbits(i.point.y), 0, 0];
        match unsafe { (HOOKS.visit)(&item) } {
            None => Control::Continue,
            Some(v) => Control::Break(v),
        }
    }
    fn visit_overlapping_intr(&mut self, i: PlineOverlappingIntersect<f64>) -> Control<u64> {
        let item = [
            2,
            i.start_index1 as u64,
            i.start_index2 as u64,
            fbits(i.point1.x),
            fbits(i.point1.y),
            fbits(i.point2.x),
            fbits(i.point2.y),
        ];
        match unsafe { (HOOKS.visit)(&item) } {
            None => Control::Continue,
            Some(v) => Control::Break(v),
        }
    }
}

fn wctl(c: &Control<u64>) {
    match c {
        Control::Continue => w(0xC0),
        Control::Break(v) => {
            w(0xB0);
            w(*v);
        }
    }
}

pub struct Env<'a> {
    /// shared index of the first input, if the run built one
    pub shared_ix: Option<&'a Index>,
    pub inputs: &'a [Input],
}

fn choose<'a, P: PlineSource<Num = f64>>(p: &P, ix: Ix, env: &Env<'a>, own: &'a mut Option<Index>) -> Option<&'a Index> {
    match ix {
        Ix::Short | Ix::None => None,
        Ix::Shared if env.shared_ix.is_some() => env.shared_ix,
        _ => {
            if p.vertex_count() < 2 {
                return None;
            }
            *own = Some(if ix == Ix::Exact { p.create_aabb_index() } else { p.create_approx_aabb_index() });
            own.as_ref()
        }
    }
}

fn q1<P>(k: &K, p: &P, env: &Env)
where
    P: PlineSource<Num = f64>,
{
    match k {
        K::Area => wf(p.area()),
        K::PathLen => wf(p.path_length()),
        K::Extents => match p.extents() {
            None => w(0),
            Some(b) => {
                for x in [b.min_x, b.min_y, b.max_x, b.max_y] {
                    wf(x);
                }
            }
        },
        K::Orient => w(match p.orientation() {
            PlineOrientation::Open => 0,
            PlineOrientation::Clockwise => 1,
            PlineOrientation::CounterClockwise => 2,
        }),
        K::Iter => {
            w(p.segment_count() as u64);
            w(p.is_empty() as u64);
            for v in p.iter_vertexes() {
                wv(v);
            }
            for (a, b) in p.iter_segments() {
                wv(a);
                wv(b);
            }
            for (a, b) in p.iter_segment_indexes() {
                w(a as u64);
                w(b as u64);
            }
            for v in p.iter_vertexes().rev() {
                wv(v);
            }
            let mut it = p.iter_vertexes();
            let half = it.len() / 2;
            for _ in 0..half {
                let a = it.next();
                let b = it.next_back();
                w(a.is_some() as u64 * 2 + b.is_some() as u64);
            }
            w(it.len() as u64);
            let s = p.iter_segments();
            w(s.len() as u64);
            w(s.count() as u64);
            if let Some(v) = p.get(0) {
                wv(v);
            }
            w(p.get(p.vertex_count()).is_some() as u64);
            if p.vertex_count() > 0 {
                if let Some(v) = p.last() {
                    wv(v);
                }
            }
        }
        K::Wn(x, y) => w(p.winding_number(Vector2::new(x.0, y.0)) as i64 as u64),
        K::Closest(x, y, e) => match p.closest_point(Vector2::new(x.0, y.0), e.0) {
            None => w(0),
            Some(r) => {
                w(r.seg_start_index as u64);
                wp(r.seg_point);
                wf(r.distance);
            }
        },
        K::Index(exact) => {
            let ix = if *exact { p.create_aabb_index() } else { p.create_approx_aabb_index() };
            widx(&ix);
            let mut copy = Polyline::with_capacity(p.vertex_count(), p.is_closed());
            for i in 0..p.vertex_count() {
                copy.vertex_data.push(p.at(i));
            }
            if copy.vertex_data.iter().all(|v| v.x.is_finite() && v.y.is_finite() && v.bulge.is_finite()) {
                if let Some(m) = index_describes(&copy, &ix, !*exact) {
                    complain(&format!("{} index: {m}", if *exact { "exact" } else { "approximate" }));
                }
            }
        }
        K::IndexQuery(exact, a, b, c, d) => {
            let ix = if *exact { p.create_aabb_index() } else { p.create_approx_aabb_index() };
            let r = ix.query(a.0, b.0, c.0, d.0);
            w(r.len() as u64);
            for i in &r {
                w(*i as u64);
            }
            let mut stop = None;
            let mut vis = |i: usize| -> ACtl<u64> {
                match unsafe { (HOOKS.visit)(&[3, i as u64, 0, 0, 0, 0, 0]) } {
                    None => ACtl::Continue,
                    Some(v) => {
                        stop = Some(v);
                        ACtl::Break(v)
                    }
                }
            };
            match ix.visit_query(a.0, b.0, c.0, d.0, &mut vis) {
                ACtl::Continue => w(0xC0),
                ACtl::Break(v) => {
                    w(0xB0);
                    w(v);
                }
            }
        }
        K::RemRepeat(e) => wopt_pl(&p.remove_repeat_pos(e.0)),
        K::RemRedundant(e) => wopt_pl(&p.remove_redundant(e.0)),
        K::RotStart(i, x, y, e) => wopt_pl(&p.rotate_start(*i as usize, Vector2::new(x.0, y.0), e.0)),
        K::ArcsToLines(e) => {
            if lines_wanted(p, e.0) {
                wopt_pl(&p.arcs_to_approx_lines(e.0))
            }
        }
        K::PtAtLen(l) => {
            if p.vertex_count() == 0 {
                w(0xE);
                return;
            }
            match p.find_point_at_path_length(l.0) {
                Ok((i, q)) => {
                    w(i as u64);
                    wp(q);
                }
                Err(t) => {
                    w(0xE44);
                    wf(t);
                }
            }
        }
        K::Copy(m, e) => match m % 5 {
            0 => wpl(&P::OutputPolyline::create_from(p)),
            1 => wpl(&P::OutputPolyline::create_from_remove_repeat(p, e.0)),
            2 => {
                let mut o = P::OutputPolyline::with_capacity(p.vertex_count(), p.is_closed());
                o.extend(p);
                wpl(&o);
            }
            3 => {
                let mut o = P::OutputPolyline::empty();
                o.extend_remove_repeat(p, e.0);
                wpl(&o);
            }
            _ => {
                let mut o = P::OutputPolyline::from_iter(p.iter_vertexes(), p.is_closed());
                o.invert_direction_mut();
                wpl(&o);
            }
        },
        K::RawOffset(d, e) => {
            let o: P::OutputPolyline = pline_offset::create_raw_offset_polyline(p, d.0, e.0);
            wpl(&o);
            for s in pline_offset::create_untrimmed_raw_offset_segs(p, d.0) {
                wv(s.v1);
                wv(s.v2);
                wp(s.orig_v2_pos);
                w(s.collapsed_arc as u64);
            }
        }
        K::OffsetParts(d, dual) => {
            if p.vertex_count() < 2 {
                return;
            }
            let mut opts = PlineOffsetOptions::new();
            opts.handle_self_intersects = *dual;
            let ix = p.create_approx_aabb_index();
            let raw: P::OutputPolyline = pline_offset::create_raw_offset_polyline(p, d.0, opts.pos_equal_eps);
            if raw.vertex_count() < 2 {
                return;
            }
            let slices = if *dual {
                let dr: P::OutputPolyline = pline_offset::create_raw_offset_polyline(p, -d.0, opts.pos_equal_eps);
                if dr.vertex_count() < 2 {
                    return;
                }
                pline_offset::slices_from_dual_raw_offsets(p, &raw, &dr, &ix, d.0, &opts)
            } else {
                pline_offset::slices_from_raw_offset(p, &raw, &ix, d.0, &opts)
            };
            w(slices.len() as u64);
            for s in &slices {
                wview(s);
                wpl(&s.view(&raw));
            }
        }
        K::SelfIntr(i, e, ix) => {
            let r = if *ix == Ix::Short {
                p.visit_self_intersects(&mut Vis)
            } else {
                let mut own = None;
                let mut o = PlineSelfIntersectOptions::new();
                o.aabb_index = choose(p, *ix, env, &mut own);
                o.pos_equal_eps = e.0;
                o.include = inc(*i);
                p.visit_self_intersects_opt(&mut Vis, &o)
            };
            wctl(&r);
        }
        K::AllSelfBasic(over, e) => {
            let ix = p.create_approx_aabb_index();
            for i in pline_intersects::all_self_intersects_as_basic(p, &ix, *over, e.0) {
                w(i.start_index1 as u64);
                w(i.start_index2 as u64);
                wp(i.point);
            }
        }
        K::Offset(d, si, e1, e2, e3, ix) => {
            let r = if *ix == Ix::Short {
                p.parallel_offset(d.0)
            } else {
                let mut own = None;
                let mut o = PlineOffsetOptions::new();
                o.aabb_index = choose(p, *ix, env, &mut own);
                o.handle_self_intersects = *si;
                o.pos_equal_eps = e1.0;
                o.slice_join_eps = e2.0;
                o.offset_dist_eps = e3.0;
                p.parallel_offset_opt(d.0, &o)
            };
            w(r.len() as u64);
            for x in &r {
                wpl(x);
            }
        }
        K::Wrap(i, j) => {
            let n = p.vertex_count();
            if n == 0 {
                return;
            }
            let (i, j) = (*i as usize % n, *j as usize % n);
            for x in [
                p.next_wrapping_index(i),
                p.prev_wrapping_index(i),
                p.fwd_wrapping_dist(i, j),
                p.fwd_wrapping_index(i, j),
            ] {
                w(x as u64);
            }
        }
        K::Slice(mode, t1, i1, t2, i2, e, inv) => {
            if p.vertex_count() < 2 {
                return;
            }
            if let Some(d) = make_slice(p, *mode, t1.0, *i1, t2.0, *i2, e.0, *inv) {
                wview(&d);
                let v = PlineView::new(p, d);
                wpl(&v);
                wf(v.path_length());
                wf(v.area());
            } else {
                w(0x4E0);
            }
        }
        K::Validate(s, o, x, y, b, ub, ex, ey) => {
            // numbers from the top of the range stand for the top of the index range
            let wide = |i: u32| if i > 0xFFFF_0000 { usize::MAX - (u32::MAX - i) as usize } else { i as usize };
            let d = PlineViewData {
                start_index: wide(*s),
                end_index_offset: wide(*o),
                updated_start: PlineVertex::new(x.0, y.0, b.0),
                updated_end_bulge: ub.0,
                end_point: Vector2::new(ex.0, ey.0),
                inverted_direction: e_bit(*s),
            };
            let judged = contained(|| {
                w(match d.validate_for_source(p) {
                    ViewDataValidation::SourceHasNoSegments => 1,
                    ViewDataValidation::OffsetOutOfRange { .. } => 2,
                    ViewDataValidation::UpdatedStartNotOnSegment { .. } => 3,
                    ViewDataValidation::EndPointNotOnSegment { .. } => 4,
                    ViewDataValidation::EndPointOnFinalOffsetVertex { .. } => 5,
                    ViewDataValidation::UpdatedBulgeDoesNotMatch { .. } => 6,
                    ViewDataValidation::IsValid => 7,
                });
            });
            w(judged as u64);
            // read through it all the same
            contained(|| {
                let v = d.view(p);
                for i in [0, 1, d.end_index_offset, d.end_index_offset.wrapping_add(1), p.vertex_count()] {
                    let u = v.get(i);
                    w(u.is_some() as u64);
                }
            });
            if d.end_index_offset <= p.vertex_count() + 2 {
                contained(|| {
                    let v = PlineView::new(p, d);
                    wf(v.path_length());
                    wf(v.area());
                    if let Some(b) = v.extents() {
                        wf(b.min_x);
                    }
                });
            }
        }
        K::Seg(m, x, y, e) => {
            for (v1, v2) in p.iter_segments() {
                match m % 10 {
                    5 => {
                        let r = seg_split_at_point(v1, v2, Vector2::new(x.0, y.0), e.0);
                        wv(r.updated_start);
                        wv(r.split_vertex);
                    }
                    6 => wp(seg_tangent_vector(v1, v2, Vector2::new(x.0, y.0))),
                    7 => {
                        if !v1.bulge_is_zero() {
                            let (r, c) = seg_arc_radius_and_center(v1, v2);
                            wf(r);
                            wp(c);
                        }
                    }
                    8 => {
                        // against one segment of the caller's own
                        let u1 = PlineVertex::new(x.0, y.0, if v1.bulge_is_zero() { 0.5 } else { -v1.bulge });
                        wdebug(&pline_seg_intr(v1, v2, u1, PlineVertex::new(-y.0, x.0, 0.0), e.0));
                    }
                    9 => {
                        // against every other segment
                        for (u1, u2) in p.iter_segments().take(12) {
                            wdebug(&pline_seg_intr(v1, v2, u1, u2, e.0));
                        }
                    }
                    0 => wf(seg_length(v1, v2)),
                    1 => wp(seg_midpoint(v1, v2)),
                    2 => wp(seg_closest_point(v1, v2, Vector2::new(x.0, y.0), e.0)),
                    3 => {
                        let b = seg_bounding_box(v1, v2);
                        for q in [b.min_x, b.min_y, b.max_x, b.max_y] {
                            wf(q);
                        }
                    }
                    _ => {
                        let b = seg_fast_approx_bounding_box(v1, v2);
                        for q in [b.min_x, b.min_y, b.max_x, b.max_y] {
                            wf(q);
                        }
                    }
                }
            }
        }
        K::Seq(v) => {
            for k in v {
                q1(k, p, env);
                w(0x5E9);
            }
        }
        K::Shape(ids, steps, e1, e2, e3) => shape_run(ids, steps, *e1, *e2, *e3, env),
        K::Single(..) => single(k, p, p),
        K::Math(m, a, false) => math::<f64>(*m, &a.map(|x| x.0)),
        K::Math(m, a, true) => math::<f32>(*m, &a.map(|x| x.0 as f32)),
        K::FindIntr(..) | K::Bool(..) | K::FuzzyEq(_) | K::Edits(..) => {}
    }
}

fn wdebug(x: &impl std::fmt::Debug) {
    struct W(u64);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01B3);
            }
            Ok(())
        }
    }
    let mut h = W(0xCBF2_9CE4_8422_2325);
    let _ = std::fmt::write(&mut h, format_args!("{x:?}"));
    w(h.0);
}

pub const MATHS: u8 = 27;

fn math<T: cavalier_contours::core::traits::Real + std::fmt::Debug>(m: u8, a: &[T; 8]) {
    use cavalier_contours::core::math::*;
    let v = |i: usize| Vector2::new(a[i], a[i + 1]);
    let e = a[7];
    match m % MATHS {
        0 => wdebug(&normalize_radians(a[0])),
        1 => wdebug(&delta_angle(a[0], a[1])),
        2 => wdebug(&(delta_angle_signed(a[0], a[1], true), delta_angle_signed(a[0], a[1], false))),
        3 => wdebug(&(angle_is_between(a[0], a[1], a[2]), angle_is_between_eps(a[0], a[1], a[2], e))),
        4 => wdebug(&(angle_is_within_sweep(a[0], a[1], a[2]), angle_is_within_sweep_eps(a[0], a[1], a[2], e))),
        5 => {
            let four = T::from(4.0).unwrap();
            let d = (a[1] * a[1] - four * a[0] * a[2]).sqrt();
            wdebug(&quadratic_solutions(a[0], a[1], a[2], d))
        }
        6 => wdebug(&(dist_squared(v(0), v(2)), midpoint(v(0), v(2)))),
        7 => wdebug(&angle(v(0), v(2))),
        8 => wdebug(&point_on_circle(a[0], v(1), a[3])),
        9 => wdebug(&point_from_parametric(v(0), v(2), a[4])),
        10 => wdebug(&parametric_from_point(v(0), v(2), v(4), e)),
        11 => wdebug(&line_seg_closest_point(v(0), v(2), v(4))),
        12 => wdebug(&(is_left(v(0), v(2), v(4)), is_left_or_equal(v(0), v(2), v(4)))),
        13 => wdebug(&(is_left_or_coincident(v(0), v(2), v(4)), is_left_or_coincident_eps(v(0), v(2), v(4), e))),
        14 => wdebug(&(is_right_or_coincident(v(0), v(2), v(4)), is_right_or_coincident_eps(v(0), v(2), v(4), e))),
        15 => wdebug(&(point_within_arc_sweep(v(0), v(2), v(4), false, v(5), e), point_within_arc_sweep(v(0), v(2), v(4), true, v(5), e))),
        16 => wdebug(&bulge_from_angle(a[0])),
        17 => wdebug(&angle_from_bulge(a[0])),
        18 => wdebug(&min_max(a[0], a[1])),
        19 => wdebug(&circle_circle_intr(a[0], v(1), a[3], v(4), e)),
        20 => wdebug(&line_circle_intr(v(0), v(2), a[4], v(5), e)),
        21 => wdebug(&line_line_intr(v(0), v(2), v(4), v(6), e)),
        22 => {
            let (p, q) = (v(0), v(2));
            wdebug(&(p.scale(a[4]), p.dot(q), p.perp_dot(q), p.length(), p.length_squared(), p.perp()));
        }
        23 => wdebug(&(v(0).normalize(), v(0).unit_perp(), v(0).rotate_about(v(2), a[4]))),
        24 => {
            let q = |i: usize| PlineVertex::new(a[i], a[i + 1], a[(i + 5) % 8]);
            wdebug(&pline_seg_intr(q(0), q(2), q(4), q(5), e));
        }
        25 => {
            let q = |i: usize| PlineVertex::new(a[i], a[i + 1], a[(i + 5) % 8]);
            wdebug(&seg_split_at_point(q(0), q(2), v(4), e));
            wdebug(&(seg_closest_point(q(0), q(2), v(4), e), seg_tangent_vector(q(0), q(2), v(4))));
        }
        _ => {
            let q = |i: usize| PlineVertex::new(a[i], a[i + 1], a[(i + 5) % 8]);
            wdebug(&(seg_length(q(0), q(2)), seg_midpoint(q(0), q(2))));
            let b = seg_bounding_box(q(0), q(2));
            wdebug(&(b.min_x, b.min_y, b.max_x, b.max_y));
            let b = seg_fast_approx_bounding_box(q(0), q(2));
            wdebug(&(b.min_x, b.min_y, b.max_x, b.max_y));
        }
    }
}

/// A point on segment `i` at parameter `t`: the caller's business, computed without the library.
fn on_seg<P: PlineSource<Num = f64>>(p: &P, i: usize, t: f64) -> Vector2<f64> {
    let n = p.vertex_count();
    let a = p.at(i);
    let b = p.at((i + 1) % n);
    if t == 0.0 {
        return Vector2::new(a.x, a.y);
    }
    if t == 1.0 {
        return Vector2::new(b.x, b.y);
    }
    if a.bulge.abs() < 1e-9 {
        return Vector2::new(a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t);
    }
    let (dx, dy) = (b.x - a.x, b.y - a.y);
    let k = (1.0 - a.bulge * a.bulge) / (4.0 * a.bulge);
    let (cx, cy) = ((a.x + b.x) / 2.0 - dy * k, (a.y + b.y) / 2.0 + dx * k);
    let th = 4.0 * a.bulge.atan() * t;
    let (s, c) = th.sin_cos();
    let (rx, ry) = (a.x - cx, a.y - cy);
    Vector2::new(cx + rx * c - ry * s, cy + rx * s + ry * c)
}

/// Ways to obtain a detached selection.
#[allow(clippy::too_many_arguments)]
pub fn make_slice<P: PlineSource<Num = f64>>(
    p: &P,
    mode: u8,
    t1: f64,
    i1: u32,
    t2: f64,
    i2: u32,
    eps: f64,
    inv: bool,
) -> Option<PlineViewData<f64>> {
    let n = p.vertex_count();
    let segs = if p.is_closed() { n } else { n - 1 };
    let (mut i1, mut i2) = (i1 as usize % segs, i2 as usize % segs);
    let (mut t1, mut t2) = (t1, t2);
    let mut d = match mode % 4 {
        0 => PlineViewData::from_entire_pline(p),
        1 => PlineViewData::from_new_start(p, on_seg(p, i1, t1), i1, eps)?,
        2 => {
            if !p.is_closed() && (i1, t1) > (i2, t2) {
                std::mem::swap(&mut i1, &mut i2);
                std::mem::swap(&mut t1, &mut t2);
            }
            PlineViewData::from_slice_points(p, on_seg(p, i1, t1), i1, on_seg(p, i2, t2), i2, eps)?
        }
        _ => {
            if t1 > t2 {
                std::mem::swap(&mut t1, &mut t2);
            }
            let a = on_seg(p, i1, t1);
            let b = on_seg(p, i1, t2);
            let v1 = p.at(i1);
            let bulge = if v1.bulge == 0.0 { 0.0 } else { ((v1.bulge.atan() * 4.0) * (t2 - t1) / 4.0).tan() };
            PlineViewData::create_on_single_segment(p, i1, PlineVertex::new(a.x, a.y, bulge), b, eps)?
        }
    };
    d.inverted_direction = inv;
    Some(d)
}

fn single<P: PlineSource<Num = f64>, Q: PlineSource<Num = f64>>(k: &K, p: &P, q: &Q) {
    let K::Single(m, d, _) = k else { return };
    let cv = |n: usize, closed: bool, at: &dyn Fn(usize) -> PlineVertex<f64>| {
        let mut o: Polyline<f32> = Polyline::with_capacity(n, closed);
        for i in 0..n {
            let v = at(i);
            o.add(v.x as f32, v.y as f32, v.bulge as f32);
        }
        o
    };
    let a = cv(p.vertex_count(), p.is_closed(), &|i| p.at(i));
    let b = cv(q.vertex_count(), q.is_closed(), &|i| q.at(i));
    let wpl32 = |p: &Polyline<f32>| {
        w(p.vertex_data.len() as u64);
        w(p.is_closed as u64);
        for v in &p.vertex_data {
            for x in [v.x, v.y, v.bulge] {
                w(if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() as u64 });
            }
        }
    };
    match m % 4 {
        0 => {
            for r in a.parallel_offset(d.0 as f32) {
                wpl32(&r);
            }
        }
        1 => {
            w(a.area().to_bits() as u64);
            w(a.path_length().to_bits() as u64);
            if let Some(r) = a.remove_redundant(1e-4) {
                wpl32(&r);
            }
        }
        2 => {
            let r = a.boolean(&b, bop(d.0.abs() as u8));
            for x in r.pos_plines.iter().chain(r.neg_plines.iter()) {
                wpl32(&x.pline);
            }
        }
        _ => {
            let r = a.find_intersects(&b);
            for i in r.basic_intersects {
                w(i.start_index1 as u64);
                w(i.start_index2 as u64);
                w(i.point.x.to_bits() as u64);
                w(i.point.y.to_bits() as u64);
            }
        }
    }
}

fn q2<P, Q>(k: &K, p: &P, q: &Q, env: &Env)
where
    P: PlineSource<Num = f64>,
    Q: PlineSource<Num = f64>,
{
    match k {
        K::FindIntr(e, ix) => {
            let r = if *ix == Ix::Short {
                p.find_intersects(q)
            } else {
                let mut own = None;
                let mut o = FindIntersectsOptions::new();
                o.pline1_aabb_index = choose(p, *ix, env, &mut own);
                o.pos_equal_eps = e.0;
                p.find_intersects_opt(q, &o)
            };
            w(r.basic_intersects.len() as u64);
            for i in &r.basic_intersects {
                w(i.start_index1 as u64);
                w(i.start_index2 as u64);
                wp(i.point);
            }
            w(r.overlapping_intersects.len() as u64);
            for i in &r.overlapping_intersects {
                w(i.start_index1 as u64);
                w(i.start_index2 as u64);
                wp(i.point1);
                wp(i.point2);
            }
        }
        K::Bool(op, e, ix) => {
            let r = if *ix == Ix::Short {
                p.boolean(q, bop(*op))
            } else {
                let mut own = None;
                let mut o = PlineBooleanOptions::new();
                o.pline1_aabb_index = choose(p, *ix, env, &mut own);
                o.pos_equal_eps = e.0;
                p.boolean_opt(q, bop(*op), &o)
            };
            w(match r.result_info {
                BooleanResultInfo::InvalidInput => 0,
                BooleanResultInfo::Pline1InsidePline2 => 1,
                BooleanResultInfo::Pline2InsidePline1 => 2,
                BooleanResultInfo::Disjoint => 3,
                BooleanResultInfo::Overlapping => 4,
                BooleanResultInfo::Intersected => 5,
            });
            for list in [&r.pos_plines, &r.neg_plines] {
                w(list.len() as u64);
                for x in list.iter() {
                    wpl(&x.pline);
                    w(x.subslices.len() as u64);
                    for s in &x.subslices {
                        wview(&s.view_data);
                        w(s.source_is_pline1 as u64 * 2 + s.overlapping as u64);
                    }
                }
            }
        }
        K::FuzzyEq(e) => {
            w(p.fuzzy_eq_eps(q, e.0) as u64);
            w(p.fuzzy_eq(q) as u64);
        }
        K::Seq(v) => {
            for k in v {
                if k.uses_b() {
                    q2(k, p, q, env)
                } else {
                    q1(k, p, env)
                }
                w(0x5E9);
            }
        }
        K::Edits(closed, list) => {
            // user result type when the storage is the user's, the library's otherwise
            let mut o = P::OutputPolyline::create_from(p);
            edit_run(*closed, list, &mut o, q, env);
        }
        K::Single(..) => single(k, p, q),
        _ => q1(k, p, env),
    }
}

fn edit_run<O, Q>(_closed: bool, list: &[Edit], o: &mut O, q: &Q, env: &Env)
where
    O: PlineSourceMut<Num = f64>,
    Q: PlineSource<Num = f64>,
{
    for e in list {
        let n = o.vertex_count();
        let before: Vec<[u64; 3]> = if n <= 64 { (0..n).map(|i| bits3(o.at(i))).collect() } else { vec![] };
        let closed = o.is_closed();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| edit_one(e, n, o, q, env)));
        if let Err(why) = r {
            if n <= 64 {
                interrupted(e, &before, closed, o);
            }
            std::panic::resume_unwind(why);
        }
        w(0xED17);
    }
    wpl(o);
}

fn bits3(v: PlineVertex<f64>) -> [u64; 3] {
    [v.x.to_bits(), v.y.to_bits(), v.bulge.to_bits()]
}

fn three<P: PlineSource<Num = f64>>(p: &P) -> (u64, u64, Option<[u64; 4]>) {
    let b = p.extents().map(|b| [b.min_x, b.min_y, b.max_x, b.max_y].map(f64::to_bits));
    (p.area().to_bits(), p.path_length().to_bits(), b)
}

/// What an edit that was interrupted must have left of the polyline it was editing.
fn interrupted<O: PlineSourceMut<Num = f64>>(e: &Edit, before: &[[u64; 3]], closed: bool, o: &mut O) {
    let n = before.len();
    let m = o.vertex_count();
    if m < n {
        return complain("interrupted edit: vertexes the polyline held before the edit are gone");
    }
    if o.is_closed() != closed {
        return complain("interrupted edit: the polyline is no longer closed, or open, as it was");
    }
    // an edit in place may have got to some vertexes and not to others; one that adds vertexes
    // may have added some; any other has changed nothing at all
    let (kept, grows) = match e {
        Edit::Scale(_) | Edit::Translate(..) | Edit::Invert => (0, false),
        Edit::ExtendB | Edit::ExtendVertexes(_) => (n, true),
        Edit::ExtendBRemoveRepeat(_) => (n.saturating_sub(1), true),
        _ => (n, false),
    };
    if m > n && !grows {
        return complain("interrupted edit: the polyline has more vertexes than before an edit that adds none by itself");
    }
    let mut k = 0;
    for v in o.iter_vertexes() {
        if k < kept && bits3(v) != before[k] {
            return complain("interrupted edit: a vertex the edit was not about is changed");
        }
        if k >= m || o.get(k).map(bits3) != Some(bits3(v)) || bits3(o.at(k)) != bits3(v) {
            return complain("interrupted edit: the ways of reading the polyline disagree");
        }
        k += 1;
    }
    if k != m || o.get(m).is_some() || (m > 0 && o.last().map(bits3) != Some(bits3(o.at(m - 1)))) {
        return complain("interrupted edit: the ways of reading the polyline disagree");
    }
    // and what is computed from it is computed from what it holds now
    if m > 0 {
        let fresh = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut f = Polyline::with_capacity(m, o.is_closed());
            for v in o.iter_vertexes() {
                f.vertex_data.push(v);
            }
            f
        }));
        if let Ok(f) = fresh {
            if three(o) != three(&f) {
                complain("interrupted edit: area, length or extents do not belong to the vertexes the polyline holds now");
            }
        }
    }
}

fn edit_one<O, Q>(e: &Edit, n: usize, o: &mut O, q: &Q, env: &Env)
where
    O: PlineSourceMut<Num = f64>,
    Q: PlineSource<Num = f64>,
{
        match e {
            Edit::Set(i, x, y, b) if n > 0 => o.set(*i as usize % n, x.0, y.0, b.0),
            Edit::SetLast(x, y, b) if n > 0 => o.set_last(PlineVertex::new(x.0, y.0, b.0)),
            Edit::Insert(i, x, y, b) => o.insert(*i as usize % (n + 1), x.0, y.0, b.0),
            Edit::Remove(i) if n > 0 => wv(o.remove(*i as usize % n)),
            Edit::RemoveLast if n > 0 => wv(o.remove_last()),
            Edit::Clear => o.clear(),
            Edit::Add(x, y, b) => o.add(x.0, y.0, b.0),
            Edit::AddArr(x, y, b) => o.add_from_array([x.0, y.0, b.0]),
            Edit::AddOrReplace(x, y, b, e) => o.add_or_replace(x.0, y.0, b.0, e.0),
            Edit::ExtendB if n < 400 => o.extend(q),
            Edit::ExtendBRemoveRepeat(e) if n < 400 => o.extend_remove_repeat(q, e.0),
            Edit::ExtendVertexes(k) if n < 400 => {
                o.extend_vertexes((0..*k % 16).map(|i| {
                    access(20, i as usize, *k as usize);
                    PlineVertex::new(i as f64, 0.5 * i as f64, 0.0)
                }))
            }
            Edit::Reserve(k) => o.reserve(*k as usize % 4096),
            Edit::Closed(c) => o.set_is_closed(*c),
            Edit::Scale(s) => o.scale_mut(s.0),
            Edit::Translate(x, y) => o.translate_mut(x.0, y.0),
            Edit::Invert => o.invert_direction_mut(),
            Edit::Poke(i, x, y, b) if n > 0 => o.set_vertex(*i as usize % n, PlineVertex::new(x.0, y.0, b.0)),
            Edit::Query(k) => {
                // an index of the original does not describe the edited polyline
                let env = &Env { shared_ix: None, inputs: env.inputs };
                if !size(n + if k.uses_b() { q.vertex_count() } else { 0 }, false) {
                    return;
                }
                if k.uses_b() {
                    q2(k, o, q, env)
                } else {
                    q1(k, o, env)
                }
            }
            _ => {}
        }
}

// ------------------------------------------------------------------ shapes

fn check_shape(s: &Shape<f64>, what: &str) {
    let all: Vec<_> = s.ccw_plines.iter().chain(s.cw_plines.iter()).collect();
    for (i, ip) in all.iter().enumerate() {
        if let Some(m) = index_describes(&ip.polyline, &ip.spatial_index, true) {
            complain(&format!("{what}: cached index of polyline {i}: {m}"));
            return;
        }
    }
    if s.plines_index.count() != all.len() {
        complain(&format!("{what}: shape index has {} entries for {} polylines", s.plines_index.count(), all.len()));
        return;
    }
    let mut seen = vec![false; all.len()];
    for (i, b) in s.plines_index.item_indices().iter().zip(s.plines_index.item_boxes()) {
        if *i >= all.len() || seen[*i] {
            complain(&format!("{what}: shape index entries are not a permutation of the polylines"));
            return;
        }
        seen[*i] = true;
        if all[*i].polyline.vertex_data.iter().any(|v| v.bulge.abs() > 1.0 + 1e-9) {
            continue;
        }
        let want = ref_bounds(&all[*i].polyline);
        if let Some(wb) = want {
            let got = [b.min_x, b.min_y, b.max_x, b.max_y];
            if !box_matches(&got, &wb) {
                complain(&format!("{what}: shape index entry {i} is {got:?}, polyline {i} lies in {wb:?}"));
                return;
            }
        }
    }
    for (side, list) in [("counter clockwise", &s.ccw_plines), ("clockwise", &s.cw_plines)] {
        for (i, ip) in list.iter().enumerate() {
            let a = ref_area(&ip.polyline);
            let (len, scale) = ref_scale(&ip.polyline);
            let tol = 1e-6 * (1.0 + len * scale);
            if ip.polyline.is_closed && a.is_finite() {
                let wrong = if side == "clockwise" { a > tol } else { a < -tol };
                if wrong {
                    complain(&format!("{what}: {side} list holds polyline {i} with signed area {a}"));
                    return;
                }
            }
        }
    }
}

fn ref_scale(p: &Polyline<f64>) -> (f64, f64) {
    let n = p.vertex_data.len();
    let mut len = 0.0;
    let mut mx: f64 = 0.0;
    for i in 0..n {
        let a = p.vertex_data[i];
        let b = p.vertex_data[(i + 1) % n];
        len += ((a.x - b.x).powi(2) + (a.y - b.y).powi(2)).sqrt() * (1.0 + a.bulge.abs());
        mx = mx.max(a.x.abs()).max(a.y.abs());
    }
    (len, 1.0 + mx)
}

/// Signed area, without the library.
fn ref_area(p: &Polyline<f64>) -> f64 {
    let n = p.vertex_data.len();
    let mut s = 0.0;
    for i in 0..n {
        let a = p.vertex_data[i];
        let b = p.vertex_data[(i + 1) % n];
        s += a.x * b.y - a.y * b.x;
        if a.bulge != 0.0 {
            let c2 = (a.x - b.x).powi(2) + (a.y - b.y).powi(2);
            let th = 4.0 * a.bulge.atan();
            let q = a.bulge * a.bulge;
            let r2 = c2 * (1.0 + q) * (1.0 + q) / (16.0 * q);
            s += r2 * (th - th.sin());
        }
    }
    s / 2.0
}

/// Exact box of one segment, without the library.
fn ref_seg_box(a: PlineVertex<f64>, b: PlineVertex<f64>) -> [f64; 4] {
    let mut r = [a.x.min(b.x), a.y.min(b.y), a.x.max(b.x), a.y.max(b.y)];
    if a.bulge.abs() > 1e-9 {
        for j in 0..=64 {
            let t = j as f64 / 64.0;
            let (dx, dy) = (b.x - a.x, b.y - a.y);
            let k = (1.0 - a.bulge * a.bulge) / (4.0 * a.bulge);
            let (cx, cy) = ((a.x + b.x) / 2.0 - dy * k, (a.y + b.y) / 2.0 + dx * k);
            let (s, c) = (4.0 * a.bulge.atan() * t).sin_cos();
            let (rx, ry) = (a.x - cx, a.y - cy);
            let (x, y) = (cx + rx * c - ry * s, cy + rx * s + ry * c);
            r = [r[0].min(x), r[1].min(y), r[2].max(x), r[3].max(y)];
        }
    }
    r
}

fn ref_bounds(p: &Polyline<f64>) -> Option<[f64; 4]> {
    let n = p.vertex_data.len();
    if n < 2 {
        return None;
    }
    let segs = if p.is_closed { n } else { n - 1 };
    let mut r = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    for i in 0..segs {
        let b = ref_seg_box(p.vertex_data[i], p.vertex_data[(i + 1) % n]);
        r = [r[0].min(b[0]), r[1].min(b[1]), r[2].max(b[2]), r[3].max(b[3])];
    }
    Some(r)
}

fn finite_box(b: &[f64; 4]) -> bool {
    b.iter().all(|x| x.is_finite() && x.abs() < 1e12)
}

/// The number of lines an approximation legitimately takes grows with the precision asked for. Is it
/// asked for so few that the rest is work of the algorithm (or for so many that it must give up)?
fn lines_wanted<P: PlineSource<Num = f64>>(p: &P, e: f64) -> bool {
    let n = p.vertex_count();
    let mut total = 0.0;
    for i in 0..if p.is_closed() { n } else { n.saturating_sub(1) } {
        let (a, b) = (p.at(i), p.at((i + 1) % n));
        let bulge = a.bulge.abs();
        let r = (b.x - a.x).hypot(b.y - a.y) * (bulge * bulge + 1.0) / (4.0 * bulge);
        if !r.is_finite() {
            if e.abs() > 1e6 {
                return false;
            }
            continue;
        }
        let x = e.abs() / r;
        if bulge < 1e-8 || x < 1e-20 || x >= 1.0 || x.is_nan() {
            continue;
        }
        if x < 1e-9 {
            return false;
        }
        total += 3.2 / (2.0 * (1.0 - x).acos()) + 1.0;
    }
    if total > 2e4 {
        return false;
    }
    total < 100.0 || size(64, false)
}

/// `got` contains `want` and is not larger than an approximate arc box may be.
fn box_matches(got: &[f64; 4], want: &[f64; 4]) -> bool {
    if !finite_box(want) {
        return true;
    }
    let size = (want[2] - want[0]).abs() + (want[3] - want[1]).abs();
    let mag = want.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let tol = 1e-6 * (1.0 + mag + size);
    let slack = 2.0 * size + tol;
    got[0] <= want[0] + tol
        && got[1] <= want[1] + tol
        && got[2] >= want[2] - tol
        && got[3] >= want[3] - tol
        && got[0] >= want[0] - slack
        && got[1] >= want[1] - slack
        && got[2] <= want[2] + slack
        && got[3] <= want[3] + slack
}

/// None if the index describes the polyline's segments in order.
fn index_describes(p: &Polyline<f64>, ix: &Index, approx: bool) -> Option<String> {
    let n = p.vertex_data.len();
    if n < 2 {
        return if ix.count() == 0 { None } else { Some(format!("{} entries for {n} vertexes", ix.count())) };
    }
    let segs = if p.is_closed { n } else { n - 1 };
    if ix.count() != segs {
        return Some(format!("{} entries for {segs} segments", ix.count()));
    }
    let mut seen = vec![false; segs];
    for (i, b) in ix.item_indices().iter().zip(ix.item_boxes()) {
        if *i >= segs || seen[*i] {
            return Some("entries are not a permutation of the segments".into());
        }
        seen[*i] = true;
        if p.vertex_data[*i].bulge.abs() > 1.0 + 1e-9 {
            // more than a half circle: not a segment the library promises to handle
            continue;
        }
        let want = ref_seg_box(p.vertex_data[*i], p.vertex_data[(*i + 1) % n]);
        let got = [b.min_x, b.min_y, b.max_x, b.max_y];
        if !box_matches(&got, &want) {
            return Some(format!("segment {i} lies in {want:?}, indexed as {got:?}"));
        }
        if !approx && finite_box(&want) {
            let size = (want[2] - want[0]).abs() + (want[3] - want[1]).abs();
            let tol = 1e-2 * size + 1e-9 * (1.0 + want.iter().fold(0.0f64, |m, x| m.max(x.abs())));
            if (0..4).any(|k| (got[k] - want[k]).abs() > tol) {
                return Some(format!("segment {i} lies in {want:?}, indexed exactly as {got:?}"));
            }
        }
    }
    None
}

fn wshape(s: &Shape<f64>) {
    w(0x5A);
    w(s.ccw_plines.len() as u64);
    w(s.cw_plines.len() as u64);
    for ip in s.ccw_plines.iter().chain(s.cw_plines.iter()) {
        wpl(&ip.polyline);
        widx(&ip.spatial_index);
    }
    widx(&s.plines_index);
}

fn sopts(e1: F, e2: F, e3: F) -> ShapeOffsetOptions<f64> {
    let mut o = ShapeOffsetOptions::new();
    o.pos_equal_eps = e1.0;
    o.offset_dist_eps = e2.0;
    o.slice_join_eps = e3.0;
    o
}

/// The polylines of a shape may be copies of the inputs, moved apart: place in the upper bits.
pub const TILE: u32 = 8;
pub fn untile(i: u32) -> usize {
    (i & ((1 << TILE) - 1)) as usize
}

fn unrepeated(p: &Polyline<f64>) -> bool {
    let v = &p.vertex_data;
    (0..v.len()).all(|i| {
        let u = &v[(i + 1) % v.len()];
        v.len() > 1 && (v[i].x - u.x).hypot(v[i].y - u.y) > 1e-2
    })
}

fn e_bit(s: u32) -> bool {
    s & 1 == 1
}

/// A panic of the library ends here.
fn contained(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok()
}

fn shape_run(ids: &[u32], steps: &[ShapeStep], e1: F, e2: F, e3: F, env: &Env) {
    if env.inputs.is_empty() {
        return;
    }
    let pls: Vec<Polyline<f64>> = ids
        .iter()
        .map(|i| {
            let inp = &env.inputs[untile(*i) % env.inputs.len()];
            let mut p = lib_pline(&inp.v, inp.closed);
            let t = *i >> TILE;
            if t > 0 {
                p.translate_mut((t % 7) as f64 * 16.0, (t / 7) as f64 * 16.0);
            }
            p
        })
        .collect();
    let mut s = if ids.is_empty() { Shape::empty() } else { Shape::from_plines(pls) };
    check_shape(&s, "new shape");
    wshape(&s);
    for st in steps {
        if !cfg!(debug_assertions) && !s.ccw_plines.iter().chain(s.cw_plines.iter()).all(|p| unrepeated(&p.polyline)) {
            // with its assertions the library refuses to offset these
            MUTE.set(true);
        }
        if !size(s.ccw_plines.iter().chain(s.cw_plines.iter()).map(|p| p.polyline.vertex_data.len()).sum(), true) {
            return;
        }
        match st {
            ShapeStep::Offset(d) => {
                let n = s.parallel_offset(d.0, sopts(e1, e2, e3));
                check_shape(&n, "offset shape");
                s = n;
            }
            ShapeStep::Peek(d) => {
                let n = s.parallel_offset(d.0, sopts(e1, e2, e3));
                check_shape(&n, "offset shape");
                wshape(&n);
                check_shape(&s, "shape after being offset");
            }
            ShapeStep::CloneIt => {
                let c = s.clone();
                check_shape(&c, "cloned shape");
                s = c;
            }
            ShapeStep::Try(d) => {
                let before = shape_bits(&s);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.parallel_offset(d.0, sopts(e1, e2, e3))));
                match r {
                    Ok(n) => check_shape(&n, "offset shape"),
                    Err(_) => w(0xFA11),
                }
                if shape_bits(&s) != before {
                    complain("offsetting a shape changed it");
                }
            }
            ShapeStep::Twin(d) => {
                let t = twin_of(&s);
                if sided(&s) && shape_bits(&t) != shape_bits(&s) {
                    complain("a shape rebuilt from its polylines differs from the original");
                }
                let a = s.parallel_offset(d.0, sopts(e1, e2, e3));
                let b = t.parallel_offset(d.0, sopts(e1, e2, e3));
                if sided(&s) && shape_bits(&a) != shape_bits(&b) {
                    complain("a shape rebuilt from its polylines offsets differently");
                }
                check_shape(&a, "offset shape");
                let u = twin_of(&a);
                if sided(&a) && shape_bits(&u) != shape_bits(&a) {
                    complain("an offset shape rebuilt from its polylines differs from the original");
                }
            }
            ShapeStep::Restart => {
                let mut pls: Vec<Polyline<f64>> = Vec::new();
                for ip in s.ccw_plines.iter().chain(s.cw_plines.iter()) {
                    pls.push(ip.polyline.clone());
                }
                drop(s);
                s = Shape::from_plines(pls);
                check_shape(&s, "rebuilt shape");
            }
        }
        wshape(&s);
    }
}

fn shape_bits(s: &Shape<f64>) -> Vec<u64> {
    let mut v = vec![s.ccw_plines.len() as u64, s.cw_plines.len() as u64];
    let boxes = |v: &mut Vec<u64>, ix: &Index| {
        for (i, b) in ix.item_indices().iter().zip(ix.item_boxes()) {
            v.push(*i as u64);
            v.extend([b.min_x, b.min_y, b.max_x, b.max_y].map(fbits));
        }
    };
    for ip in s.ccw_plines.iter().chain(s.cw_plines.iter()) {
        v.push(ip.polyline.is_closed as u64);
        for a in &ip.polyline.vertex_data {
            v.extend([a.x, a.y, a.bulge].map(fbits));
        }
        boxes(&mut v, &ip.spatial_index);
    }
    boxes(&mut v, &s.plines_index);
    v
}

/// Only closed loops have a side.
fn sided(s: &Shape<f64>) -> bool {
    s.ccw_plines.iter().chain(s.cw_plines.iter()).all(|p| p.polyline.is_closed)
}

fn twin_of(s: &Shape<f64>) -> Shape<f64> {
    Shape::from_plines(s.ccw_plines.iter().chain(s.cw_plines.iter()).map(|ip| ip.polyline.clone()).collect::<Vec<_>>())
}

// ------------------------------------------------------------------ dispatch (non-generic)

macro_rules! each {
    ($src:expr, $p:ident => $e:expr) => {
        match $src {
            Src::Lib($p) => $e,
            Src::User($p) => $e,
            Src::View(s, d) => {
                let $p = &PlineView::new(s, *d);
                $e
            }
            Src::UView(s, d) => {
                let $p = &PlineView::new(s, *d);
                $e
            }
        }
    };
}

#[inline(never)]
fn run1(k: &K, a: &Src, env: &Env) {
    each!(a, p => q1(k, p, env))
}

#[inline(never)]
fn run2(k: &K, a: &Src, b: &Src, env: &Env) {
    // the second operand keeps its storage; the first one decides the result type
    match (a, b) {
        (Src::Lib(p), Src::Lib(q)) => q2(k, p, q, env),
        (Src::User(p), Src::User(q)) => q2(k, p, q, env),
        (Src::Lib(p), Src::User(q)) => q2(k, p, q, env),
        (Src::User(p), Src::Lib(q)) => q2(k, p, q, env),
        (Src::View(s, d), Src::Lib(q)) => q2(k, &PlineView::new(s, *d), q, env),
        (Src::Lib(p), Src::View(s, d)) => q2(k, p, &PlineView::new(s, *d), env),
        (Src::UView(s, d), Src::User(q)) => q2(k, &PlineView::new(s, *d), q, env),
        (Src::User(p), Src::UView(s, d)) => q2(k, p, &PlineView::new(s, *d), env),
        (Src::View(s, d), Src::View(t, e)) => q2(k, &PlineView::new(s, *d), &PlineView::new(t, *e), env),
        _ => complain("harness: unsupported storage pair"),
    }
}

pub fn pair_ok(a: Fl, b: Fl) -> bool {
    use Fl::*;
    matches!(
        (a, b),
        (Lib, Lib)
            | (User, User)
            | (Lib, User)
            | (User, Lib)
            | (View(..), Lib)
            | (Lib, View(..))
            | (UView(..), User)
            | (User, UView(..))
            | (View(..), View(..))
    )
}

pub fn run(k: &K, a: &Src, b: &Src, env: &Env) {
    MUTE.set(false);
    if k.uses_b() || matches!(k, K::Edits(..)) {
        run2(k, a, b, env)
    } else {
        run1(k, a, env)
    }
}
