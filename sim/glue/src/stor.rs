//! Storing and restoring the library's data types, and attaching restored selections.
use super::*;
use crate::codec;
use serde::de::DeserializeOwned;
use std::io::{Read, Write};

#[derive(Clone)]
pub enum Val {
    P(Polyline<f64>),
    S(Polyline<f32>),
    V(PlineVertex<f64>),
    X(Vector2<f64>),
    D(PlineViewData<f64>),
    L(Vec<BooleanPlineSlice<f64>>),
    B(Vec<BooleanResultPline<Polyline<f64>>>),
    M(Vec<Polyline<f64>>),
}

pub fn kind(v: &Val) -> u8 {
    match v {
        Val::P(_) => 0,
        Val::S(_) => 1,
        Val::V(_) => 2,
        Val::X(_) => 3,
        Val::D(_) => 4,
        Val::L(_) => 5,
        Val::B(_) => 6,
        Val::M(_) => 7,
    }
}

macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            Val::P($x) => $e,
            Val::S($x) => $e,
            Val::V($x) => $e,
            Val::X($x) => $e,
            Val::D($x) => $e,
            Val::L($x) => $e,
            Val::B($x) => $e,
            Val::M($x) => $e,
        }
    };
}

/// 0 compact JSON, 1 indented JSON, 2 JSON through a document tree, 3 positional, 4 tagged
pub fn write(v: &Val, codec: u8, out: &mut dyn Write) -> Result<(), String> {
    match codec {
        0 => each!(v, x => serde_json::to_writer(out, x)).map_err(|e| e.to_string()),
        1 => each!(v, x => serde_json::to_writer_pretty(out, x)).map_err(|e| e.to_string()),
        2 => {
            let t = each!(v, x => serde_json::to_value(x)).map_err(|e| e.to_string())?;
            out.write_all(t.to_string().as_bytes()).map_err(|e| e.to_string())
        }
        3 | 4 => {
            let mut s = codec::Ser { out, tagged: codec == 4 };
            each!(v, x => x.serialize(&mut s)).map_err(|e| e.0)
        }
        _ => Err("no such codec".into()),
    }
}

trait Get {
    fn get<T: DeserializeOwned>(self) -> Result<T, String>;
}

fn read_as(kind: u8, g: impl Get) -> Result<Val, String> {
    Ok(match kind {
        0 => Val::P(g.get()?),
        1 => Val::S(g.get()?),
        2 => Val::V(g.get()?),
        3 => Val::X(g.get()?),
        4 => Val::D(g.get()?),
        5 => Val::L(g.get()?),
        6 => Val::B(g.get()?),
        7 => Val::M(g.get()?),
        _ => return Err("no such kind".into()),
    })
}

struct FromReader<'a>(&'a mut dyn Read);
impl Get for FromReader<'_> {
    fn get<T: DeserializeOwned>(self) -> Result<T, String> {
        serde_json::from_reader(self.0).map_err(|e| e.to_string())
    }
}
struct FromSlice(Vec<u8>);
impl Get for FromSlice {
    fn get<T: DeserializeOwned>(self) -> Result<T, String> {
        serde_json::from_slice(&self.0).map_err(|e| e.to_string())
    }
}
struct FromStr_(String);
impl Get for FromStr_ {
    fn get<T: DeserializeOwned>(self) -> Result<T, String> {
        serde_json::from_str(&self.0).map_err(|e| e.to_string())
    }
}
struct FromTree(serde_json::Value);
impl Get for FromTree {
    fn get<T: DeserializeOwned>(self) -> Result<T, String> {
        serde_json::from_value(self.0).map_err(|e| e.to_string())
    }
}
struct FromBin<'a>(&'a mut dyn Read, bool);
impl Get for FromBin<'_> {
    fn get<T: DeserializeOwned>(self) -> Result<T, String> {
        let mut d = codec::De { src: self.0, tagged: self.1 };
        let r = T::deserialize(&mut d).map_err(|e| e.0)?;
        let mut one = [0u8];
        loop {
            match d.src.read(&mut one) {
                Ok(0) => return Ok(r),
                Ok(_) => return Err("more stored than expected".into()),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.to_string()),
            }
        }
    }
}

/// `how` for JSON: 0 reader, 1 slice, 2 text, 3 document tree
pub fn read(kind: u8, codec: u8, how: u8, src: &mut dyn Read) -> Result<Val, String> {
    if codec >= 3 {
        return read_as(kind, FromBin(src, codec == 4));
    }
    if how == 0 {
        return read_as(kind, FromReader(src));
    }
    let mut b = vec![];
    src.read_to_end(&mut b).map_err(|e| e.to_string())?;
    match how {
        1 => read_as(kind, FromSlice(b)),
        2 => read_as(kind, FromStr_(String::from_utf8(b).map_err(|e| e.to_string())?)),
        _ => read_as(kind, FromTree(serde_json::from_slice(&b).map_err(|e| e.to_string())?)),
    }
}

// ------------------------------------------------------------------ values as words

fn view_words(d: &PlineViewData<f64>, o: &mut Vec<u64>) {
    o.push(d.start_index as u64);
    o.push(d.end_index_offset as u64);
    for x in [d.updated_start.x, d.updated_start.y, d.updated_start.bulge, d.updated_end_bulge, d.end_point.x, d.end_point.y] {
        o.push(x.to_bits());
    }
    o.push(d.inverted_direction as u64);
}
fn pl_words(p: &Polyline<f64>, o: &mut Vec<u64>) {
    o.push(p.vertex_data.len() as u64);
    o.push(p.is_closed as u64);
    for v in &p.vertex_data {
        o.extend([v.x.to_bits(), v.y.to_bits(), v.bulge.to_bits()]);
    }
}
fn slice_words(s: &BooleanPlineSlice<f64>, o: &mut Vec<u64>) {
    view_words(&s.view_data, o);
    o.push(s.source_is_pline1 as u64);
    o.push(s.overlapping as u64);
}

/// The value, bit for bit.
pub fn words(v: &Val) -> Vec<u64> {
    let mut o = vec![kind(v) as u64];
    match v {
        Val::P(p) => pl_words(p, &mut o),
        Val::S(p) => {
            o.push(p.vertex_data.len() as u64);
            o.push(p.is_closed as u64);
            for v in &p.vertex_data {
                o.extend([v.x.to_bits() as u64, v.y.to_bits() as u64, v.bulge.to_bits() as u64]);
            }
        }
        Val::V(v) => o.extend([v.x.to_bits(), v.y.to_bits(), v.bulge.to_bits()]),
        Val::X(v) => o.extend([v.x.to_bits(), v.y.to_bits()]),
        Val::D(d) => view_words(d, &mut o),
        Val::L(l) => {
            o.push(l.len() as u64);
            l.iter().for_each(|s| slice_words(s, &mut o));
        }
        Val::B(l) => {
            o.push(l.len() as u64);
            for b in l {
                pl_words(&b.pline, &mut o);
                o.push(b.subslices.len() as u64);
                b.subslices.iter().for_each(|s| slice_words(s, &mut o));
            }
        }
        Val::M(l) => {
            o.push(l.len() as u64);
            l.iter().for_each(|p| pl_words(p, &mut o));
        }
    }
    o
}

struct R<'a>(&'a [u64], usize);
impl R<'_> {
    fn u(&mut self) -> u64 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn f(&mut self) -> f64 {
        f64::from_bits(self.u())
    }
    fn pl(&mut self) -> Polyline<f64> {
        let n = self.u() as usize;
        let closed = self.u() == 1;
        Polyline { vertex_data: (0..n).map(|_| PlineVertex { x: self.f(), y: self.f(), bulge: self.f() }).collect(), is_closed: closed }
    }
    fn view(&mut self) -> PlineViewData<f64> {
        PlineViewData {
            start_index: self.u() as usize,
            end_index_offset: self.u() as usize,
            updated_start: PlineVertex { x: self.f(), y: self.f(), bulge: self.f() },
            updated_end_bulge: self.f(),
            end_point: Vector2 { x: self.f(), y: self.f() },
            inverted_direction: self.u() == 1,
        }
    }
    fn slice(&mut self) -> BooleanPlineSlice<f64> {
        BooleanPlineSlice { view_data: self.view(), source_is_pline1: self.u() == 1, overlapping: self.u() == 1 }
    }
}

/// The inverse of `words`.
pub fn from_words(w: &[u64]) -> Val {
    let mut r = R(w, 0);
    match r.u() {
        0 => Val::P(r.pl()),
        1 => {
            let n = r.u() as usize;
            let closed = r.u() == 1;
            let f = |r: &mut R| f32::from_bits(r.u() as u32);
            Val::S(Polyline { vertex_data: (0..n).map(|_| PlineVertex { x: f(&mut r), y: f(&mut r), bulge: f(&mut r) }).collect(), is_closed: closed })
        }
        2 => Val::V(PlineVertex { x: r.f(), y: r.f(), bulge: r.f() }),
        3 => Val::X(Vector2 { x: r.f(), y: r.f() }),
        4 => Val::D(r.view()),
        5 => {
            let n = r.u();
            Val::L((0..n).map(|_| r.slice()).collect())
        }
        6 => {
            let n = r.u();
            Val::B(
                (0..n)
                    .map(|_| {
                        let p = r.pl();
                        let k = r.u();
                        BooleanResultPline { pline: p, subslices: (0..k).map(|_| r.slice()).collect() }
                    })
                    .collect(),
            )
        }
        _ => {
            let n = r.u();
            Val::M((0..n).map(|_| r.pl()).collect())
        }
    }
}

// ------------------------------------------------------------------ selections

fn code(v: &ViewDataValidation<f64>) -> u64 {
    match v {
        ViewDataValidation::SourceHasNoSegments => 1,
        ViewDataValidation::OffsetOutOfRange { .. } => 2,
        ViewDataValidation::UpdatedStartNotOnSegment { .. } => 3,
        ViewDataValidation::EndPointNotOnSegment { .. } => 4,
        ViewDataValidation::EndPointOnFinalOffsetVertex { .. } => 5,
        ViewDataValidation::UpdatedBulgeDoesNotMatch { .. } => 6,
        ViewDataValidation::IsValid => 0,
    }
}

/// Validation code only.
pub fn validate(d: &PlineViewData<f64>, src: &Polyline<f64>) -> u64 {
    code(&d.validate_for_source(src))
}

/// The vertexes a selection yields on a source, by every way of reading them:
/// [agree, count, x, y, bulge, ..]
pub fn view_vertexes(d: &PlineViewData<f64>, src: &Polyline<f64>, inverted: bool) -> Vec<u64> {
    let mut d = *d;
    d.inverted_direction = inverted;
    let v = d.view(src);
    let n = v.vertex_count();
    let mut o = vec![1, n as u64];
    for i in 0..n {
        let x = v.at(i);
        o.extend([x.x.to_bits(), x.y.to_bits(), x.bulge.to_bits()]);
    }
    let mut agree = !v.is_closed() && v.get(n).is_none() && v.get(n + 1).is_none();
    for i in 0..n {
        agree &= v.get(i).is_some_and(|x| [x.x.to_bits(), x.y.to_bits(), x.bulge.to_bits()] == o[2 + 3 * i..5 + 3 * i]);
    }
    let c: Polyline<f64> = Polyline::create_from(&v);
    let k = v.iter_vertexes().count();
    agree &= k == n && c.vertex_data.len() == n;
    for (i, (x, y)) in v.iter_vertexes().zip(c.vertex_data.iter()).enumerate() {
        agree &= [x.x.to_bits(), x.y.to_bits(), x.bulge.to_bits()] == o[2 + 3 * i..5 + 3 * i];
        agree &= [y.x.to_bits(), y.y.to_bits(), y.bulge.to_bits()] == o[2 + 3 * i..5 + 3 * i];
    }
    let e = v.detach();
    let mut a = vec![];
    let mut b = vec![];
    view_words(&d, &mut a);
    view_words(&e, &mut b);
    agree &= a == b;
    o[0] = agree as u64;
    o
}

pub fn slice_of(p: &Polyline<f64>, mode: u8, t1: f64, i1: u32, t2: f64, i2: u32, eps: f64, inv: bool) -> Option<Val> {
    make_slice(p, mode, t1, i1, t2, i2, eps, inv).map(Val::D)
}

pub fn point_on(p: &Polyline<f64>, i: usize, t: f64) -> [f64; 2] {
    let q = on_seg(p, i, t);
    [q.x, q.y]
}

/// (outcome, results)
pub fn boolean(a: &Polyline<f64>, b: &Polyline<f64>, op: u8) -> (u64, Val) {
    let r = a.boolean(b, bop(op));
    let i = match r.result_info {
        BooleanResultInfo::InvalidInput => 0,
        BooleanResultInfo::Pline1InsidePline2 => 1,
        BooleanResultInfo::Pline2InsidePline1 => 2,
        BooleanResultInfo::Disjoint => 3,
        BooleanResultInfo::Overlapping => 4,
        BooleanResultInfo::Intersected => 5,
    };
    let mut v = r.pos_plines;
    v.extend(r.neg_plines);
    (i, Val::B(v))
}
