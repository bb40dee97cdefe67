//! Direct library calls on plain values: what the C interface is judged against.
use super::*;

/// A polyline as a value.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct M {
    pub v: Vec<[f64; 3]>,
    pub closed: bool,
}

pub type Index2 = StaticAABB2DIndex<f64>;

fn pl(m: &M) -> Polyline<f64> {
    let mut p = Polyline::new();
    p.set_is_closed(m.closed);
    for v in &m.v {
        p.add(v[0], v[1], v[2]);
    }
    p
}

fn val(p: &Polyline<f64>) -> M {
    M { v: (0..p.vertex_count()).map(|i| p.at(i)).map(|v| [v.x, v.y, v.bulge]).collect(), closed: p.is_closed() }
}

#[derive(Clone, Copy)]
pub struct OffOpt<'a> {
    pub ix: Option<&'a Index2>,
    pub eps: [f64; 3],
    pub selfi: bool,
}

pub enum Q<'a> {
    Length,
    Area,
    Wn(f64, f64),
    Extents,
    Scale(f64),
    Translate(f64, f64),
    Invert,
    RemRepeat(f64),
    RemRedundant(f64),
    Offset(f64, Option<OffOpt<'a>>),
    Bool(&'a M, u32, Option<(Option<&'a Index2>, f64)>),
    Index(bool),
}

pub enum A {
    F(f64),
    I(i64),
    Box(Option<[f64; 4]>),
    P(M),
    /// boxed, so that the number of allocations resembles that of the C interface
    L(Vec<Box<M>>),
    LL(Vec<Box<M>>, Vec<Box<M>>),
    Ix(Index2),
}

pub fn ask(m: &M, q: &Q) -> A {
    let mut p = pl(m);
    match q {
        Q::Length => A::F(p.path_length()),
        Q::Area => A::F(p.area()),
        Q::Wn(x, y) => A::I(p.winding_number(Vector2::new(*x, *y)) as i64),
        Q::Extents => A::Box(p.extents().map(|b| [b.min_x, b.min_y, b.max_x, b.max_y])),
        Q::Scale(f) => {
            p.scale_mut(*f);
            A::P(val(&p))
        }
        Q::Translate(x, y) => {
            p.translate_mut(*x, *y);
            A::P(val(&p))
        }
        Q::Invert => {
            p.invert_direction_mut();
            A::P(val(&p))
        }
        Q::RemRepeat(e) => A::P(val(&p.remove_repeat_pos(*e).unwrap_or(p))),
        Q::RemRedundant(e) => A::P(val(&p.remove_redundant(*e).unwrap_or(p))),
        Q::Offset(d, o) => {
            let r = match o {
                None => p.parallel_offset(*d),
                Some(o) => {
                    let mut op = PlineOffsetOptions::default();
                    op.aabb_index = o.ix;
                    op.pos_equal_eps = o.eps[0];
                    op.slice_join_eps = o.eps[1];
                    op.offset_dist_eps = o.eps[2];
                    op.handle_self_intersects = o.selfi;
                    p.parallel_offset_opt(*d, &op)
                }
            };
            A::L(r.iter().map(|p| Box::new(val(p))).collect())
        }
        Q::Bool(b, op, o) => {
            let b = pl(b);
            let op = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor][*op as usize];
            let r = match o {
                None => p.boolean(&b, op),
                Some((ix, eps)) => {
                    let mut o = PlineBooleanOptions::default();
                    o.pline1_aabb_index = *ix;
                    o.pos_equal_eps = *eps;
                    p.boolean_opt(&b, op, &o)
                }
            };
            let l = |v: &Vec<BooleanResultPline<Polyline<f64>>>| v.iter().map(|p| Box::new(val(&p.pline))).collect();
            A::LL(l(&r.pos_plines), l(&r.neg_plines))
        }
        Q::Index(approx) => A::Ix(if *approx { p.create_approx_aabb_index() } else { p.create_aabb_index() }),
    }
}

pub fn bounds(ix: &Index2) -> [f64; 4] {
    match ix.bounds() {
        Some(b) => [b.min_x, b.min_y, b.max_x, b.max_y],
        None => [f64::NAN; 4],
    }
}

/// Default values of the library's own options.
pub fn defaults() -> ([f64; 3], bool, f64) {
    let o = PlineOffsetOptions::<f64>::default();
    ([o.pos_equal_eps, o.slice_join_eps, o.offset_dist_eps], o.handle_self_intersects, PlineBooleanOptions::<f64>::default().pos_equal_eps)
}
