//! Seeded geometry, tolerances and computations.
use crate::rng::Rng;
use glue::{TILE, Edit, F, Input, Ix, K, ShapeStep};

fn grid(r: &mut Rng, step: f64, lim: i64) -> f64 {
    r.range(-lim, lim) as f64 * step
}

pub fn bulge(r: &mut Rng) -> f64 {
    match r.weighted(&[8, 6, 4, 4, 2, 1]) {
        0 => 0.0,
        1 => r.fr(-1.0, 1.0),
        2 => *r.pick(&[0.5, -0.5, 0.25, -0.25, 0.1, -0.1]),
        3 => *r.pick(&[1.0, -1.0, 0.41421356237309503, -0.41421356237309503]),
        4 => r.fr(-4.0, 4.0),
        _ => *r.pick(&[1e-6, -1e-6, 1e-9, 1e-4, -1e-3]),
    }
}

fn transform(p: &mut Input, r: &mut Rng) {
    let s = *r.pick(&[1.0, 1.0, 1.0, 1.0, 2.0, 0.5, 10.0, 0.1]);
    let (dx, dy) = if r.chance(0.5) { (0.0, 0.0) } else { (grid(r, 0.5, 6), grid(r, 0.5, 6)) };
    let rot = r.below(6);
    let th: f64 = r.fr(0.0, 6.3);
    let mirror = r.chance(0.2);
    for v in p.v.iter_mut() {
        let (mut x, mut y, mut b) = (v[0].0 * s, v[1].0 * s, v[2].0);
        if mirror {
            x = -x;
            b = -b;
        }
        let (a, c) = match rot {
            0..=2 => (x, y),
            3 => (-y, x),
            4 => (-x, -y),
            _ => (x * th.cos() - y * th.sin(), x * th.sin() + y * th.cos()),
        };
        x = a + dx;
        y = c + dy;
        *v = [F(x), F(y), F(b)];
    }
}

pub fn reverse(p: &mut Input) {
    let n = p.len();
    if n < 2 {
        return;
    }
    let old = p.v.clone();
    for i in 0..n {
        let src = old[n - 1 - i];
        let b = if i + 1 < n { old[n - 2 - i][2].0 } else { old[n - 1][2].0 };
        p.v[i] = [src[0], src[1], F(-b)];
    }
}

/// One polyline; `big` allows many vertexes.
pub fn polyline(r: &mut Rng, big: bool) -> Input {
    let mut p = Input::new(r.chance(0.75));
    let kind = r.weighted(&[14, 8, 6, 6, 8, 8, 6, 5, 4, 3, 3, 2, 2, 4]);
    let max = if big { 150 } else { 14 };
    match kind {
        0 => {
            // convex-ish polygon with bulges
            let n = if big { r.range(20, max) } else { r.range(3, 10) } as usize;
            let rad = r.fr(1.0, 6.0);
            let curved = r.chance(0.6);
            let jit = if r.chance(0.5) { 0.0 } else { r.fr(0.0, 0.7) };
            for i in 0..n {
                let t = std::f64::consts::TAU * i as f64 / n as f64;
                let q = rad * (1.0 + jit * (r.f() - 0.5));
                let b = if curved { bulge(r) * 0.6 } else { 0.0 };
                p.add(q * t.cos(), q * t.sin(), b);
            }
        }
        1 => {
            let (a, b) = (r.range(1, 8) as f64, r.range(1, 8) as f64);
            let (x, y) = (grid(r, 1.0, 3), grid(r, 1.0, 3));
            for (u, v) in [(0.0, 0.0), (a, 0.0), (a, b), (0.0, b)] {
                p.add(x + u, y + v, 0.0);
            }
        }
        2 => {
            // rounded rectangle
            let (a, b) = (r.range(3, 9) as f64, r.range(3, 9) as f64);
            let q = r.fr(0.2, 1.4);
            let k = 0.41421356237309503;
            for (u, v, bu) in [
                (q, 0.0, 0.0),
                (a - q, 0.0, k),
                (a, q, 0.0),
                (a, b - q, k),
                (a - q, b, 0.0),
                (q, b, k),
                (0.0, b - q, 0.0),
                (0.0, q, k),
            ] {
                p.add(u, v, bu);
            }
        }
        3 => {
            let (x, y, q) = (grid(r, 0.5, 6), grid(r, 0.5, 6), r.range(1, 8) as f64 * 0.5);
            let s = if r.chance(0.7) { 1.0 } else { -1.0 };
            p.closed = true;
            p.add(x - q, y, s);
            p.add(x + q, y, s);
        }
        4 => {
            // walk on a grid: overlaps, repeats, touching
            let n = r.range(3, max) as usize;
            let (mut x, mut y) = (grid(r, 1.0, 3), grid(r, 1.0, 3));
            for _ in 0..n {
                p.add(x, y, if r.chance(0.25) { bulge(r) } else { 0.0 });
                match r.below(5) {
                    0 => x += 1.0,
                    1 => x -= 1.0,
                    2 => y += 1.0,
                    3 => y -= 1.0,
                    _ => {
                        x += grid(r, 1.0, 2);
                        y += grid(r, 1.0, 2);
                    }
                }
            }
        }
        5 => {
            // random, usually self-intersecting
            let n = r.range(3, max) as usize;
            for _ in 0..n {
                let (x, y) = (r.fr(-6.0, 6.0), r.fr(-6.0, 6.0));
                p.add(x, y, bulge(r));
            }
        }
        6 => {
            let n = r.range(3, if big { 40 } else { 7 }) as usize;
            let (a, b) = (r.fr(2.0, 6.0), r.fr(0.5, 3.0));
            for i in 0..2 * n {
                let t = std::f64::consts::PI * i as f64 / n as f64;
                let q = if i % 2 == 0 { a } else { b };
                p.add(q * t.cos(), q * t.sin(), if r.chance(0.15) { bulge(r) } else { 0.0 });
            }
        }
        7 => {
            // comb
            let n = r.range(2, if big { 30 } else { 5 }) as usize;
            let h = r.range(1, 6) as f64;
            let gap = *r.pick(&[1.0, 0.5, 0.25]);
            let mut x = 0.0;
            for _ in 0..n {
                p.add(x, 0.0, 0.0);
                p.add(x, h, 0.0);
                p.add(x + gap, h, 0.0);
                p.add(x + gap, 0.0, 0.0);
                x += 2.0 * gap;
            }
            p.add(x, 0.0, 0.0);
            p.add(x, -1.0, 0.0);
            p.add(0.0, -1.0, 0.0);
        }
        8 => {
            // spiral of half circles
            p.closed = false;
            let n = r.range(2, if big { 30 } else { 7 }) as usize;
            let (mut x, mut q, mut s) = (0.0, 0.5, 1.0);
            for _ in 0..n {
                p.add(x, 0.0, 1.0);
                x += s * q;
                q += r.fr(0.2, 1.0);
                s = -s;
            }
            p.add(x, 0.0, 0.0);
        }
        9 => {
            // collinear
            let n = r.range(2, 8) as usize;
            let mut x = 0.0;
            for _ in 0..n {
                p.add(x, x * 0.5, 0.0);
                x += grid(r, 1.0, 3);
            }
        }
        10 => {
            // tiny
            let n = r.range(0, 3) as usize;
            for _ in 0..n {
                let (x, y) = (grid(r, 1.0, 3), grid(r, 1.0, 3));
                p.add(x, y, bulge(r));
            }
        }
        11 => {
            // zigzag
            let n = r.range(3, max) as usize;
            for i in 0..n {
                p.add(i as f64 * 0.5, if i % 2 == 0 { 0.0 } else { 2.0 }, 0.0);
            }
        }
        12 => {
            // figure eight of arcs
            p.closed = true;
            let q = r.range(1, 4) as f64;
            p.add(-q, 0.0, 1.0);
            p.add(0.0, 0.0, -1.0);
            p.add(q, 0.0, -1.0);
            p.add(0.0, 0.0, 1.0);
        }
        _ => {
            // dense, smooth
            let n = if big { r.range(40, max) } else { r.range(8, 24) } as usize;
            let (a, b) = (r.fr(1.0, 5.0), r.fr(1.0, 5.0));
            let k = r.range(1, 4) as f64;
            for i in 0..n {
                let t = std::f64::consts::TAU * i as f64 / n as f64;
                let m = 1.0 + 0.3 * (k * t).sin();
                p.add(a * m * t.cos(), b * m * t.sin(), 0.0);
            }
        }
    }
    if r.chance(0.5) {
        transform(&mut p, r);
    }
    if r.chance(0.08) && !p.is_empty() {
        let i = r.below(p.len());
        let v = p.v[i];
        p.v.insert(i, v);
    }
    if r.chance(0.15) {
        reverse(&mut p);
    }
    if r.chance(0.12) {
        subdivide(&mut p, r);
    }
    p
}

/// Vertexes nobody needs: split segments in places; a closed polyline may start at one of them.
fn subdivide(p: &mut Input, r: &mut Rng) {
    let n = p.len();
    if n < 2 {
        return;
    }
    let often = *r.pick(&[0.15, 0.5, 1.0]);
    let mut out = vec![];
    for i in 0..n {
        let a = p.v[i];
        let last = i + 1 == n;
        out.push(a);
        if (last && !p.closed) || !r.chance(often) {
            continue;
        }
        let b = p.v[(i + 1) % n];
        let (dx, dy, k) = (b[0].0 - a[0].0, b[1].0 - a[1].0, a[2].0);
        let pieces = r.range(2, 4) as usize;
        if k.abs() < 1e-6 {
            for j in 1..pieces {
                let t = j as f64 / pieces as f64;
                out.push([F(a[0].0 + t * dx), F(a[1].0 + t * dy), a[2]]);
            }
        } else {
            // centre of the arc, and its points at equal steps of its sweep
            let h = (1.0 - k * k) / (4.0 * k);
            let (cx, cy) = ((a[0].0 + b[0].0) / 2.0 - dy * h, (a[1].0 + b[1].0) / 2.0 + dx * h);
            let step = 4.0 * k.atan() / pieces as f64;
            let part = F((step / 4.0).tan());
            out.last_mut().unwrap()[2] = part;
            for j in 1..pieces {
                let (s, c) = (step * j as f64).sin_cos();
                let (x, y) = (a[0].0 - cx, a[1].0 - cy);
                out.push([F(cx + x * c - y * s), F(cy + x * s + y * c), part]);
            }
        }
    }
    if p.closed {
        let k = r.below(out.len());
        out.rotate_left(k);
    }
    p.v = out;
}

/// A polyline closely related to `b`: what a wrongly keyed cache would confuse with it.
pub fn sibling(b: &Input, r: &mut Rng) -> Input {
    let mut p = b.clone();
    let n = p.len();
    match r.below(10) {
        0 => {}
        9 if n > 0 => {
            // equal to the original under ==, not the same bits
            for v in p.v.iter_mut() {
                for x in v.iter_mut() {
                    if x.0 == 0.0 && r.chance(0.5) {
                        x.0 = -x.0;
                    }
                }
            }
        }
        1 | 2 if n > 0 => {
            // one interior vertex moved; count, ends and often extents stay
            let i = if n > 2 { 1 + r.below(n - 2) } else { r.below(n) };
            p.v[i][0].0 += *r.pick(&[0.25, -0.25, 0.5, -1.0, 1e-3]);
            p.v[i][1].0 += *r.pick(&[0.25, -0.25, 0.5, 0.0]);
        }
        3 if n > 0 => {
            let i = r.below(n);
            p.v[i][2].0 = bulge(r);
        }
        4 => p.closed = !p.closed,
        5 => {
            let (dx, dy) = (*r.pick(&[0.5, 1.0, -1.0, 0.0, 2.0]), *r.pick(&[0.5, 1.0, -0.5, 0.0]));
            for v in p.v.iter_mut() {
                v[0].0 += dx;
                v[1].0 += dy;
            }
        }
        6 => reverse(&mut p),
        7 if n > 1 => {
            let k = r.below(n);
            p.v.rotate_left(k);
        }
        _ => {
            let s = *r.pick(&[0.5, 0.9, 1.1, 2.0, -1.0]);
            for v in p.v.iter_mut() {
                v[0].0 *= s;
                v[1].0 *= s;
            }
        }
    }
    p
}

/// Many vertexes of a curve that hardly meets itself: beyond the sizes at which code changes its mind.
pub fn huge(r: &mut Rng) -> Input {
    let n = *r.pick(&[200, 256, 257, 300, 400, 512, 600, 1000, 1025]);
    let mut p = Input::new(r.chance(0.8));
    match r.below(4) {
        0 => {
            for i in 0..n {
                p.add(i as f64 * 0.25, if i % 2 == 0 { 0.0 } else { 2.0 }, 0.0);
            }
            if p.closed {
                p.add(n as f64 * 0.25, -2.0, 0.0);
                p.add(0.0, -2.0, 0.0);
            }
        }
        k => {
            let (a, b) = (r.fr(4.0, 12.0), r.fr(4.0, 12.0));
            let m = r.range(1, 12) as f64;
            let bul = if k == 1 { r.fr(-0.3, 0.3) } else { 0.0 };
            let amp = if k == 2 { 0.0 } else { 0.3 };
            for i in 0..n {
                let t = std::f64::consts::TAU * i as f64 / n as f64;
                let q = 1.0 + amp * (m * t).sin();
                p.add(a * q * t.cos(), b * q * t.sin(), bul);
            }
        }
    }
    if r.chance(0.3) {
        reverse(&mut p);
    }
    p
}

pub fn inputs(r: &mut Rng, n: usize, big: f64) -> Vec<Input> {
    let mut v: Vec<Input> = vec![];
    if r.chance(big * 0.4) {
        v.push(huge(r));
        if r.chance(0.5) {
            let s = sibling(&v[0], r);
            v.push(s);
        }
    }
    while v.len() < n {
        if !v.is_empty() && v[0].len() < 200 && r.chance(0.55) {
            let i = r.below(v.len());
            let b = v[i].clone();
            v.push(sibling(&b, r));
        } else {
            let g = r.chance(big);
            v.push(polyline(r, g));
        }
    }
    v
}

pub fn eps(r: &mut Rng) -> F {
    F(*r.pick(&[1e-5, 1e-5, 1e-5, 1e-5, 1e-3, 1e-8, 1e-4, 1e-2]))
}

pub fn dist(r: &mut Rng) -> F {
    let m = *r.pick(&[0.1, 0.25, 0.5, 0.5, 1.0, 1.0, 1.5, 2.0, 3.0]);
    let m = if r.chance(0.3) { r.fr(0.01, 3.0) } else { m };
    F(if r.chance(0.5) { m } else { -m })
}

pub fn coord(r: &mut Rng) -> F {
    F(if r.chance(0.5) { grid(r, 0.5, 14) } else { r.fr(-8.0, 8.0) })
}

pub fn ix(r: &mut Rng) -> Ix {
    *r.pick(&[Ix::Short, Ix::None, Ix::None, Ix::Approx, Ix::Exact, Ix::Shared])
}

pub fn offset_k(r: &mut Rng) -> K {
    if r.chance(0.6) {
        K::Offset(dist(r), r.chance(0.5), F(1e-5), F(1e-4), F(1e-4), ix(r))
    } else {
        K::Offset(dist(r), r.chance(0.5), eps(r), eps(r), eps(r), ix(r))
    }
}

pub fn bool_k(r: &mut Rng) -> K {
    K::Bool(r.below(4) as u8, if r.chance(0.8) { F(1e-5) } else { eps(r) }, ix(r))
}

pub fn slice_k(r: &mut Rng) -> K {
    let t = |r: &mut Rng| F(*r.pick(&[0.0, 0.5, 0.25, 1.0, 0.75, 0.1, 0.9]));
    K::Slice(r.below(4) as u8, t(r), r.below(64) as u32, t(r), r.below(64) as u32, F(1e-5), r.chance(0.4))
}

pub fn edit(r: &mut Rng, depth: u32) -> Edit {
    let c = |r: &mut Rng| coord(r);
    match r.below(if depth > 0 { 23 } else { 19 }) {
        0 => Edit::Set(r.below(99) as u32, c(r), c(r), F(bulge(r))),
        1 => Edit::SetLast(c(r), c(r), F(bulge(r))),
        2 => Edit::Insert(r.below(99) as u32, c(r), c(r), F(bulge(r))),
        3 => Edit::Remove(r.below(99) as u32),
        4 => Edit::RemoveLast,
        5 => Edit::Clear,
        6 | 7 => Edit::Add(c(r), c(r), F(bulge(r))),
        8 => Edit::AddArr(c(r), c(r), F(bulge(r))),
        9 => Edit::AddOrReplace(c(r), c(r), F(bulge(r)), eps(r)),
        10 => Edit::ExtendB,
        11 => Edit::ExtendBRemoveRepeat(eps(r)),
        12 => Edit::ExtendVertexes(r.below(16) as u32),
        13 => Edit::Reserve(r.below(4096) as u32),
        14 => Edit::Closed(r.chance(0.5)),
        15 => Edit::Scale(F(*r.pick(&[2.0, 0.5, -1.0, 1.0, 3.0]))),
        16 => Edit::Translate(c(r), c(r)),
        17 => Edit::Invert,
        18 => Edit::Poke(r.below(99) as u32, c(r), c(r), F(bulge(r))),
        _ => Edit::Query(Box::new(query(r, 0))),
    }
}

pub fn shape_k(r: &mut Rng, ninputs: usize) -> K {
    let k = r.range(1, 4) as usize;
    // many loops side by side: more than one node of the tree over them
    let many = r.chance(0.06);
    let ids = if many {
        let first = r.below(8) as u32;
        (0..r.range(17, 40) as u32).map(|t| r.below(ninputs.max(1)) as u32 | (first + t + 1) << TILE).collect()
    } else {
        (0..k).map(|_| r.below(ninputs.max(1)) as u32).collect()
    };
    let n = if many { r.range(1, 2) } else { r.range(1, 5) } as usize;
    let steps = (0..n)
        .map(|_| match r.below(8) {
            0 => ShapeStep::CloneIt,
            1 => ShapeStep::Restart,
            2 => ShapeStep::Peek(F(dist(r).0 * 0.5)),
            _ => ShapeStep::Offset(F(dist(r).0 * *r.pick(&[0.2, 0.5, 1.0]))),
        })
        .collect();
    K::Shape(ids, steps, F(1e-5), F(1e-4), F(1e-4))
}

/// The public math functions, with arguments a caller has (and, with probability `wild` each, ones
/// that only come out of earlier mistakes).
pub fn math_k(r: &mut Rng, wild: f64) -> K {
    let mut a = [F(0.0); 8];
    for x in a.iter_mut() {
        *x = if r.chance(wild) {
            F(match r.below(4) {
                0 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX, 5e-324, -0.0]),
                1 => f64::from_bits(r.u64()),
                2 => *r.pick(&[1e9, -1e9, 1e16, -1e17, 1e100, 1e300, -1e300, 1e-300]),
                _ => r.fr(-1.0, 1.0) * 10f64.powi(r.range(0, 30) as i32),
            })
        } else if r.chance(0.3) {
            F(*r.pick(&[0.0, 1.0, -1.0, std::f64::consts::PI, std::f64::consts::TAU, -std::f64::consts::FRAC_PI_2, 1e-5, 1e-9, 0.5]))
        } else {
            coord(r)
        };
    }
    if r.chance(0.5) {
        a[7] = eps(r);
    }
    K::Math(r.below(glue::MATHS as usize) as u8, a, r.chance(0.3))
}

/// Any single computation.
pub fn query(r: &mut Rng, depth: u32) -> K {
    match r.weighted(&[2, 2, 2, 2, 3, 3, 4, 3, 2, 4, 4, 3, 2, 2, 3, 3, 3, 8, 3, 8, 16, 16, 1, 2, 6, 4, 2, 5, 3, 3]) {
        0 => K::Area,
        1 => K::PathLen,
        2 => K::Extents,
        3 => K::Orient,
        4 => K::Iter,
        5 => K::Wn(coord(r), coord(r)),
        6 => K::Closest(coord(r), coord(r), eps(r)),
        7 => K::Index(r.chance(0.5)),
        8 => K::IndexQuery(r.chance(0.5), F(-3.0), F(-3.0), coord(r), coord(r)),
        9 => K::RemRepeat(eps(r)),
        10 => K::RemRedundant(eps(r)),
        11 => K::RotStart(r.below(8) as u32, coord(r), coord(r), eps(r)),
        12 => K::ArcsToLines(F(*r.pick(&[1e-2, 1e-1, 0.5, 1e-3]))),
        13 => K::PtAtLen(F(r.fr(-1.0, 30.0))),
        14 => K::Copy(r.below(5) as u8, eps(r)),
        15 => K::RawOffset(dist(r), F(1e-5)),
        16 => K::OffsetParts(dist(r), r.chance(0.5)),
        17 => K::SelfIntr(r.below(3) as u8, F(1e-5), ix(r)),
        18 => K::AllSelfBasic(r.chance(0.5), F(1e-5)),
        19 => K::FindIntr(F(1e-5), ix(r)),
        20 => offset_k(r),
        21 => bool_k(r),
        22 => K::FuzzyEq(eps(r)),
        23 => K::Wrap(r.below(99) as u32, r.below(99) as u32),
        24 => slice_k(r),
        25 => K::Seg(r.below(10) as u8, coord(r), coord(r), F(1e-5)),
        26 => K::Single(r.below(4) as u8, dist(r), F(0.0)),
        27 => shape_k(r, 6),
        29 => math_k(r, 0.05),
        _ if depth > 0 => {
            let n = r.range(2, 14) as usize;
            K::Edits(false, (0..n).map(|_| edit(r, 1)).collect())
        }
        _ => K::Area,
    }
}
