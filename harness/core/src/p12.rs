//! Triangulation of single polygons (P12), judged by exact integer geometry.
use crate::geo::*;
use crate::mt::*;
use engine::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Algo {
    Ear,
    EarRandom,
    Sweep,
    SweepDynamic,
    SweepDelaunay,
    MinWeight,
    Small,
}

pub trait Flt: Scalar + 'static {
    const F32: bool;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Flt for f64 {
    const F32: bool = false;
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
impl Flt for f32 {
    const F32: bool = true;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}
pub type Iv<V, S> = IndexedVertex2D<V, VecN<S, 2>>;

/// Runs an algorithm on a vertex list; returns the new part of the list.
pub fn run<S: Flt + nalgebra_ok::Ok, V: IndexType>(algo: Algo, vs: &Vec<Iv<V, S>>, before: &[V]) -> Result<Vec<V>, Fail>
where
    VecN<S, 2>: Vector2D<S = S>,
    Polygon2d<S>: Polygon<VecN<S, 2>>,
{
    let mut out: Vec<V> = before.to_vec();
    let r = catch(|| {
        let mut tri = Triangulation::new(&mut out);
        let mut meta = TesselationMeta::<V>::default();
        match algo {
            Algo::Ear | Algo::EarRandom => {
                let l: Vec<(VecN<S, 2>, V)> = vs.iter().map(|v| (v.vec, v.index)).collect();
                ear_clipping_direct(&l, &mut tri, algo == Algo::EarRandom);
            }
            Algo::Sweep => sweep_line_triangulation::<LinearMonoTriangulator<V, VecN<S, 2>>>(&mut tri, vs, &mut meta.sweep),
            Algo::SweepDynamic => sweep_line_triangulation::<DynamicMonoTriangulator<V, VecN<S, 2>, Polygon2d<S>>>(&mut tri, vs, &mut meta.sweep),
            Algo::SweepDelaunay => sweep_line_triangulation::<DelaunayMonoTriangulator<V, VecN<S, 2>>>(&mut tri, vs, &mut meta.sweep),
            Algo::MinWeight => minweight_dynamic_direct::<V, VecN<S, 2>, Polygon2d<S>>(vs, &mut tri),
            Algo::Small => {
                assert!(try_min_weight_small_direct::<V, VecN<S, 2>, Polygon2d<S>>(vs, &mut tri), "not small");
            }
        }
    });
    if let Err(p) = r {
        return fail("panic", format!("{:?} panics: {}", algo, p));
    }
    ensure!(out.len() >= before.len() && out[..before.len()] == *before, "existing", "{:?} changed the existing part of the list", algo);
    Ok(out[before.len()..].to_vec())
}
pub mod nalgebra_ok {
    /// scalars with nalgebra vectors
    pub trait Ok: super::Flt {}
    impl Ok for f32 {}
    impl Ok for f64 {}
}

/// Translates global indices back into corners.
pub fn corners<V: IndexType>(ix: &[V], raw: &[V]) -> Result<Vec<[usize; 3]>, Fail> {
    ensure!(raw.len() % 3 == 0, "count", "{} indices are no multiple of three", raw.len());
    let back: HashMap<V, usize> = ix.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut l = vec![];
    for v in raw {
        match back.get(v) {
            Some(i) => l.push(*i),
            None => return fail("foreign", format!("index {:?} does not belong to the polygon", v)),
        }
    }
    Ok(l.chunks(3).map(|c| [c[0], c[1], c[2]]).collect())
}

/// A placement of the integer polygon; `true` if it is exact.
pub fn place(src: &mut Src, c: &mut Ctx, p: &[P], f32s: bool, exact_only: bool) -> (Vec<[f64; 2]>, bool) {
    let k = if exact_only { src.below(2) } else { src.below(4) };
    let lim = if f32s { 3 } else { 8 };
    match k {
        0 => (p.iter().map(|q| [q[0] as f64, q[1] as f64]).collect(), true),
        1 => {
            let s = 2f64.powi(src.int(-lim, lim) as i32);
            c.log(|| format!("scaled by {}", s));
            (p.iter().map(|q| [q[0] as f64 * s, q[1] as f64 * s]).collect(), true)
        }
        _ => {
            let a = src.real(0.0, 6.3);
            let s = 2f64.powf(src.real(-(lim as f64), lim as f64));
            let t = [src.real(-10.0, 10.0) * s, src.real(-10.0, 10.0) * s];
            c.log(|| format!("rotated by {}, scaled by {}, moved by {:?}", a, s, t));
            let (sn, cs) = a.sin_cos();
            (
                p.iter()
                    .map(|q| {
                        let (x, y) = (q[0] as f64 * s, q[1] as f64 * s);
                        [x * cs - y * sn + t[0], x * sn + y * cs + t[1]]
                    })
                    .collect(),
                false,
            )
        }
    }
}

/// Which polygons a case uses.
pub fn draw(src: &mut Src, c: &mut Ctx, max_n: usize, ties: bool) -> Option<(Vec<P>, bool)> {
    let all: Vec<usize> = (0..KINDS.len()).collect();
    if ties {
        let g = *src.pick(&[3i64, 8, 30]);
        let mut p = polygon(src, c, max_n, g, &all);
        if src.bool() {
            p = add_collinear(src, &p);
            c.label("collinear corners");
        }
        Some((p, false))
    } else {
        let p = polygon(src, c, max_n, 200, &[0, 0, 1, 2, 3]);
        if !general_position(&p) {
            return None;
        }
        Some((p, true))
    }
}

/// A simple quadrilateral (or triangle).
pub fn quad(src: &mut Src, ties: bool) -> Option<(Vec<P>, bool)> {
    let g = if ties { *src.pick(&[1i64, 2, 5]) } else { *src.pick(&[5i64, 30, 200]) };
    let q: Vec<P> = (0..if src.chance(1, 10) { 3 } else { 4 }).map(|_| [src.int(-g, g), src.int(-g, g)]).collect();
    let orders: &[[usize; 4]] = &[[0, 1, 2, 3], [0, 1, 3, 2], [0, 2, 1, 3], [0, 2, 3, 1], [0, 3, 1, 2], [0, 3, 2, 1]];
    for o in orders {
        let p: Vec<P> = o.iter().filter(|i| **i < q.len()).map(|i| q[*i]).collect();
        if is_simple(&p) && area2(&p) > 0 && (ties || general_position(&p)) {
            let mut p = p;
            let k = src.below(p.len() as u64) as usize;
            p.rotate_left(k);
            return Some((p, !ties));
        }
    }
    None
}

pub fn one<S: Flt + nalgebra_ok::Ok, V: IndexType>(src: &mut Src, c: &mut Ctx, algo: Algo, ties: bool, max_n: usize) -> Res
where
    VecN<S, 2>: Vector2D<S = S>,
    Polygon2d<S>: Polygon<VecN<S, 2>>,
{
    let d = if algo == Algo::Small { quad(src, ties) } else { draw(src, c, max_n, ties) };
    let Some((p, general)) = d else { return c.discard() };
    let n = p.len();
    if algo == Algo::MinWeight && n < 4 {
        return c.discard();
    }
    c.log(|| format!("polygon {:?}", p));
    let (pts, _) = place(src, c, &p, S::F32, !general);
    // arbitrary indices
    let mut ids: Vec<usize> = (0..n).collect();
    let mut before: Vec<V> = vec![];
    if src.bool() {
        let pm = src.perm(n * 3);
        ids = pm[..n].to_vec();
        before = (0..3 * src.usize(0, 3)).map(|_| V::new(src.below(200) as usize)).collect();
        c.log(|| format!("indices {:?}, {} triangles exist already", ids, before.len() / 3));
    }
    let vs: Vec<Iv<V, S>> = (0..n).map(|i| IndexedVertex2D::new(VecN::<S, 2>::new(S::of(pts[i][0]), S::of(pts[i][1])), V::new(ids[i]))).collect();
    let ix: Vec<V> = vs.iter().map(|v| v.index).collect();
    let raw = run::<S, V>(algo, &vs, &before)?;
    let mut tris = corners(&ix, &raw)?;
    if matches!(algo, Algo::Ear | Algo::EarRandom) && tris.first().map(|t| orient(p[t[0]], p[t[1]], p[t[2]])).unwrap_or(0) <= 0 {
        // recorded separately: ear clipping emits all its triangles clockwise
        for t in &mut tris {
            t.swap(1, 2);
        }
    }
    partition(&p, &tris, general)?;
    if n > 3 {
        c.nontrivial();
    }
    if !is_convex(&p) {
        c.label("concave");
    }
    Ok(())
}

fn ear_orientation() -> Option<String> {
    let vs: Vec<Iv<usize, f64>> = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]].iter().enumerate().map(|(i, q)| IndexedVertex2D::new(V2::new(q[0], q[1]), i)).collect();
    let raw = run::<f64, usize>(Algo::Ear, &vs, &[]).ok()?;
    let t = corners(&[0, 1, 2], &raw).ok()?;
    let p = [[0, 0], [1, 0], [0, 1]];
    (t.len() == 1 && orient(p[t[0][0]], p[t[0][1]], p[t[0][2]]) < 0).then(|| format!("ear_clipping_direct emits the clockwise triangle {:?} for the counter-clockwise polygon (0,0) (1,0) (0,1)", t[0]))
}

pub fn prop12() -> Property {
    macro_rules! t {
        ($n:expr, $q:expr, $s:ty, $v:ty, $a:expr, $ties:expr, $max:expr) => {
            target($n, $q * 3, $q * 75, |s, c| one::<$s, $v>(s, c, $a, $ties, $max))
        };
    }
    let mut targets = vec![
        t!("ear_general_f64", 30000, f64, usize, Algo::Ear, false, 24),
        t!("ear_general_f32", 15000, f32, u32, Algo::Ear, false, 24),
        t!("ear_random_f64", 15000, f64, u16, Algo::EarRandom, false, 24),
        t!("ear_ties_f64", 40000, f64, usize, Algo::Ear, true, 24),
        t!("ear_large_f64", 3000, f64, usize, Algo::Ear, true, 80),
        t!("sweep_general_f64", 50000, f64, usize, Algo::Sweep, false, 24),
        t!("sweep_general_f32", 50000, f32, u32, Algo::Sweep, false, 24),
        t!("sweep_ties_f64", 60000, f64, usize, Algo::Sweep, true, 24),
        t!("sweep_ties_f32", 60000, f32, u32, Algo::Sweep, true, 24),
        t!("sweep_large_f64", 6000, f64, usize, Algo::Sweep, true, 120),
        t!("sweep_large_f32", 6000, f32, usize, Algo::Sweep, true, 120),
        t!("dynamic_general_f64", 30000, f64, usize, Algo::SweepDynamic, false, 16),
        t!("dynamic_ties_f64", 30000, f64, usize, Algo::SweepDynamic, true, 16),
        t!("dynamic_large_f64", 2000, f64, usize, Algo::SweepDynamic, true, 60),
        t!("sweepdelaunay_general_f64", 30000, f64, usize, Algo::SweepDelaunay, false, 24),
        t!("sweepdelaunay_ties_f64", 30000, f64, usize, Algo::SweepDelaunay, true, 24),
        t!("sweepdelaunay_large_f64", 4000, f64, usize, Algo::SweepDelaunay, true, 100),
        t!("minweight_general_f64", 20000, f64, usize, Algo::MinWeight, false, 16),
        t!("minweight_general_f32", 20000, f32, u32, Algo::MinWeight, false, 16),
        t!("minweight_ties_f64", 20000, f64, usize, Algo::MinWeight, true, 16),
        t!("minweight_large_f64", 600, f64, usize, Algo::MinWeight, true, 40),
        t!("small_general_f64", 60000, f64, usize, Algo::Small, false, 4),
        t!("small_general_f32", 60000, f32, u32, Algo::Small, false, 4),
        t!("small_ties_f64", 60000, f64, usize, Algo::Small, true, 4),
    ];
    targets.extend(crate::p13::face_targets());
    Property {
        id: "P12",
        rule: "random simple polygons with integer coordinates (grown, convex, star-shaped, untangled, monotone, cell outlines, combs, spirals, zigzags; with and without collinear corners), exactly scaled or generically moved; non-trivial: more than three corners",
        assumptions: &["polygons are simple and counter-clockwise", "generic placements only for polygons without three collinear corners; with collinear corners triangles without area are allowed", "coordinates are well above the absolute tolerance of the scalar type (scale at least 2^-3 for f32 and 2^-8 for f64)"],
        targets,
        known: vec![Known { id: "P12-ear-orientation", pinned: ear_orientation }],
    }
}
