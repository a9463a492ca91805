//! Optimality of triangulations (P14), judged by enumeration over exact diagonals and exact in-circle tests.
use crate::geo::*;
use crate::mt::*;
use crate::p12::*;
use crate::p13::*;
use engine::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeMap;

fn len(a: P, b: P) -> f64 {
    (d2(a, b) as f64).sqrt()
}
/// Total length of the diagonals of the best triangulation.
pub fn optimum(p: &[P]) -> f64 {
    let n = p.len();
    let mut ok = vec![vec![None; n]; n];
    for i in 0..n {
        for j in i + 1..n {
            let edge = j == i + 1 || (i == 0 && j == n - 1);
            ok[i][j] = if edge { Some(0.0) } else { diagonal(p, i, j).then(|| len(p[i], p[j])) };
        }
    }
    let mut best = vec![vec![f64::INFINITY; n]; n];
    for i in 0..n - 1 {
        best[i][i + 1] = 0.0;
    }
    for w in 2..n {
        for i in 0..n - w {
            let j = i + w;
            let Some(l) = ok[i][j] else { continue };
            for k in i + 1..j {
                if ok[i][k].is_some() && ok[k][j].is_some() {
                    let x = best[i][k] + best[k][j] + l;
                    if x < best[i][j] {
                        best[i][j] = x;
                    }
                }
            }
        }
    }
    best[0][n - 1]
}
/// interior diagonals with the corner opposite to them on their left
pub fn diagonals(p: &[P], tris: &[[usize; 3]]) -> BTreeMap<(usize, usize), usize> {
    let n = p.len();
    let mut m = BTreeMap::new();
    for t in tris {
        for i in 0..3 {
            let (a, b) = (t[i], t[(i + 1) % 3]);
            if (a + 1) % n != b {
                m.insert((a, b), t[(i + 2) % 3]);
            }
        }
    }
    m
}
fn total(p: &[P], tris: &[[usize; 3]]) -> f64 {
    diagonals(p, tris).keys().filter(|(a, b)| a < b).map(|(a, b)| len(p[*a], p[*b])).sum()
}
/// positive if d is inside of the circumcircle of the counter-clockwise triangle abc
pub fn in_circle(a: P, b: P, c: P, d: P) -> i128 {
    let r = |q: P| [(q[0] - d[0]) as i128, (q[1] - d[1]) as i128, d2(q, d)];
    let (a, b, c) = (r(a), r(b), r(c));
    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}
/// Every diagonal passes the empty circle test (in a concave quad, it always does).
pub fn delaunay(p: &[P], tris: &[[usize; 3]]) -> Res {
    let m = diagonals(p, tris);
    for ((a, b), c) in &m {
        if a > b {
            continue;
        }
        let Some(d) = m.get(&(*b, *a)) else { continue };
        let k = in_circle(p[*a], p[*b], p[*c], p[*d]);
        ensure!(k <= 0, "not-delaunay", "diagonal {:?} is not locally Delaunay: corner {} is inside of the circle through {} {} {}", (a, b), d, a, b, c);
    }
    Ok(())
}

fn points<S: Flt + nalgebra_ok::Ok>(pts: &[[f64; 2]]) -> Vec<Iv<usize, S>>
where
    VecN<S, 2>: Vector2D<S = S>,
{
    pts.iter().enumerate().map(|(i, q)| IndexedVertex2D::new(VecN::<S, 2>::new(S::of(q[0]), S::of(q[1])), i)).collect()
}
fn solve<S: Flt + nalgebra_ok::Ok>(p: &[P], pts: &[[f64; 2]], a: Algo) -> Result<Vec<[usize; 3]>, Fail>
where
    VecN<S, 2>: Vector2D<S = S>,
    Polygon2d<S>: Polygon<VecN<S, 2>>,
{
    let vs = points::<S>(pts);
    let ix: Vec<usize> = (0..p.len()).collect();
    let t = corners(&ix, &run::<S, usize>(a, &vs, &[])?)?;
    partition(p, &t, true)?;
    Ok(t)
}

fn min_weight<S: Flt + nalgebra_ok::Ok>(src: &mut Src, c: &mut Ctx, a: Algo, max_n: usize) -> Res
where
    VecN<S, 2>: Vector2D<S = S>,
    Polygon2d<S>: Polygon<VecN<S, 2>>,
{
    let d = if a == Algo::Small { quad(src, false) } else { draw(src, c, max_n, false) };
    let Some((p, _)) = d else { return c.discard() };
    if p.len() < 4 {
        return c.discard();
    }
    c.log(|| format!("polygon {:?}", p));
    let (pts, _) = place(src, c, &p, S::F32, false);
    let t = solve::<S>(&p, &pts, a)?;
    let (got, want) = (total(&p, &t), optimum(&p));
    ensure!(got <= want * (1.0 + if S::F32 { 1e-4 } else { 1e-9 }), "not-minimal", "{:?} uses diagonals {:?} of total length {}, but {} is possible", a, diagonals(&p, &t).keys().filter(|(a, b)| a < b).collect::<Vec<_>>(), got, want);
    if !is_convex(&p) {
        c.label("concave");
    }
    c.nontrivial();
    Ok(())
}

/// minimum weight of a face of a mesh
fn min_face(src: &mut Src, c: &mut Ctx) -> Res {
    let Some(mut w) = world::<M64>(src, c, 12, true, false, 1)? else { return c.discard() };
    put(src, c, &mut w, false);
    let fs: Vec<FaceW> = w.faces()?.into_iter().filter(|f| flat(&w, f) && f.vs.len() > 3).collect();
    if fs.is_empty() {
        return c.discard();
    }
    let f = src.pick(&fs);
    let a = *src.pick(&[FaceAlgo::MinWeight, FaceAlgo::Face(TriangulationAlgorithm::MinWeight)]);
    let tris = local(f, &run_face(&w, f.id, a, &[])?)?;
    partition(&f.p, &tris, true)?;
    let (got, want) = (total(&f.p, &tris), optimum(&f.p));
    ensure!(got <= want * (1.0 + 1e-9), "not-minimal", "face {}: diagonals of total length {}, but {} is possible", f.id, got, want);
    c.nontrivial();
    Ok(())
}
fn flat<T: HT>(w: &World<T>, f: &FaceW) -> bool {
    f.vs.iter().all(|v| w.at(*v)[2] == w.at(f.vs[0])[2])
}
fn local(f: &FaceW, tris: &[[usize; 3]]) -> Result<Vec<[usize; 3]>, Fail> {
    tris.iter()
        .map(|t| {
            let mut k = [0; 3];
            for i in 0..3 {
                k[i] = match f.vs.iter().position(|v| *v == t[i]) {
                    Some(x) => x,
                    None => return fail("foreign", format!("vertex {} does not belong to face {}", t[i], f.id)),
                };
            }
            Ok(k)
        })
        .collect()
}

fn delaunay_face<T: HT>(src: &mut Src, c: &mut Ctx, general: bool, max_n: usize) -> Res {
    let Some(mut w) = world::<T>(src, c, max_n, general, false, 1)? else { return c.discard() };
    put(src, c, &mut w, !general);
    let fs: Vec<FaceW> = w.faces()?.into_iter().filter(|f| flat(&w, f) && f.vs.len() > 3).collect();
    if fs.is_empty() {
        return c.discard();
    }
    let f = src.pick(&fs);
    let mut al = vec![FaceAlgo::Delaunay];
    if f.vs.len() > 4 {
        al.push(FaceAlgo::Face(TriangulationAlgorithm::Delaunay));
        al.push(FaceAlgo::Face(TriangulationAlgorithm::Auto));
    }
    let a = *src.pick(&al);
    let tris = local(f, &run_face(&w, f.id, a, &[])?)?;
    partition(&f.p, &tris, general)?;
    delaunay(&f.p, &tris)?;
    let m = diagonals(&f.p, &tris);
    if m.iter().any(|((a, b), x)| m.get(&(*b, *a)).is_some_and(|y| orient(f.p[*x], f.p[*a], f.p[*y]) > 0 && orient(f.p[*y], f.p[*b], f.p[*x]) > 0)) {
        c.nontrivial();
    }
    Ok(())
}

fn dynamic<S: Flt + nalgebra_ok::Ok>(src: &mut Src, c: &mut Ctx, max_n: usize) -> Res
where
    VecN<S, 2>: Vector2D<S = S>,
    Polygon2d<S>: Polygon<VecN<S, 2>>,
{
    let Some((p, _)) = draw(src, c, max_n, false) else { return c.discard() };
    c.log(|| format!("polygon {:?}", p));
    let (pts, _) = place(src, c, &p, S::F32, false);
    let a = total(&p, &solve::<S>(&p, &pts, Algo::Sweep)?);
    let b = total(&p, &solve::<S>(&p, &pts, Algo::SweepDynamic)?);
    ensure!(b <= a * (1.0 + if S::F32 { 1e-4 } else { 1e-9 }), "longer", "diagonals of the dynamic sweep have length {}, those of the plain sweep {}", b, a);
    if b < a * (1.0 - 1e-9) {
        c.nontrivial();
    }
    // on a polygon that is monotone the dynamic sweep has nothing to cut first
    let q = monotone(&p, &pts);
    if q && p.len() > 3 {
        c.label("monotone");
        let want = optimum(&p);
        ensure!(b <= want * (1.0 + if S::F32 { 1e-4 } else { 1e-9 }), "monotone", "diagonals of the dynamic sweep of a monotone polygon have length {}, the optimum is {}", b, want);
    }
    Ok(())
}
/// strictly monotone with respect to y
fn monotone(p: &[P], pts: &[[f64; 2]]) -> bool {
    let n = p.len();
    let y = |i: usize| pts[i % n][1];
    (0..n).filter(|i| y(*i) > y(i + 1) && y(i + 1) < y(i + 2)).count() == 1 && (0..n).all(|i| (y(i) - y(i + 1)).abs() > 1e-3 * (y(0).abs() + 1e-3))
}
fn sweep_delaunay(src: &mut Src, c: &mut Ctx, max_n: usize) -> Res {
    let p = polygon(src, c, max_n, 200, &[1, 1, 4]);
    if !general_position(&p) {
        return c.discard();
    }
    c.log(|| format!("polygon {:?}", p));
    let (pts, _) = place(src, c, &p, false, false);
    if !monotone(&p, &pts) || p.len() < 4 {
        return c.discard();
    }
    let t = solve::<f64>(&p, &pts, Algo::SweepDelaunay)?;
    delaunay(&p, &t)?;
    c.nontrivial();
    Ok(())
}

pub fn prop14() -> Property {
    macro_rules! t {
        ($n:expr, $q:expr, |$s:ident, $c:ident| $e:expr) => {
            target($n, $q * 6, $q * 180, |$s: &mut Src, $c: &mut Ctx| $e)
        };
    }
    Property {
        id: "P14",
        rule: "random simple polygons (general position; grids with cocircular and collinear corners for Delaunay only), exactly or generically placed; the optimum is found by dynamic programming over exactly valid diagonals, circles are tested in exact integer arithmetic; non-trivial: more than three corners (minimum weight), some quad around a diagonal is convex (Delaunay), the dynamic sweep is strictly shorter (dynamic sweep)",
        assumptions: &["lengths are compared with a relative tolerance of 1e-9 (f64) or 1e-4 (f32)", "cocircular corners allow either diagonal"],
        targets: vec![
            t!("minweight_f64", 40000, |s, c| min_weight::<f64>(s, c, Algo::MinWeight, 12)),
            t!("minweight_f32", 20000, |s, c| min_weight::<f32>(s, c, Algo::MinWeight, 12)),
            t!("minweight_large", 1000, |s, c| min_weight::<f64>(s, c, Algo::MinWeight, 30)),
            t!("quad_f64", 80000, |s, c| min_weight::<f64>(s, c, Algo::Small, 4)),
            t!("quad_f32", 40000, |s, c| min_weight::<f32>(s, c, Algo::Small, 4)),
            t!("minweight_face", 10000, |s, c| min_face(s, c)),
            t!("delaunay_general", 30000, |s, c| delaunay_face::<M64>(s, c, true, 16)),
            t!("delaunay_exact", 30000, |s, c| delaunay_face::<M32>(s, c, false, 16)),
            t!("delaunay_large", 3000, |s, c| delaunay_face::<M64>(s, c, true, 40)),
            t!("dynamic_f64", 40000, |s, c| dynamic::<f64>(s, c, 14)),
            t!("dynamic_f32", 20000, |s, c| dynamic::<f32>(s, c, 14)),
            t!("sweep_delaunay_monotone", 40000, |s, c| sweep_delaunay(s, c, 16)),
        ],
        known: vec![],
    }
}
