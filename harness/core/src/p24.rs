//! Planar predicates and polygon measures against exact geometry (P24).
use crate::geo::*;
use crate::p23::Ar;
use engine::*;
use nalgebra::SVector;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;

/// A polygon type with its points.
pub trait Py: Polygon<Self::V> {
    type V: Ar<2> + Vector2D<S = <Self::V as Ar<2>>::T>;
    /// largest integer coordinates whose products stay exact
    const BIG: i64;
    /// smallest exponent of a scale at which a unit of area exceeds the tolerance
    const LOW: i64;
}
impl Py for Polygon2d<f64> {
    type V = SVector<f64, 2>;
    const BIG: i64 = 1 << 22;
    const LOW: i64 = -20;
}
impl Py for Polygon2d<f32> {
    type V = SVector<f32, 2>;
    const BIG: i64 = 1 << 9;
    const LOW: i64 = -8;
}
#[cfg(feature = "bevy")]
impl Py for procedural_modelling::extensions::bevy::Polygon2dBevy {
    type V = bevy::math::Vec2;
    const BIG: i64 = 1 << 9;
    const LOW: i64 = -8;
}
type S<T> = <<T as Py>::V as Ar<2>>::T;

fn at<T: Py>(p: P, k: f64) -> T::V {
    T::V::mk([p[0] as f64 * k, p[1] as f64 * k])
}
fn s<T: Py>(x: f64) -> S<T> {
    T::V::s(x)
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

/// The points of an outline, moved and scaled without losing exactness.
fn outline<T: Py>(src: &mut Src, c: &mut Ctx, max: usize) -> (Vec<P>, f64, bool) {
    let g = (*src.pick(&[4, 8, 16, 64])).min(T::BIG / 8);
    let max = if src.chance(1, 40) { 6 * max } else { max };
    let simple = src.chance(3, 4);
    let mut p = if simple {
        let q = polygon(src, c, max, g, &[0, 1, 2, 3, 4, 5, 6, 7, 8]);
        if src.chance(1, 4) && q.len() < 40 { add_collinear(src, &q) } else { q }
    } else {
        c.label("closed curve");
        let n = src.sized(0, max);
        (0..n).map(|_| [src.int(-g, g), src.int(-g, g)]).collect()
    };
    // blow up to many digits
    let m = p.iter().flatten().map(|x| x.abs()).max().unwrap_or(1).max(1);
    if m < T::BIG && src.chance(1, 3) {
        let k = src.int(1, T::BIG / m);
        p = p.iter().map(|q| [q[0] * k, q[1] * k]).collect();
    }
    let m = p.iter().flatten().map(|x| x.abs()).max().unwrap_or(1).max(1);
    if m < T::BIG && src.chance(1, 3) {
        let (x, y) = (src.int(m - T::BIG, T::BIG - m), src.int(m - T::BIG, T::BIG - m));
        p = p.iter().map(|q| [q[0] + x, q[1] + y]).collect();
        c.label("moved");
    }
    if src.bool() {
        p.reverse();
    }
    let k = if src.bool() { 1.0 } else { (2.0f64).powi(src.int(T::LOW, 12) as i32) };
    (p, k, simple)
}

pub fn winding(p: &[P], q: P) -> Option<i32> {
    let n = p.len();
    let mut w = 0;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if on_segment(a, b, q) {
            return None;
        }
        if a[1] <= q[1] {
            w += (b[1] > q[1] && orient(a, b, q) > 0) as i32;
        } else {
            w -= (b[1] <= q[1] && orient(a, b, q) < 0) as i32;
        }
    }
    Some(w)
}

pub fn measures<T: Py>(src: &mut Src, c: &mut Ctx) -> Res {
    let (p, k, _) = outline::<T>(src, c, 32);
    c.log(|| format!("{} points times {}: {:?}", p.len(), k, p));
    let n = p.len();
    let u = T::V::U;
    let pts: Vec<T::V> = p.iter().map(|q| at::<T>(*q, k)).collect();
    let y = T::from_points(&pts);
    ensure!(y.points() == pts.as_slice() && y.num_points() == n, "points", "the points are {:?}", y.points());
    let z = <T as Polygon<T::V>>::from_iter(pts.iter().copied());
    ensure!(z == y, "from_iter", "from_iter gives {:?}", z);
    let a2 = area2(&p);
    let want = a2 as f64 / 2.0 * k * k;
    // for single precision the sum may need more digits
    let tol = if T::BIG > 1 << 20 { 0.0 } else { 8.0 * u * (0..n).map(|i| (p[i][0] * p[(i + 1) % n][1]).abs() as f64 + (p[i][1] * p[(i + 1) % n][0]).abs() as f64).sum::<f64>() * k * k };
    let tol = tol.min(want.abs() * 4.0 * u + 1e-300 + tol * u * 16.0);
    let g = y.signed_area().to_f64();
    ensure!(near(g, want, tol + 4.0 * u * want.abs()), "signed-area", "the signed area is {}, expected {}", g, want);
    ensure!(y.area().to_f64() == g.abs(), "area", "the area is {}, the signed area {}", y.area(), g);
    ensure!(y.is_ccw() == (a2 >= 0) && y.is_cw() == (a2 <= 0), "orientation", "is_ccw {}, is_cw {} for twice the area {}", y.is_ccw(), y.is_cw(), a2);
    if a2 != 0 && n > 3 {
        c.nontrivial();
    }
    if n > 0 {
        let g = y.centroid().co();
        for i in 0..2 {
            let w = p.iter().map(|q| q[i]).sum::<i64>() as f64 * k / n as f64;
            let m = p.iter().map(|q| q[i].abs()).sum::<i64>() as f64 * k / n as f64;
            ensure!(near(g[i], w, 6.0 * u * m), "centroid", "the mean of the points is {:?}, expected {} for coordinate {}", g, w, i);
        }
    }
    // as a curve: rotated lists, reversed lists, rigid motions
    if n > 2 {
        let r = src.usize(0, n - 1);
        let mut q = pts.clone();
        q.rotate_left(r);
        let h = T::from_points(&q).signed_area().to_f64();
        ensure!(near(h, g, 2.0 * (tol + 4.0 * u * want.abs())), "rotated-list", "starting at point {} changes the area from {} to {}", r, g, h);
        q.reverse();
        let h = T::from_points(&q).signed_area().to_f64();
        ensure!(near(h, -g, 2.0 * (tol + 4.0 * u * want.abs())), "reversed-list", "reversing changes the area from {} to {}", g, h);
        let t = src.angle();
        let q: Vec<T::V> = p.iter().map(|q| T::V::mk([k * (q[0] as f64 * t.cos() - q[1] as f64 * t.sin()), k * (q[0] as f64 * t.sin() + q[1] as f64 * t.cos())])).collect();
        let m: f64 = (0..n).map(|i| ((p[i][0] as f64).powi(2) + (p[i][1] as f64).powi(2)) * k * k).sum();
        let h = T::from_points(&q).signed_area().to_f64();
        ensure!(near(h, want, 16.0 * u * m), "turned", "turning by {} changes the area from {} to {}", t, want, h);
    }
    Ok(())
}

pub fn contains<T: Py>(src: &mut Src, c: &mut Ctx) -> Res {
    let (p, k, simple) = outline::<T>(src, c, 24);
    let n = p.len();
    c.log(|| format!("{} points times {}: {:?}", p.len(), k, p));
    let y = T::from_points(&p.iter().map(|q| at::<T>(*q, k)).collect::<Vec<_>>());
    let (lo, hi) = (0..2).map(|i| (p.iter().map(|q| q[i]).min().unwrap_or(0), p.iter().map(|q| q[i]).max().unwrap_or(0))).fold((vec![], vec![]), |mut a, b| {
        a.0.push(b.0);
        a.1.push(b.1);
        a
    });
    let (mut inside, mut outside) = (0, 0);
    for _ in 0..12 {
        let q = match src.below(6) {
            // level with a corner
            0 | 1 if n > 0 => {
                let a = p[src.usize(0, n - 1)];
                [src.int(lo[0] - 1, hi[0] + 1), a[1]]
            }
            2 if n > 0 => {
                let a = p[src.usize(0, n - 1)];
                [a[0], src.int(lo[1] - 1, hi[1] + 1)]
            }
            3 if n > 0 => {
                let a = p[src.usize(0, n - 1)];
                [a[0] + src.int(-1, 1), a[1] + src.int(-1, 1)]
            }
            4 if n > 1 => {
                let i = src.usize(0, n - 1);
                let (a, b) = (p[i], p[(i + 1) % n]);
                [(a[0] + b[0]) / 2 + src.int(-1, 1), (a[1] + b[1]) / 2 + src.int(-1, 1)]
            }
            _ => [src.int(lo[0] - 1, hi[0] + 1), src.int(lo[1] - 1, hi[1] + 1)],
        };
        let Some(w) = winding(&p, q) else { continue };
        let g = y.contains(&at::<T>(q, k));
        ensure!(g == (w != 0), "contains", "the outline winds {} times around {:?}, contains answers {}", w, q, g);
        inside += (w != 0) as usize;
        outside += (w == 0) as usize;
    }
    if inside > 0 && outside > 0 {
        c.nontrivial();
        if simple {
            c.label("both sides");
        }
    }
    Ok(())
}

pub fn diagonals<T: Py>(src: &mut Src, c: &mut Ctx) -> Res {
    let g = *src.pick(&[3, 6, 20, 64]);
    let max = if src.chance(1, 40) { 64 } else { 16 };
    let mut p = polygon(src, c, max, g, &[0, 1, 2, 3, 4, 5, 6, 7, 8]);
    if src.chance(1, 4) {
        p = add_collinear(src, &p);
    }
    let n = p.len();
    let back = src.bool();
    let k = if src.bool() { 1.0 } else { (2.0f64).powi(src.int(T::LOW, 12) as i32) };
    c.log(|| format!("{} points times {}, reversed: {}: {:?}", n, k, back, p));
    let mut q = p.clone();
    if back {
        q.reverse();
    }
    let y = T::from_points(&q.iter().map(|q| at::<T>(*q, k)).collect::<Vec<_>>());
    let (mut yes, mut no) = (0, 0);
    for i in 0..n {
        for j in 0..n {
            let (a, b) = if back { (n - 1 - i, n - 1 - j) } else { (i, j) };
            let want = if i == j {
                false
            } else if (i + 1) % n == j || (j + 1) % n == i {
                true
            } else {
                if (0..n).any(|l| l != i && l != j && on_segment(p[i], p[j], p[l])) {
                    continue; // touches a corner
                }
                let d = diagonal(&p, i, j);
                yes += d as usize;
                no += !d as usize;
                d
            };
            let g = y.valid_diagonal(a, b);
            ensure!(g == want, "diagonal", "the diagonal from {:?} to {:?} is valid: {}, answered {}", p[i], p[j], want, g);
        }
    }
    if yes > 0 && no > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Two segments, with the crossing as a fraction.
pub fn segments<T: Py>(src: &mut Src, c: &mut Ctx) -> Res {
    let g = (*src.pick(&[2, 5, 30, 1000])).min(T::BIG / 2);
    let pt = |src: &mut Src| [src.int(-g, g), src.int(-g, g)];
    let (a, b, d) = (pt(src), pt(src), pt(src));
    let e = match src.below(4) {
        // parallel
        0 => [d[0] + b[0] - a[0], d[1] + b[1] - a[1]],
        _ => pt(src),
    };
    let k = if src.bool() { 1.0 } else { (2.0f64).powi(src.int(T::LOW, 12) as i32) };
    let u = T::V::U;
    type L<T> = LineSegment2D<<T as Py>::V>;
    let (va, vb) = (at::<T>(a, k), at::<T>(b, k));
    let x: L<T> = LineSegment2D::new(va, vb);
    let y: L<T> = LineSegment2D::new(at::<T>(d, k), at::<T>(e, k));
    ensure!(x.start() == va && x.end() == vb, "ends", "the ends of {:?} {:?} are {:?} {:?}", a, b, x.start(), x.end());
    let l2 = d2(a, b) as f64 * k * k;
    ensure!(near(x.length_squared().to_f64(), l2, 8.0 * u * l2) && near(x.length().to_f64(), l2.sqrt(), 8.0 * u * l2.sqrt()), "length", "the length of {:?} {:?} times {} is {}", a, b, k, x.length());
    let m = x.midpoint().co();
    ensure!((0..2).all(|i| m[i] == (a[i] + b[i]) as f64 / 2.0 * k), "midpoint", "the midpoint of {:?} {:?} times {} is {:?}", a, b, k, m);
    if a != b {
        let q = x.direction().co();
        let l = (d2(a, b) as f64).sqrt();
        ensure!((0..2).all(|i| near(q[i], (b[i] - a[i]) as f64 / l, 12.0 * u)), "direction", "the direction of {:?} {:?} is {:?}", a, b, q);
    }
    // exact fractions
    let r = [b[0] - a[0], b[1] - a[1]];
    let w = [e[0] - d[0], e[1] - d[1]];
    let q = [d[0] - a[0], d[1] - a[1]];
    let x2 = |p: P, q: P| p[0] * q[1] - p[1] * q[0];
    let (den, tn, un) = (x2(r, w), x2(q, w), x2(q, r));
    let eps2 = *src.pick(&[0.0, 1.0 / 1024.0, 0.25, 1.0]);
    let unit = k * k;
    let eps = match src.below(4) {
        0 => 0.0,
        1 => unit * 0.5,
        2 => unit * (den.abs() as f64 + 0.5),
        _ => unit * (den.abs() as f64 * 0.5),
    };
    c.log(|| format!("{:?} {:?} and {:?} {:?} times {}, eps {}, eps2 {}", a, b, d, e, k, eps, eps2));
    let got = x.intersect_line(&y, s::<T>(eps), s::<T>(eps2));
    if den as f64 * unit != 0.0 && den.abs() as f64 * unit > eps {
        let (t, v) = (tn as f64 / den as f64, un as f64 / den as f64);
        let tight = |z: f64| {
            // exactly on an end is a hit (both are exact then), next to a bound moved by eps2 is left open
            (z != 0.0 && z != 1.0 || eps2 > 0.0 && eps2 < 1.0) && ((z + eps2).abs() < 1e-5 || (z - 1.0 - eps2).abs() < 1e-5)
        };
        if tight(t) || tight(v) || eps2 == 1.0 && (t == -1.0 || v == -1.0 || t == 2.0 || v == 2.0) {
            return c.discard();
        }
        let hit = |z: f64| z >= -eps2 && z <= 1.0 + eps2;
        let want = hit(t) && hit(v);
        ensure!(got.is_some() == want, "intersects", "the lines meet at {} and {} of the segments, the answer is {:?}", t, v, got);
        if let Some(p) = got {
            let p = p.co();
            c.label("meet");
            for i in 0..2 {
                let z = (a[i] as f64 + r[i] as f64 * t) * k;
                ensure!(near(p[i], z, 8.0 * u * k * (a[i].abs() as f64 + (r[i] as f64 * t).abs())), "crossing", "the segments cross at {:?}, expected {} for coordinate {}", p, z, i);
            }
        } else {
            c.label("apart");
        }
        c.nontrivial();
    } else {
        ensure!(got.is_none(), "parallel", "parallel segments meet at {:?}", got);
        c.label("parallel");
    }
    Ok(())
}

pub fn corners<T: Py>(src: &mut Src, c: &mut Ctx) -> Res {
    let g = *src.pick(&[2, 5, 30, T::BIG / 2]);
    let pt = |src: &mut Src| [src.int(-g, g), src.int(-g, g)];
    let (a, b, d) = (pt(src), pt(src), pt(src));
    let q = match src.below(4) {
        0 => [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2],
        1 => [(a[0] + b[0] + d[0]) / 3, (a[1] + b[1] + d[1]) / 3],
        _ => pt(src),
    };
    let k = if src.bool() { 1.0 } else { (2.0f64).powi(src.int(T::LOW, 12) as i32) };
    c.log(|| format!("{:?} {:?} {:?} and {:?} times {}", a, b, d, q, k));
    let (va, vb, vd, vq) = (at::<T>(a, k), at::<T>(b, k), at::<T>(d, k), at::<T>(q, k));
    let o = orient(a, b, d);
    if o != 0 {
        c.nontrivial();
    }
    ensure!(vb.convex(va, vd) == (o > 0), "convex", "the corner {:?} {:?} {:?} is convex: {}", a, b, d, vb.convex(va, vd));
    let eps = match src.below(3) {
        0 => 0.0,
        1 => (o.abs() as f64 + 0.5) * k * k,
        _ => o.abs() as f64 * 0.5 * k * k,
    };
    let want = o.abs() as f64 * k * k <= eps;
    for (x, y, z) in [(va, vb, vd), (vb, vd, va), (vd, va, vb), (va, vd, vb)] {
        ensure!(x.collinear(y, z, s::<T>(eps)) == want, "collinear", "{:?} {:?} {:?} are collinear up to {}: {}", x, y, z, eps, !want);
    }
    let (x, y, z) = (orient(q, a, b).signum(), orient(q, b, d).signum(), orient(q, d, a).signum());
    if o != 0 && x != 0 && y != 0 && z != 0 {
        let want = x == y && y == z;
        for (i, j, l) in [(va, vb, vd), (vb, vd, va), (vd, vb, va)] {
            ensure!(vq.is_inside_triangle(i, j, l) == want, "inside-triangle", "{:?} is inside {:?} {:?} {:?}: {}", q, i, j, l, !want);
        }
        c.label(if want { "inside" } else { "outside" });
    } else if o == 0 {
        ensure!(!vq.is_inside_triangle(va, vb, vd), "inside-triangle", "{:?} is inside a triangle without area", q);
    }
    Ok(())
}

macro_rules! list {
    ($t:ty, $m:literal, $k:literal, $d:literal, $s:literal, $c:literal) => {
        vec![
            target($m, 150000, 4000000, measures::<$t>),
            target($k, 100000, 3000000, contains::<$t>),
            target($d, 40000, 1500000, diagonals::<$t>),
            target($s, 400000, 10000000, segments::<$t>),
            target($c, 400000, 10000000, corners::<$t>),
        ]
    };
}
#[cfg(feature = "bevy")]
pub fn bevy24() -> Vec<Target> {
    list!(procedural_modelling::extensions::bevy::Polygon2dBevy, "measures_bevy", "contains_bevy", "diagonals_bevy", "segments_bevy", "corners_bevy")
}
pub fn prop24_with(extra: Vec<Target>) -> Property {
    let mut targets = list!(Polygon2d<f64>, "measures_f64", "contains_f64", "diagonals_f64", "segments_f64", "corners_f64");
    targets.extend(list!(Polygon2d<f32>, "measures_f32", "contains_f32", "diagonals_f32", "segments_f32", "corners_f32"));
    targets.extend(extra);
    Property {
        id: "P24",
        rule: "the polygon has an area and more than three corners (measures), points lie on both sides (containment), valid and invalid diagonals occur, the lines are not parallel, the three points are not collinear",
        assumptions: &[
            "coordinates are integers times a power of two, so that the inputs are exact and integer arithmetic decides",
            "points on an outline, diagonals touching a corner and crossings at the tolerance are not judged",
            "diagonal validity is judged at scales where a unit of area exceeds the absolute tolerance (2^-20 in f64, 2^-8 in f32)",
        ],
        targets,
        known: vec![],
    }
}
