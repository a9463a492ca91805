//! Shape queries of faces in space against exact integer geometry (P26).
use crate::geo::*;
use crate::p13::{newell, rotation, I3};
use crate::poly::*;
use engine::*;
use procedural_modelling::prelude::*;

type Me<T> = HalfEdgeMeshImpl<T>;

/// A closed curve of distinct neighbours; most kinds are not simple.
fn curve(src: &mut Src, c: &mut Ctx, max: usize, g: i64) -> Vec<P> {
    match src.below(8) {
        0 | 1 => polygon(src, c, max, g, &[1]),
        2 | 3 => {
            let p = polygon(src, c, max, g, &[0, 1, 2, 3, 4, 5, 6, 7, 8]);
            if src.bool() && p.len() < 30 { add_collinear(src, &p) } else { p }
        }
        4 => {
            // stars whose corners turn alternately
            let n = src.usize(3, (max / 2).max(3));
            let (a, b) = (g as f64, g as f64 * src.real(0.2, 0.9));
            let t = src.real(0.0, 6.28);
            c.log(|| format!("star with {} tips", n));
            (0..2 * n)
                .map(|i| {
                    let (r, w) = (if i % 2 == 0 { a } else { b }, t + i as f64 * std::f64::consts::PI / n as f64);
                    [(r * w.cos()).round() as i64, (r * w.sin()).round() as i64]
                })
                .collect()
        }
        5 => {
            // {n/k} star polygons: all corners turn the same way
            let n = src.usize(5, max.max(5));
            let k = src.usize(2, (n - 1) / 2);
            let t = src.real(0.0, 6.28);
            c.log(|| format!("star polygon {{{}/{}}}", n, k));
            let gcd = |mut a: usize, mut b: usize| {
                while b > 0 {
                    (a, b) = (b, a % b);
                }
                a
            };
            let d = gcd(n, k);
            (0..n)
                .map(|i| {
                    // several rounds one after the other, every one starting a step further
                    let j = (i * k + i / (n / d)) % n;
                    let w = t + j as f64 * std::f64::consts::TAU / n as f64;
                    [(g as f64 * w.cos()).round() as i64, (g as f64 * w.sin()).round() as i64]
                })
                .collect()
        }
        6 => {
            // a symmetric figure eight
            let (a, b) = (src.int(1, g), src.int(1, g));
            c.log(|| "figure eight".into());
            let mut p = vec![[-a, -b], [a, b], [a, -b], [-a, b]];
            if src.bool() {
                p.insert(2, [a + src.int(0, 3), 0]);
                let x = p[2][0];
                p.push([-x, 0]);
            }
            p
        }
        _ => {
            let n = src.usize(4, max.max(4));
            (0..n).map(|_| [src.int(-g, g), src.int(-g, g)]).collect()
        }
    }
}

fn dedup(mut p: Vec<P>) -> Vec<P> {
    p.dedup();
    while p.len() > 1 && p[0] == p[p.len() - 1] {
        p.pop();
    }
    p
}

/// An embedding of the integer lattice in space.
pub struct Frame {
    m: [[f64; 3]; 3],
    t: D3,
    /// length of a unit
    pub s: f64,
    pub exact: bool,
}
impl Frame {
    pub fn draw(src: &mut Src, c: &mut Ctx, low: i32) -> Frame {
        let mut f = Frame { m: [[0.0; 3]; 3], t: [0.0; 3], s: 1.0, exact: true };
        if src.bool() {
            f.s = 2f64.powi(src.int(low as i64, 12) as i32);
        }
        if src.chance(1, 3) {
            let pm = *src.pick(&[[0usize, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]]);
            let odd = pm == [0, 2, 1] || pm == [2, 1, 0] || pm == [1, 0, 2];
            let (a, b) = (src.bool(), src.bool());
            let neg = (a as usize + b as usize + odd as usize) % 2 == 1;
            let sg = [if a { -1.0 } else { 1.0 }, if b { -1.0 } else { 1.0 }, if neg { -1.0 } else { 1.0 }];
            for k in 0..3 {
                f.m[k][pm[k]] = sg[k];
            }
            if src.bool() {
                f.t = [src.int(-9, 9) as f64 * f.s, src.int(-9, 9) as f64 * f.s, src.int(-9, 9) as f64 * f.s];
            }
        } else {
            f.exact = false;
            f.m = rotation(src);
            if src.bool() {
                f.t = [src.real(-50.0, 50.0) * f.s, src.real(-50.0, 50.0) * f.s, src.real(-50.0, 50.0) * f.s];
            }
        }
        c.log(|| format!("frame {:?} scaled by {}, moved by {:?}", f.m, f.s, f.t));
        f
    }
    pub fn at(&self, q: I3) -> D3 {
        let r = |k: usize| (0..3).map(|j| self.m[k][j] * q[j] as f64).sum::<f64>() * self.s + self.t[k];
        [r(0), r(1), r(2)]
    }
}

/// The face over the given points; its walk is the reversed input.
fn face<T: P3>(src: &mut Src, q: &[D3]) -> Result<(Me<T>, T::F, Vec<T::V>), Fail>
where
    T::VP: HasPosition<3, T::Vec, S = T::S>,
{
    let mut m = Me::<T>::new();
    if src.chance(1, 4) {
        let k = src.usize(3, 5);
        m.insert_polygon((0..k).map(|i| T::VP::from_pos(T::Vec::from_xyz(sc(i as f64), sc((i * i) as f64), sc(7.0)))));
    }
    let old = m.num_vertices();
    let e = m.insert_polygon(q.iter().rev().map(|x| T::VP::from_pos(T::Vec::from_xyz(sc(x[0]), sc(x[1]), sc(x[2])))));
    let f = m.edge(m.edge(e).twin_id()).face_id();
    ensure!(f != IndexType::max(), "setup", "no face behind {:?}", e);
    // another edge to represent the face
    let es: Vec<T::E> = m.face(f).edge_ids(&m).take(q.len() + 1).collect();
    ensure_eq!(es.len(), q.len(), "edges", "edges of the face");
    let k = src.below(q.len() as u64) as usize;
    m.face_mut(f).set_edge(es[k]);
    let vs: Vec<T::V> = m.face(f).vertex_ids(&m).take(q.len() + 1).collect();
    ensure_eq!(vs.len(), q.len(), "vertices", "vertices of the face");
    let walk = |g: &dyn Fn(T::E) -> T::V| es.iter().enumerate().all(|(i, e)| g(*e) == vs[(i + q.len() - k) % q.len()]);
    ensure!(walk(&|e| m.edge(e).origin_id()) || walk(&|e| m.edge(e).target_id(&m)), "vertices", "the edges and the vertices of the face walk differently");
    let pos: Vec<D3> = vs.iter().map(|v| d3(&m.vertex(*v).pos())).collect();
    let at: Vec<D3> = q.iter().map(|x| d3(&T::Vec::from_xyz(sc(x[0]), sc(x[1]), sc(x[2])))).collect();
    ensure!((0..q.len()).any(|s| (0..q.len()).all(|i| pos[i] == at[(i + s) % q.len()])), "vertices", "the face walks {:?}, expected a rotation of {:?}", pos, at);
    let x = m.face(f);
    ensure_eq!(x.num_edges(&m), q.len(), "counts", "num_edges");
    ensure_eq!(x.num_vertices(&m), q.len(), "counts", "num_vertices");
    ensure_eq!(x.num_triangles(&m), 3 * (q.len() - 2), "counts", "num_triangles (three indices each)");
    ensure!(!x.has_holes(), "counts", "the face has holes");
    ensure!(old + q.len() == m.num_vertices(), "counts", "{} vertices", m.num_vertices());
    Ok((m, f, vs))
}

/// smallest exponent of a scale at which a unit of area exceeds the absolute tolerance; largest coordinates
fn limits<T: P3>() -> (i32, i64) {
    if T::TOL > 1e-6 { (-7, 8) } else { (-20, 60) }
}

fn shape<T: P3>(src: &mut Src, c: &mut Ctx) -> Res
where
    T::VP: HasPosition<3, T::Vec, S = T::S>,
{
    let (low, big) = limits::<T>();
    let g = *src.pick(&[3i64, 8, 20, 60]);
    let g = g.min(big);
    let large = big > 9 && src.chance(1, 40);
    let (max, g) = if large { (*src.pick(&[40usize, 80, 120]), 60) } else if big < 10 { (9, g) } else { (16, g) };
    let mut p = dedup(curve(src, c, max, g));
    // exchanged neighbours might cross, far from everything else
    if p.len() > 3 && if large { src.bool() } else { src.chance(1, 12) } {
        let i = src.usize(0, p.len() - 2);
        p.swap(i, i + 1);
        p = dedup(p);
        c.label("exchanged neighbours");
    }
    let ext = p.iter().flatten().map(|x| x.abs()).max().unwrap_or(0);
    if p.len() < 3 || ext > 4 * big {
        return c.discard();
    }
    let ccw = src.bool();
    if !ccw {
        p.reverse();
    }
    c.log(|| format!("{:?}", p));
    let fr = Frame::draw(src, c, low);
    let q: Vec<I3> = p.iter().map(|x| [x[0], x[1], 0]).collect();
    let pts: Vec<D3> = q.iter().map(|x| fr.at(*x)).collect();
    let (m, f, vs) = face::<T>(src, &pts)?;
    let x = *m.face(f);
    let n = p.len();

    ensure!(x.is_planar2(&m), "planar", "a planar face is not planar");
    let size = pts.iter().map(|a| len(*a)).fold(0.0, f64::max);
    let eps = T::TOL * (size + fr.s) * 4.0;
    ensure!(x.is_planar(&m, sc(eps)), "planar", "a planar face is not planar up to {:e}", eps);

    let simple = is_simple(&p);
    let cross = (0..n).any(|i| (i + 1..n).any(|j| cross_properly(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])));
    if simple {
        ensure!(!x.has_self_intersections(&m), "self-intersection", "a simple outline intersects itself");
        ensure!(x.is_simple(&m), "simple", "a simple outline is not simple");
        c.label("simple");
    } else if cross {
        ensure!(x.has_self_intersections(&m), "self-intersection", "two edges cross, but the outline does not intersect itself");
        ensure!(!x.is_simple(&m), "simple", "two edges cross, but the outline is simple");
        c.label("crossing");
    } else {
        c.label("touching");
    }
    let turns: Vec<i32> = (0..n).map(|i| sgn(orient(p[i], p[(i + 1) % n], p[(i + 2) % n]))).collect();
    let (pos, neg, zero) = (turns.contains(&1), turns.contains(&-1), turns.contains(&0));
    if pos && neg || cross {
        ensure!(!x.is_convex(&m), "convex", "the face is not convex ({}, {})", if cross { "edges cross" } else { "simple" }, if pos && neg { "corners turn both ways" } else { "corners turn one way" });
        c.label(if cross && !(pos && neg) { "one-way crossing" } else { "not convex" });
    } else if simple {
        ensure!(x.is_convex(&m), "convex", "the face is convex{}", if zero { " with collinear corners" } else { "" });
        c.label(if zero { "convex with collinear corners" } else { "convex" });
    }
    if n > 3 {
        c.nontrivial();
    }

    // the plane and the projection
    let nw = newell(&q);
    if nw[2] == 0 {
        c.label("no area");
        return Ok(());
    }
    let sg = if nw[2] > 0 { 1.0 } else { -1.0 };
    let z = fr.at([0, 0, 1]);
    let o = fr.at([0, 0, 0]);
    let dir = mul(sub(z, o), sg / fr.s);
    let area = nw[2].abs() as f64 / 2.0;
    let per: f64 = (0..n).map(|i| (d2(p[i], p[(i + 1) % n]) as f64).sqrt()).sum();
    // condition of the direction of the normal
    let cond = (size / fr.s + 1.0) * per / area;
    let tol = T::TOL * (1.0 + cond);
    if tol > 0.02 {
        c.label("thin");
        return Ok(());
    }
    let nn = d3(&Face3d::normal(&x, &m));
    let l = len(nn);
    ensure!(len(sub(mul(nn, 1.0 / l), dir)) <= 4.0 * tol, "normal", "the normal points to {:?}, expected {:?}", nn, dir);
    if simple && !zero && !(pos && neg) {
        let b = d3(&x.normal_naive(&m));
        let l = len(b);
        let k = (0..n).map(|i| orient(p[i], p[(i + 1) % n], p[(i + 2) % n]).abs()).min().unwrap() as f64 / 2.0;
        let tol = T::TOL * (1.0 + (size / fr.s + 1.0) * per / k);
        if tol < 0.02 {
            ensure!(len(sub(mul(b, 1.0 / l), dir)) <= 4.0 * tol, "naive-normal", "the naive normal points to {:?}, expected {:?}", b, dir);
        }
    }
    let v2: Vec<(T::Vec2, T::V)> = x.vertices_2d(&m).take(n + 1).collect();
    ensure!(x.vertices_2d(&m).len() == n && v2.len() == n, "projection", "{} projected vertices", v2.len());
    ensure!(v2.iter().map(|a| a.1).eq(vs.iter().copied()), "projection", "the projected vertices are {:?}, the face has {:?}", v2.iter().map(|a| a.1).collect::<Vec<_>>(), vs);
    let u: Vec<[f64; 2]> = v2.iter().map(|a| [a.0.x().to_f64(), a.0.y().to_f64()]).collect();
    let at: Vec<D3> = vs.iter().map(|v| d3(&m.vertex(*v).pos())).collect();
    let t = 40.0 * tol * (size + per * fr.s);
    for i in 0..n {
        for j in i + 1..n {
            let (a, b) = ((u[i][0] - u[j][0]).hypot(u[i][1] - u[j][1]), len(sub(at[i], at[j])));
            ensure!((a - b).abs() <= t, "lengths", "the projection has the distance {} between {:?} and {:?}, the face {}", a, vs[i], vs[j], b);
        }
    }
    let a2: f64 = (0..n).map(|i| (u[i][0] - u[0][0]) * (u[(i + 1) % n][1] - u[0][1]) - (u[i][1] - u[0][1]) * (u[(i + 1) % n][0] - u[0][0])).sum::<f64>() / fr.s / fr.s;
    ensure!((a2 / 2.0 - area).abs() <= 100.0 * tol * (area + per * per), "orientation", "the projection has the signed area {}, the face {}", a2 / 2.0, area);
    let w = x.vec2s(&m);
    ensure!(w.len() == n && (0..n).all(|i| w[i].index == vs[i] && w[i].vec == v2[i].0), "projection", "vec2s differs from vertices_2d");
    let poly = x.as_polygon(&m);
    let pv: Vec<T::Vec2> = poly.points().to_vec();
    ensure!(pv.len() == n && (0..n).all(|i| pv[i] == v2[i].0), "projection", "as_polygon differs from vertices_2d");
    Ok(())
}

/// Faces that leave their plane.
fn warped<T: P3>(src: &mut Src, c: &mut Ctx) -> Res
where
    T::VP: HasPosition<3, T::Vec, S = T::S>,
{
    let (low, big) = limits::<T>();
    let g = (*src.pick(&[3i64, 8, 20])).min(big);
    let p = dedup(polygon(src, c, 10, g, &[0, 1, 2, 3, 4, 5]));
    if p.len() < 4 || p.iter().flatten().any(|x| x.abs() > 4 * big) {
        return c.discard();
    }
    let mut q: Vec<I3> = p.iter().map(|x| [x[0], x[1], 0]).collect();
    for _ in 0..src.usize(1, 3) {
        let i = src.below(q.len() as u64) as usize;
        q[i][2] += src.int(-4, 4);
    }
    c.log(|| format!("{:?}", q));
    let fr = Frame::draw(src, c, low);
    let pts: Vec<D3> = q.iter().map(|x| fr.at(*x)).collect();
    let (m, f, _) = face::<T>(src, &pts)?;
    let x = *m.face(f);
    // the narrowest slab around some four of the points
    let mut width: f64 = 0.0;
    let mut flat = true;
    let k = q.len();
    let fl = |a: I3| [a[0] as f64, a[1] as f64, a[2] as f64];
    for a in 0..k {
        for b in a + 1..k {
            for d in b + 1..k {
                for e in d + 1..k {
                    let v: Vec<D3> = [a, b, d, e].iter().map(|i| fl(q[*i])).collect();
                    let vol = dot(sub(v[1], v[0]), cross(sub(v[2], v[0]), sub(v[3], v[0]))).abs();
                    if vol < 0.5 {
                        continue;
                    }
                    flat = false;
                    let mut w = f64::MAX;
                    for i in 0..4 {
                        let o: Vec<D3> = (0..4).filter(|j| *j != i).map(|j| v[j]).collect();
                        w = w.min(vol / len(cross(sub(o[1], o[0]), sub(o[2], o[0]))));
                    }
                    for (i, j, s, t) in [(0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)] {
                        w = w.min(vol / len(cross(sub(v[j], v[i]), sub(v[t], v[s]))));
                    }
                    width = width.max(w);
                }
            }
        }
    }
    let size = pts.iter().map(|a| len(*a)).fold(0.0, f64::max);
    let noise = T::TOL * (size + fr.s);
    if flat {
        ensure!(x.is_planar(&m, sc(4.0 * noise)) && x.is_planar2(&m), "planar", "a planar face is not planar");
        return Ok(());
    }
    c.nontrivial();
    let real = width * fr.s;
    // no plane comes closer to all points than half of the width
    let eps = real * src.real(0.0, 0.49) - 4.0 * noise;
    if eps > 0.0 {
        ensure!(!x.is_planar(&m, sc(eps)), "warped", "the face is planar up to {}, but it is at least {} thick", eps, real);
    }
    let e2 = if T::TOL > 1e-6 { (f32::EPSILON as f64).sqrt() } else { f64::EPSILON.sqrt() };
    let r2 = e2 * at_least(size, 1.0);
    if real > 2.5 * r2 + 8.0 * noise {
        ensure!(!x.is_planar2(&m), "warped", "is_planar2 of a face that is {} thick with coordinates up to {}", real, size);
        c.label("clearly warped");
    }
    // any plane that contains three points is a witness
    let far = 8.0 * size + 1.0;
    ensure!(x.is_planar(&m, sc(far)), "planar", "the face is not planar up to {}", far);
    Ok(())
}
fn at_least(a: f64, b: f64) -> f64 {
    if a > b { a } else { b }
}

macro_rules! list {
    ($t:ty, $a:literal, $b:literal) => {
        vec![target($a, 60000, 1500000, shape::<$t>), target($b, 40000, 1000000, warped::<$t>)]
    };
}
#[cfg(feature = "bevy")]
pub fn bevy26() -> Vec<Target> {
    list!(procedural_modelling::extensions::bevy::BevyMeshType3d32, "shape_bevy", "warped_bevy")
}
pub fn prop26_with(extra: Vec<Target>) -> Property {
    let mut targets = list!(procedural_modelling::extensions::nalgebra::MeshType3d64PNU, "shape_f64", "warped_f64");
    targets.extend(list!(crate::mt::MF32, "shape_f32", "warped_f32"));
    targets.extend(extra);
    Property {
        id: "P26",
        rule: "a face over a generated integer curve (convex, concave, alternating stars, star polygons, figure eights, random closed curves, polygons with collinear corners) in a random placement and with a random representing edge; non-trivial: more than three corners (shape), not planar (warped)",
        assumptions: &[
            "outlines that only touch or overlap themselves without crossing are not judged for simplicity",
            "scales at which a unit of area exceeds the absolute tolerance of the segment intersection (2^-20 in f64, 2^-7 in f32)",
            "a face counts as clearly not planar up to eps if four of its points span a tetrahedron thicker than 2 eps",
        ],
        targets,
        known: vec![],
    }
}
