//! Curved edges (P16).
use crate::cm::*;
use crate::model::*;
use crate::poly::*;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

type Me<T> = HalfEdgeMeshImpl<T>;

fn tol_of(src: &mut Src, s: f64, fine: bool) -> f64 {
    s * 10f64.powf(-src.real(0.0, if fine { 5.0 } else { 3.0 }))
}

/// One edge with a curve.
fn single<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Result<Option<(Me<T>, T::E, T::E, Bez, f64)>, Fail>
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let s = *src.pick(&[1.0, 1.0, 100.0, 1.0 / 1024.0]);
    let a = point::<T::S, D>(src, s);
    let b = point::<T::S, D>(src, s);
    if a == b {
        return Ok(None);
    }
    let k = if src.chance(1, 10) { Bez(vec![a, b]) } else { curve::<T::S, D>(src, c, a, b, s) };
    c.log(|| format!("curve {:?}", k.0));
    let mut m = Me::<T>::new();
    let (va, vb) = m.add_isolated_edge_default(T::VP::from_pos(ve(a)), T::VP::from_pos(ve(b)));
    let e = m.shared_edge_id(va, vb).unwrap();
    let t = m.edge(e).twin_id();
    m.edge_mut(e).set_curve_type(kind::<T, D>(&k));
    m.edge_mut(t).set_curve_type(kind::<T, D>(&k.rev()));
    Ok(Some((m, e, t, k, s)))
}

fn evaluate<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let Some((m, e, t, k, _)) = single::<T, D>(src, c)? else { return c.discard() };
    let tol = 8.0 * T::EPS * k.size();
    let (ct, cr) = (m.edge(e).curve_type(), m.edge(t).curve_type());
    ensure!(ct == kind::<T, D>(&k), "type", "the curve type reads {:?}", ct);
    ensure_eq!(m.has_curved_edges(), k.0.len() > 2, "curved", "has_curved_edges");
    let p = |t: f64| co(&ct.point_at(m.edge(e), &m, sc::<T::S>(t)));
    let r = |x: f64| co(&cr.point_at(m.edge(t), &m, sc::<T::S>(x)));
    for (x, w) in [(0.0, k.0[0]), (1.0, *k.0.last().unwrap())] {
        // (straight lines are interpolated with one rounding)
        ensure!(len(sub(p(x), w)) <= if k.0.len() > 2 { 0.0 } else { T::EPS * k.size() }, "ends", "the curve at {} is {:?}, expected {:?}", x, p(x), w);
    }
    for _ in 0..8 {
        let x = if src.bool() { src.int(0, 64) as f64 / 64.0 } else { src.real(0.0, 1.0) };
        let x = sc::<T::S>(x).to_f64();
        let w = k.at(x);
        ensure!(len(sub(p(x), w)) <= tol, "value", "the curve at {} is {:?}, expected {:?}", x, p(x), w);
        let v = sc::<T::S>(1.0 - x).to_f64();
        ensure!(len(sub(r(v), k.at(1.0 - v))) <= tol, "reverse", "the reversed curve at {} is {:?}, expected {:?}", v, r(v), k.at(1.0 - v));
    }
    // approximate equality of curves
    let near = 10.0 * T::EPS * k.size().max(1e-3);
    let eps = sc::<T::S>(1e4 * T::EPS * k.size().max(1e-3));
    let mut q = k.clone();
    let i = src.usize(0, k.0.len() - 1);
    let j = src.usize(0, D - 1);
    let big = src.bool();
    q.0[i][j] += if big { 1e6 * near } else { near };
    let inner = i > 0 && i + 1 < k.0.len();
    let same = ct.is_about(&kind::<T, D>(&q), eps);
    ensure_eq!(same, !(big && inner), "about", "is_about after moving control point {} by {} with tolerance {:?}", i, if big { 1e6 * near } else { near }, eps);
    let other = kind::<T, D>(&Bez(vec![[0.0; 3]; if k.0.len() == 4 { 3 } else { k.0.len() + 1 }]));
    ensure!(!ct.is_about(&other, eps), "about", "{:?} is about {:?}", ct, other);
    if k.0.len() > 2 {
        c.nontrivial();
    }
    Ok(())
}

fn uniform<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let Some((m, e, _, k, _)) = single::<T, D>(src, c)? else { return c.discard() };
    let n = if src.chance(1, 6) { src.usize(20, 200) } else { src.usize(1, 12) };
    let l = m.edge(e).flatten_uniform(n, &m);
    ensure_eq!(l.len(), n - 1, "count", "inner points for {} segments", n);
    let tol = 16.0 * T::EPS * k.size();
    for (i, p) in l.iter().enumerate() {
        let w = k.at((i + 1) as f64 / n as f64);
        ensure!(len(sub(co(p), w)) <= tol, "value", "point {} of {} is {:?}, expected {:?}", i + 1, n, co(p), w);
    }
    if k.0.len() > 2 && n > 2 {
        c.nontrivial();
    }
    Ok(())
}

/// Judges an adaptive flattening: inner points of a polygonal line from the start to the end of the curve.
fn judge_adaptive(k: &Bez, l: &[D3], tol: f64, eps: f64) -> Res {
    let fuzz = eps * k.size();
    let mut pts = vec![k.0[0]];
    pts.extend(l);
    pts.push(*k.0.last().unwrap());
    // straight lines may have any control points on the chord: only then do parameters not matter
    let mut t = 0.0f64;
    let stride = l.len() / 100 + 1;
    for (i, p) in l.iter().enumerate().step_by(stride) {
        let ps = k.params(*p, fuzz.max(1e-9 * k.size()));
        ensure!(!ps.is_empty(), "off curve", "point {} ({:?}) is not on the curve", i, p);
        match ps.iter().find(|x| **x > t - 1e-6) {
            Some(x) => t = *x,
            None => return fail("order", format!("point {} ({:?}) has the parameters {:?}, the one before {}", i, p, ps, t)),
        }
    }
    // a point may only be repeated where the curve itself comes back to it
    for i in 1..pts.len() {
        if !l.is_empty() && pts[i] == pts[i - 1] {
            ensure!(k.params(pts[i], fuzz.max(1e-9 * k.size())).len() != 1, "repeated", "point {} is repeated: {:?}", i, pts[i]);
        }
    }
    let lim = tol * (1.0 + 1e-6) + fuzz;
    // every point of the curve is near the line
    let n = (64 * pts.len()).min(8192);
    let mut at = 0usize;
    for i in 0..=n {
        let q = k.at(i as f64 / n as f64);
        let d = |j: usize| seg_dist(q, pts[j], pts[j + 1]);
        if d(at) <= lim {
            continue;
        }
        // usually the next one
        if at + 2 < pts.len() && d(at + 1) <= lim {
            at += 1;
            continue;
        }
        match (0..pts.len() - 1).find(|j| d(*j) <= lim) {
            Some(j) => at = j,
            None => {
                let b = (0..pts.len() - 1).map(d).fold(f64::INFINITY, f64::min);
                return fail("tolerance", format!("the curve at {} ({:?}) is {} away from the line of {} segments, tolerance {}", i as f64 / n as f64, q, b, pts.len() - 1, tol));
            }
        }
    }
    // and every chord near the curve
    let dense: Vec<D3> = (0..=n).map(|i| k.at(i as f64 / n as f64)).collect();
    let step = dense.windows(2).map(|w| len(sub(w[0], w[1]))).fold(0.0, f64::max);
    if pts.len() <= 40 {
        for i in 0..pts.len() - 1 {
            for f in [0.25, 0.5, 0.75] {
                let q = add(mul(pts[i], 1.0 - f), mul(pts[i + 1], f));
                let d = dense.iter().map(|p| len(sub(*p, q))).fold(f64::INFINITY, f64::min);
                ensure!(d <= lim + step, "chord", "the chord from {:?} to {:?} leaves the curve by {}, tolerance {}", pts[i], pts[i + 1], d, tol);
            }
        }
    }
    Ok(())
}

fn adaptive<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let Some((m, e, t, k, s)) = single::<T, D>(src, c)? else { return c.discard() };
    let tol = sc::<T::S>(tol_of(src, s, T::EPS < 1e-9)).to_f64();
    let e = if src.bool() { (e, k) } else { (t, k.rev()) };
    let l: Vec<D3> = m.edge(e.0).flatten_casteljau(sc::<T::S>(tol), &m).iter().map(co).collect();
    c.log(|| format!("tolerance {}: {} inner points", tol, l.len()));
    if l.len() > 2000 {
        // not judged point by point
        c.label("very fine");
        return c.discard();
    }
    judge_adaptive(&e.1, &l, tol, 1e3 * T::EPS)?;
    if e.1 .0.len() == 2 {
        ensure!(l.is_empty(), "straight", "a straight edge is divided into {} parts", l.len() + 1);
    }
    if l.len() > 2 {
        c.nontrivial();
    }
    Ok(())
}

/// A mesh of several components with random curves.
pub fn curved_mesh<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx, s: f64) -> Result<Me<T>, Fail>
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let mut m = Me::<T>::new();
    let parts = src.usize(1, 3);
    for _ in 0..parts {
        let k = src.few(3, 7, 60);
        let vps: Vec<T::VP> = (0..k).map(|_| T::VP::from_pos(ve(point::<T::S, D>(src, s)))).collect();
        match src.below(5) {
            0 => {
                c.log(|| format!("path of {}", k));
                m.insert_path(vps);
            }
            1 => {
                c.log(|| "isolated edge".into());
                m.add_isolated_edge_default(vps[0].clone(), vps[1].clone());
            }
            _ => {
                let e = m.insert_loop(vps);
                let t = m.edge(e).twin_id();
                match src.below(3) {
                    0 => {
                        m.close_hole(e, Default::default(), true);
                    }
                    1 => {
                        m.close_hole(t, Default::default(), src.bool());
                    }
                    _ => {}
                }
                c.log(|| format!("loop of {} with {} faces", k, m.num_faces()));
                // diagonals and spikes
                for _ in 0..src.usize(0, 3) {
                    let sn = snap(&m);
                    let hs: Vec<Vec<usize>> = sn.holes().into_iter().filter(|h| h.len() >= 4).collect();
                    if hs.is_empty() {
                        break;
                    }
                    let h = src.pick(&hs).clone();
                    let (i, j) = (src.usize(0, h.len() - 1), src.usize(0, h.len() - 1));
                    if src.bool() {
                        let v = sn.tgt(h[i]);
                        if sn.outs(v).iter().filter(|o| sn.face(**o).is_none()).count() == 1 {
                            let vp = T::VP::from_pos(ve(point::<T::S, D>(src, s)));
                            m.add_vertex_via_vertex_default(T::V::new(v), vp);
                            c.log(|| format!("spike at {}", v));
                        }
                    } else {
                        let gap = (j + h.len() - i) % h.len();
                        let (a, b) = (sn.tgt(h[i]), sn.tgt(h[j]));
                        if gap < 2 || gap + 2 > h.len() || a == b || sn.adjacent(a, b) {
                            continue;
                        }
                        m.insert_edge(T::E::new(h[i]), Default::default(), T::E::new(h[j]), Default::default());
                        c.log(|| format!("diagonal {} {}", a, b));
                        if src.bool() {
                            m.close_hole(T::E::new(h[i]), Default::default(), false);
                        }
                    }
                }
            }
        }
    }
    Ok(m)
}
/// Gives random edges curves, on one of their half-edges.
pub fn bend<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx, m: &mut Me<T>, s: f64) -> BTreeMap<usize, Bez>
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let sn = snap(m);
    let mut r = BTreeMap::new();
    for (i, h) in &sn.e {
        if h.twin < *i || src.chance(1, 3) {
            continue;
        }
        let (e, t) = if src.bool() { (*i, h.twin) } else { (h.twin, *i) };
        let (a, b) = (co(&m.vertex(T::V::new(sn.org(e))).pos()), co(&m.vertex(T::V::new(sn.org(t))).pos()));
        let k = curve::<T::S, D>(src, c, a, b, s);
        m.edge_mut(T::E::new(e)).set_curve_type(kind::<T, D>(&k));
        c.log(|| format!("edge {} gets the curve {:?}", e, k.0));
        r.insert(t, k.rev());
        r.insert(e, k);
    }
    r
}

fn flatten_mesh<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let s = *src.pick(&[1.0, 64.0]);
    let mut m = curved_mesh::<T, D>(src, c, s)?;
    let curves = bend::<T, D>(src, c, &mut m, s);
    let before = snap(&m);
    if let Err(d) = before.audit() {
        return fail("setup", d);
    }
    ensure_eq!(m.has_curved_edges(), curves.values().any(|k| k.0.len() > 2), "curved", "has_curved_edges of the mesh with the curves {:?}", curves.values().map(|k| k.0.len() - 1).collect::<Vec<_>>());
    let tol = sc::<T::S>(tol_of(src, s, false)).to_f64();
    c.log(|| format!("flatten with tolerance {}", tol));
    let open = m.is_open();
    let cap = u16::MAX as usize;
    m.flatten_curved_edges(sc::<T::S>(tol));
    let after = snap(&m);
    if after.e.len() > cap / 2 {
        return c.discard();
    }
    if let Err(d) = after.audit() {
        return fail("audit", d);
    }
    ensure!(!m.has_curved_edges(), "curved", "flattening leaves curved edges");
    for (i, h) in &after.e {
        ensure!(h.ep.is_empty(), "curved", "edge {} still has the payload {:?}", i, h.ep);
    }
    ensure_eq!(m.is_open(), open, "open", "is_open after flattening");
    // old vertices and faces
    for (i, v) in &before.v {
        match after.v.get(i) {
            Some(w) if w.vp == v.vp => {}
            x => return fail("touched", format!("vertex {} changed from {:?} to {:?}", i, v.vp, x.map(|x| &x.vp))),
        }
    }
    let fk = |x: &Snap<T>| x.f.iter().map(|(i, f)| (*i, f.curved)).collect::<Vec<_>>();
    ensure_eq!(fk(&after), fk(&before), "faces", "face ids and flags");
    // walks: contract the new vertices
    let old: BTreeSet<usize> = before.v.keys().copied().collect();
    let pos: BTreeMap<usize, D3> = after.v.keys().map(|v| (*v, co(&m.vertex(T::V::new(*v)).pos()))).collect();
    let walks = |x: &Snap<T>| -> Vec<(Option<usize>, Vec<usize>)> { x.walks().into_iter().map(|w| (x.face(w[0]), w.iter().map(|e| x.org(*e)).collect())).collect() };
    let mut a: Vec<(Option<usize>, Vec<usize>)> = walks(&before).into_iter().map(|(f, w)| (f, canon(&w))).collect();
    let mut b: Vec<(Option<usize>, Vec<usize>)> = walks(&after).into_iter().map(|(f, w)| (f, canon(&w.into_iter().filter(|v| old.contains(v)).collect::<Vec<_>>()))).collect();
    a.sort();
    b.sort();
    ensure_eq!(b, a, "walks", "boundaries, without the new vertices");
    // chains
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut chains = 0;
    let mut inner = 0;
    for w in after.walks() {
        let vs: Vec<usize> = w.iter().map(|e| after.org(*e)).collect();
        let n = vs.len();
        let Some(start) = (0..n).find(|i| old.contains(&vs[*i])) else { return fail("walks", format!("the boundary {:?} has no old vertex", vs)) };
        let mut i = start;
        loop {
            let mut j = i + 1;
            let mut chain = vec![];
            while !old.contains(&vs[j % n]) {
                chain.push(vs[j % n]);
                j += 1;
            }
            let (u, v) = (vs[i % n], vs[j % n]);
            let Some(e) = before.edge_between(u, v) else { return fail("walks", format!("there was no edge from {} to {}", u, v)) };
            let l: Vec<D3> = chain.iter().map(|x| pos[x]).collect();
            match curves.get(&e) {
                None => ensure!(chain.is_empty(), "straight", "the straight edge {} from {} to {} is divided by {:?}", e, u, v, chain),
                Some(k) => {
                    if l.len() < 300 {
                        judge_adaptive(k, &l, tol, 1e3 * T::EPS).map_err(|f| Fail { sig: f.sig, msg: format!("edge {} from {} to {}: {}", e, u, v, f.msg) })?;
                    }
                    if l.len() > 1 {
                        chains += 1;
                    }
                }
            }
            inner += chain.len();
            seen.extend(chain);
            i = j;
            if i >= start + n {
                break;
            }
        }
    }
    ensure_eq!(seen.len() * 2, inner, "chain", "each new vertex lies on one edge");
    ensure_eq!(after.v.len(), before.v.len() + seen.len(), "chain", "number of vertices");
    // straight edges stay as they are
    for (i, h) in &before.e {
        if !curves.contains_key(i) {
            match after.e.get(i) {
                Some(g) if g.org == h.org && g.twin == h.twin && g.face == h.face && g.ep == h.ep => {}
                x => return fail("straight", format!("the straight edge {} changed from {:?} to {:?}", i, h, x)),
            }
        }
    }
    if chains > 2 {
        c.nontrivial();
    }
    Ok(())
}

/// Approximate equality of curves.
fn about<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let n = src.usize(0, 2);
    let a: Vec<D3> = (0..n).map(|_| point::<T::S, D>(src, 4.0)).collect();
    let eps = *src.pick(&[1e-3, 0.125, 1.0]);
    // at most one coordinate differs by more than the others
    let k = *src.pick(&[0.0, 0.5, 0.9, 1.1, 2.0, 100.0]);
    let mut b = a.clone();
    let hit = src.below(2.max(n) as u64) as usize;
    let dim = src.below(D as u64) as usize;
    let neg = src.bool();
    if hit < n {
        b[hit][dim] += if neg { -k } else { k } * eps;
    }
    let q = |p: &D3| p.map(|x| sc::<T::S>(x).to_f64());
    let b: Vec<D3> = b.iter().map(q).collect();
    let other = src.chance(1, 6);
    let m = if other { src.usize(0, 2) } else { n };
    let b: Vec<D3> = (0..m).map(|i| b.get(i).copied().unwrap_or([0.0; 3])).collect();
    let ct = |l: &[D3]| -> CurvedEdgeType<D, T> {
        match l.len() {
            0 => CurvedEdgeType::Linear,
            1 => CurvedEdgeType::QuadraticBezier(ve(l[0])),
            _ => CurvedEdgeType::CubicBezier(ve(l[0]), ve(l[1])),
        }
    };
    c.log(|| format!("{:?} and {:?} within {}", a, b, eps));
    let d = a.iter().zip(&b).flat_map(|(p, q)| (0..D).map(move |i| (p[i] - q[i]).abs())).fold(0.0, f64::max);
    if (d - eps).abs() < 0.05 * eps {
        return c.discard();
    }
    let want = n == m && d < eps;
    let es = sc::<T::S>(eps);
    ensure_eq!(ct(&a).is_about(&ct(&b), es), want, "about", "is_about of {:?} and {:?} within {}", a, b, eps);
    ensure_eq!(ct(&b).is_about(&ct(&a), es), want, "about", "is_about of {:?} and {:?} within {} (swapped)", b, a, eps);
    if n > 0 && n == m && d > 0.0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn targets16<T: CM<D>, const D: usize>(n: [&'static str; 4], q: u64) -> Vec<Target>
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    vec![
        target(n[0], 6 * q, 180 * q, evaluate::<T, D>),
        target(n[1], 4 * q, 120 * q, uniform::<T, D>),
        target(n[2], 2 * q, 60 * q, adaptive::<T, D>),
        target(n[3], q, 30 * q, flatten_mesh::<T, D>),
    ]
}
pub fn prop16_with(extra: Vec<Target>) -> Property {
    let mut targets = vec![];
    targets.extend(targets16::<C2, 2>(["evaluate_2d", "uniform_2d", "adaptive_2d", "mesh_2d"], 4000));
    targets.extend(targets16::<C3, 3>(["evaluate_3d", "uniform_3d", "adaptive_3d", "mesh_3d"], 4000));
    targets.extend(targets16::<C2F, 2>(["evaluate_f32", "uniform_f32", "adaptive_f32", "mesh_f32"], 4000));
    targets.push(target("about_2d", 8000, 240000, about::<C2, 2>));
    targets.push(target("about_3d", 8000, 240000, about::<C3, 3>));
    targets.extend(extra);
    Property {
        id: "P16",
        rule: "random quadratic and cubic curves (generic, symmetric S, loops, degenerate control points) on single edges and on the edges of random meshes with faces, holes, diagonals, spikes and paths; curves are evaluated by repeated interpolation, flattened lines are compared with dense samples of the curve; non-trivial: curved (evaluation), more than two inner points (flattening), more than two divided edges (meshes)",
        assumptions: &["tolerances are positive and not below the resolution of the scalar type", "a curve is stored at one of the half-edges of an edge, as the library's own builders do"],
        targets,
        known: vec![],
    }
}
