//! Smooth and flat normals (P15).
use crate::mt::*;
use crate::p07::{primitive, KINDS};
use crate::p13::{put, rotation, world, ALGOS};
use crate::poly::*;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeMap;

type Me<T> = HalfEdgeMeshImpl<T>;

fn unit(a: D3) -> D3 {
    mul(a, 1.0 / len(a))
}
/// The unit normal of a face and the tolerance with which it can be expected to be computed.
fn face_normal<T: P3>(s: &Solid, f: &[usize]) -> (D3, f64, f64) {
    let n = s.normal(f);
    let a = len(n);
    let size = f.iter().map(|i| len(s.pos[*i])).fold(0.0, f64::max);
    let per: f64 = (0..f.len()).map(|i| len(sub(s.pos[f[i]], s.pos[f[(i + 1) % f.len()]]))).sum();
    (unit(n), a, T::TOL * (1.0 + size * per / a))
}

fn judge_normals<T: P3>(c: &mut Ctx, m: &Me<T>, s: &Solid) -> Res {
    for (k, f) in s.faces.iter().enumerate() {
        let (u, a, tol) = face_normal::<T>(s, f);
        if tol.is_nan() || tol > 0.05 {
            c.label("thin face skipped");
            continue;
        }
        let n = d3(&Face3d::normal(m.face(T::F::new(s.face_ids[k])), m));
        let l = len(n);
        ensure!((l - a / 2.0).abs() <= tol * a, "length", "the normal of face {} has length {}, its area is {}", s.face_ids[k], l, a / 2.0);
        ensure!(len(sub(unit(n), u)) <= 2.0 * tol, "direction", "the normal of face {} points to {:?}, expected {:?}", s.face_ids[k], unit(n), u);
    }
    Ok(())
}

fn judge_smooth<T: P3>(c: &mut Ctx, m: &mut Me<T>) -> Res
where
    T::VP: HasNormal<3, T::Vec, S = T::S>,
{
    let s = solid(m)?;
    let before: Vec<T::VP> = m.vertices().map(|v| v.payload().clone()).collect();
    m.generate_smooth_normals();
    let s2 = solid(m)?;
    ensure!(s.ids == s2.ids && s.faces == s2.faces && s.holes == s2.holes && s.face_ids == s2.face_ids && s.pos == s2.pos, "touched", "generating normals changed the mesh");
    let mut fs: Vec<Vec<usize>> = vec![vec![]; s.pos.len()];
    for (k, f) in s.faces.iter().enumerate() {
        for i in f {
            fs[*i].push(k);
        }
    }
    let mut mixed = 0;
    for (i, v) in m.vertices().enumerate() {
        let p = v.payload();
        let mut q = before[i].clone();
        q.set_normal(*p.normal());
        let n = d3(p.normal());
        if fs[i].is_empty() {
            c.label("vertex without faces");
            continue;
        }
        ensure!(q == *p || n.iter().any(|x| x.is_nan()), "touched", "generating normals changed the payload {:?} of vertex {} to {:?}", before[i], s.ids[i], p);
        let mut sum = [0.0; 3];
        let mut tol: f64 = 0.0;
        for k in &fs[i] {
            let (u, _, t) = face_normal::<T>(&s, &s.faces[*k]);
            sum = add(sum, u);
            tol = tol.max(t);
        }
        let mean = mul(sum, 1.0 / fs[i].len() as f64);
        let tol = 4.0 * tol / len(mean);
        if tol.is_nan() || tol > 0.05 {
            c.label("opposite normals");
            continue;
        }
        let e = unit(mean);
        if fs[i].len() > 1 && fs[i].iter().any(|k| len(sub(face_normal::<T>(&s, &s.faces[*k]).0, e)) > 0.05) {
            mixed += 1;
        }
        ensure!((len(n) - 1.0).abs() <= 100.0 * T::TOL, "unit", "the normal {:?} of vertex {} is not a unit vector", n, s.ids[i]);
        ensure!(len(sub(n, e)) <= tol, "smooth", "vertex {} has the normal {:?}, the normalised mean of {} face normals is {:?}", s.ids[i], n, fs[i].len(), e);
    }
    if mixed > 2 {
        c.nontrivial();
    }
    Ok(())
}

fn judge_flat<T: P3>(c: &mut Ctx, m: &Me<T>, algos: &[TriangulationAlgorithm]) -> Res
where
    T::VP: HasNormal<3, T::Vec, S = T::S>,
{
    let s = solid(m)?;
    let pl: Vec<T::VP> = m.vertices().map(|v| v.payload().clone()).collect();
    let clear = |p: &T::VP| {
        let mut p = p.clone();
        p.set_normal(T::Vec::splat(T::S::ZERO));
        p
    };
    let bare: Vec<T::VP> = pl.iter().map(clear).collect();
    for a in algos {
        let (pi, pv) = m.triangulate(*a, &mut TesselationMeta::default());
        let (fi, fv) = m.triangulate_and_generate_flat_normals_post(*a, &mut TesselationMeta::default());
        let corners: usize = s.faces.iter().map(|f| f.len()).sum();
        ensure_eq!(fv.len(), corners, "copies", "{:?}: vertices of the flat triangulation", a);
        ensure!(fi.iter().all(|i| i.index() < fv.len()), "range", "{:?}: an index exceeds the number of vertices", a);
        ensure!(fi.len() == pi.len() && fi.len() % 3 == 0, "triangles", "{:?}: {} indices, {} without flat normals", a, fi.len(), pi.len());
        // the copies of one face are connected by its triangles, and by nothing else
        let mut root: Vec<usize> = (0..fv.len()).collect();
        fn find(r: &mut Vec<usize>, i: usize) -> usize {
            if r[i] != i {
                r[i] = find(r, r[i]);
            }
            r[i]
        }
        for t in fi.chunks(3) {
            for k in 1..3 {
                let (x, y) = (find(&mut root, t[0].index()), find(&mut root, t[k].index()));
                root[x] = y;
            }
        }
        let mut groups: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for i in 0..fv.len() {
            let r = find(&mut root, i);
            groups.entry(r).or_default().push(i);
        }
        ensure_eq!(groups.len(), s.faces.len(), "copies", "{:?}: groups of connected vertices in the flat triangulation", a);
        let mut open: Vec<usize> = (0..s.faces.len()).collect();
        let bare_f: Vec<T::VP> = fv.iter().map(clear).collect();
        for g in groups.values() {
            let n0 = d3(fv[g[0]].normal());
            let mut why = String::new();
            let hit = open.iter().position(|k| {
                let f = &s.faces[*k];
                if f.len() != g.len() {
                    return false;
                }
                // same payloads, apart from the normal
                let mut rest: Vec<usize> = f.clone();
                for i in g {
                    match rest.iter().position(|x| bare[*x] == bare_f[*i]) {
                        Some(p) => {
                            rest.swap_remove(p);
                        }
                        None => return false,
                    }
                }
                let (u, _, tol) = face_normal::<T>(&s, f);
                if tol.is_nan() || tol > 0.05 {
                    return true;
                }
                for i in g {
                    let n = d3(fv[*i].normal());
                    if !(len(sub(n, u)) <= 2.0 * tol) {
                        why = format!("face {} with the normal {:?} got a vertex with {:?}", s.face_ids[*k], u, n);
                        return false;
                    }
                }
                true
            });
            match hit {
                Some(p) => {
                    open.remove(p);
                }
                None => return fail("flat", format!("{:?}: the vertices {:?} of the flat triangulation (normal {:?}) belong to no face: {}", a, g, n0, why)),
            }
        }
        // the same triangles (as cyclic triples of payloads)
        let turn = |t: [&T::VP; 3]| -> Vec<String> {
            let l: Vec<String> = t.iter().map(|p| format!("{:?}", clear(p))).collect();
            let k = (0..3).min_by_key(|k| l[*k].clone()).unwrap();
            vec![l[k].clone(), l[(k + 1) % 3].clone(), l[(k + 2) % 3].clone()]
        };
        let mut x: Vec<Vec<String>> = pi.chunks(3).map(|t| turn([&pv[t[0].index()], &pv[t[1].index()], &pv[t[2].index()]])).collect();
        let mut y: Vec<Vec<String>> = fi.chunks(3).map(|t| turn([&fv[t[0].index()], &fv[t[1].index()], &fv[t[2].index()]])).collect();
        x.sort();
        y.sort();
        if let Some(k) = (0..x.len()).find(|k| x[*k] != y[*k]) {
            return fail("triangles", format!("{:?}: triangle {:?} differs from {:?} of the plain triangulation", a, y[k], x[k]));
        }
    }
    let after: Vec<T::VP> = m.vertices().map(|v| v.payload().clone()).collect();
    let s2 = solid(m)?;
    // vertices without faces may have NaN as smooth normal
    ensure!(s.ids == s2.ids && s.faces == s2.faces && format!("{:?}", after) == format!("{:?}", pl), "touched", "flat triangulation changed the mesh");
    if s.faces.len() > 2 {
        c.nontrivial();
    }
    Ok(())
}

/// A transformed primitive, possibly with removed faces.
fn solid_mesh<T: P3>(src: &mut Src, c: &mut Ctx) -> Result<Option<Me<T>>, Fail> {
    let kind = src.usize(0, KINDS - 1);
    let Some((mut m, e)) = primitive::<T>(src, c, kind, None)? else { return Ok(None) };
    if e.v > 80 {
        return Ok(None);
    }
    if src.chance(2, 3) {
        let r = rotation(src);
        let s0 = solid(&m)?;
        let t = [src.real(-1.0, 1.0), src.real(-1.0, 1.0), src.real(-1.0, 1.0)].map(|x| x * s0.scale());
        c.log(|| format!("rotated by {:?} and moved by {:?}", r, t));
        for (i, v) in s0.ids.iter().enumerate() {
            let p = s0.pos[i];
            let g = |k: usize| sc::<T::S>(r[k][0] * p[0] + r[k][1] * p[1] + r[k][2] * p[2] + t[k]);
            m.vertex_mut(T::V::new(*v)).payload_mut().set_pos(T::Vec::new(g(0), g(1), g(2)));
        }
    }
    if src.chance(1, 3) {
        let ids: Vec<T::F> = m.face_ids().collect();
        let p = *src.pick(&[1u64, 1, 3]);
        for f in ids {
            if m.num_faces() > 1 && src.chance(p, 4) {
                m.remove_face(f);
                c.log(|| format!("remove face {}", f));
                c.label("open");
            }
        }
    }
    Ok(Some(m))
}
/// The library insists on planar faces.
fn planar<T: P3>(s: &Solid) -> bool {
    let lim = if T::TOL > 1e-6 { 1e-4 } else { 1e-9 } * s.scale().max(1e-300);
    s.faces.iter().all(|f| {
        let n = s.normal(f);
        let l = len(n);
        l > 0.0 && f.iter().all(|i| (dot(n, sub(s.pos[*i], s.pos[f[0]])) / l).abs() < lim)
    })
}
fn algos(src: &mut Src, s: &Solid) -> Vec<TriangulationAlgorithm> {
    let big = s.faces.iter().any(|f| f.len() > 16);
    let a = *src.pick(&ALGOS);
    if a == TriangulationAlgorithm::MinWeight && big || a == TriangulationAlgorithm::Fan {
        vec![TriangulationAlgorithm::Auto]
    } else {
        vec![a]
    }
}

pub fn smooth<T: P3>(src: &mut Src, c: &mut Ctx) -> Res
where
    T::VP: HasNormal<3, T::Vec, S = T::S>,
{
    let Some(mut m) = solid_mesh::<T>(src, c)? else { return c.discard() };
    let s = solid(&m)?;
    if !planar::<T>(&s) {
        return c.discard();
    }
    judge_normals::<T>(c, &m, &s)?;
    judge_smooth::<T>(c, &mut m)?;
    if src.chance(1, 4) {
        // again, over the existing normals
        judge_smooth::<T>(c, &mut m)?;
    }
    Ok(())
}
pub fn flat<T: P3>(src: &mut Src, c: &mut Ctx) -> Res
where
    T::VP: HasNormal<3, T::Vec, S = T::S>,
{
    let Some(mut m) = solid_mesh::<T>(src, c)? else { return c.discard() };
    let s = solid(&m)?;
    if !planar::<T>(&s) || s.pos.len() > 40 {
        return c.discard();
    }
    if src.bool() {
        m.generate_smooth_normals();
        c.label("over smooth normals");
    }
    let a = algos(src, &s);
    judge_flat::<T>(c, &m, &a)
}
/// Faces of all shapes.
fn faces<T: HT + P3>(src: &mut Src, c: &mut Ctx, smooth: bool) -> Res {
    let exact = src.bool();
    let parts = src.usize(1, 2);
    let Some(mut w) = world::<T>(src, c, if <T as P3>::CAPS < 1000 { 8 } else { 14 }, !exact, false, parts)? else { return c.discard() };
    put(src, c, &mut w, exact);
    let s = solid(&w.m)?;
    judge_normals::<T>(c, &w.m, &s)?;
    if smooth {
        judge_smooth::<T>(c, &mut w.m)
    } else {
        let a = algos(src, &s);
        judge_flat::<T>(c, &w.m, &a)
    }
}
/// The quick normal of convex faces has the direction of the exact one.
fn naive<T: HT + P3>(src: &mut Src, c: &mut Ctx) -> Res {
    let Some(mut w) = world::<T>(src, c, 12, true, true, 1)? else { return c.discard() };
    put(src, c, &mut w, false);
    let s = solid(&w.m)?;
    for f in w.m.faces() {
        let k = s.face_ids.iter().position(|x| *x == f.id().index()).unwrap();
        let fs = &s.faces[k];
        let (u, _, tol) = face_normal::<T>(&s, fs);
        let n = match catch(|| d3(&f.normal_naive(&w.m))) {
            Ok(n) => n,
            Err(p) => return fail("panic", format!("normal_naive of the convex face {} panics: {}", f.id(), p)),
        };
        let d: Vec<f64> = (0..3).map(|i| len(sub(s.pos[fs[i]], s.pos[fs[(i + 1) % 3]]))).collect();
        let size = fs.iter().map(|i| len(s.pos[*i])).fold(0.0, f64::max);
        let t = tol + T::TOL * size * (d[0] + d[1] + d[2]) / len(n);
        if t < 0.05 {
            ensure!(len(sub(unit(n), u)) <= 4.0 * t, "naive", "normal_naive of face {} is {:?}, expected the direction {:?}", f.id(), n, u);
        }
    }
    c.nontrivial();
    Ok(())
}

pub fn prop15_with(extra: Vec<Target>) -> Property {
    macro_rules! t {
        ($n:expr, $q:expr, |$s:ident, $c:ident| $e:expr) => {
            target($n, $q, $q * 30, |$s: &mut Src, $c: &mut Ctx| $e)
        };
    }
    let mut targets = vec![
        t!("smooth_f64", 12000, |s, c| smooth::<M64>(s, c)),
        t!("smooth_pnu", 12000, |s, c| smooth::<procedural_modelling::extensions::nalgebra::MeshType3d64PNU>(s, c)),
        t!("smooth_f32", 12000, |s, c| smooth::<MF32>(s, c)),
        t!("smooth_faces", 12000, |s, c| faces::<M32>(s, c, true)),
        t!("smooth_faces_u8", 8000, |s, c| faces::<M8>(s, c, true)),
        t!("flat_f64", 8000, |s, c| flat::<M16>(s, c)),
        t!("flat_pnu", 8000, |s, c| flat::<procedural_modelling::extensions::nalgebra::MeshType3d64PNU>(s, c)),
        t!("flat_f32", 8000, |s, c| flat::<MF32>(s, c)),
        t!("flat_faces", 8000, |s, c| faces::<M64>(s, c, false)),
        t!("naive", 8000, |s, c| naive::<M64>(s, c)),
    ];
    targets.extend(extra);
    Property {
        id: "P15",
        rule: "primitives of all kinds (rotated, moved, with removed faces) and worlds of concave, divided and prismatic faces; normals against the area vectors computed relative to a corner; non-trivial: several vertices between faces of different directions (smooth), more than two faces (flat)",
        assumptions: &["tolerances grow with the ratio of the coordinates to the height of a face; vertices whose face normals cancel and vertices without faces have no defined normal"],
        targets,
        known: vec![],
    }
}
