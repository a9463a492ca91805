//! Subdivision (P11): a reference refinement of the face and hole lists.
use crate::hist::*;
use crate::model::*;
use crate::mt::*;
use crate::p01::*;
use crate::p04::any_mesh;
use engine::*;
use procedural_modelling::prelude::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

/// Produces marked vertices and records what they were made from.
struct Recorder {
    calls: RefCell<Vec<[(usize, usize); 3]>>,
    base: u32,
}
impl<T: HT> VertexInterpolator<3, T> for Recorder {
    fn call(&self, mesh: &T::Mesh, v: [(usize, T::V); 3]) -> VMark {
        let mut c = self.calls.borrow_mut();
        c.push(v.map(|(w, v)| (w, v.index())));
        let mut p = V3::new(0.0, 0.0, 0.0);
        let mut k = 0.0;
        for (w, v) in v {
            p = p + *mesh.vertex(v).payload().pos() * w as f64;
            k += w as f64;
        }
        let p = p / k;
        VMark { pos: p, nrm: V3::new(0.0, 0.0, 0.0), id: self.base + c.len() as u32 - 1 }
    }
}

/// A mesh all of whose faces are triangles.
pub fn tri_mesh<T: HT>(src: &mut Src, c: &mut Ctx, h: &mut Hist, max_faces: usize) -> Result<(Mesh<T>, Snap<T>), Fail> {
    let (mut m, mut s) = match src.below(4) {
        0 => {
            let k = src.usize(0, 2);
            c.log(|| format!("platonic solid {}", k));
            let m = match k {
                0 => Mesh::<T>::regular_tetrahedron(2.0),
                1 => Mesh::<T>::regular_octahedron(2.0),
                _ => Mesh::<T>::regular_icosahedron(2.0),
            };
            let s = snap(&m);
            (m, s)
        }
        1 => {
            let k = src.usize(3, 9);
            let mut m = Mesh::<T>::new();
            let vs: Vec<VMark> = (0..k).map(|_| h.vp(src)).collect();
            c.log(|| format!("fan of {} vertices", k));
            let e = m.insert_loop(vs);
            m.fill_hole_apex(e, h.vp(src));
            let s = snap(&m);
            (m, s)
        }
        2 => {
            let k = src.usize(3, 6);
            let mut m = Mesh::<T>::new();
            let vs: Vec<VMark> = (0..k).map(|_| h.vp(src)).collect();
            c.log(|| format!("band of {} vertices, in rows", k));
            let mut e = m.insert_loop(vs);
            for _ in 0..src.usize(1, 3) {
                e = m.loft_tri_closed(e, (0..k).map(|_| h.vp(src)).collect::<Vec<_>>());
            }
            let s = snap(&m);
            (m, s)
        }
        _ => {
            let (mut m, mut s) = any_mesh::<T>(src, c, h)?;
            // cut the other faces into fans
            let fs: Vec<usize> = s.f.keys().copied().collect();
            for f in fs {
                let w = s.face_walk(f);
                if w.len() == 3 {
                    continue;
                }
                c.log(|| format!("face {} becomes a fan (or a hole)", f));
                m.remove_face(T::F::new(f));
                s = snap(&m);
                let vs: Vec<usize> = w.iter().map(|e| s.org(*e)).collect();
                if simple(&vs) && vs.len() > 3 && s.v.len() < T::CAP && s.e.len() + 2 * w.len() <= T::CAP && s.f.len() + w.len() <= T::CAP && src.chance(3, 4) {
                    m.fill_hole_apex(T::E::new(w[0]), h.vp(src));
                    s = snap(&m);
                }
            }
            (m, s)
        }
    };
    let mut fs: Vec<usize> = s.f.keys().copied().collect();
    let keep = if src.bool() { max_faces } else { src.usize(1, max_faces) };
    let random = src.bool();
    while fs.len() > keep || (random && !fs.is_empty() && src.chance(1, 4)) {
        let f = fs.swap_remove(src.below(fs.len() as u64) as usize);
        c.log(|| format!("remove face {}", f));
        m.remove_face(T::F::new(f));
    }
    s = snap(&m);
    Ok((m, s))
}

fn p11_record<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = Hist::new(if T::CAP < 1000 { 100 } else { 200 });
    let tiny = T::CAP < 1000;
    let (mut m, s) = tri_mesh::<T>(src, c, &mut h, if tiny { 20 } else { 60 })?;
    let deep = !tiny && src.chance(1, 250);
    let mut b = if tiny { 2 } else { *src.pick(if deep { &[16usize, 32, 64] } else { &[2usize, 2, 1, 4, 8] }) };
    while b > 2 && s.f.len() * b * b > if deep { 9000 } else { 2000 } {
        b /= 2;
    }
    // every level at most doubles the edges and adds three per face
    let (mut e, mut f, mut v) = (s.e.len(), s.f.len(), s.v.len());
    let mut k = b;
    while k > 1 {
        v += e / 2;
        e = 2 * e + 6 * f;
        f *= 4;
        k /= 2;
    }
    if v > T::CAP || e > T::CAP || f > T::CAP {
        return c.discard();
    }
    // two faces that share two edges get two different edges between the same two new vertices,
    // which the lists below could not tell apart on the next level
    if b > 2 {
        let mut corners = BTreeSet::new();
        for f in s.f.keys() {
            let w: Vec<usize> = s.face_walk(*f).iter().map(|e| s.org(*e)).collect();
            for i in 0..3 {
                let (x, y, z) = (w[(i + 2) % 3], w[i], w[(i + 1) % 3]);
                if !corners.insert((y, x.min(z), x.max(z))) {
                    b = 2;
                }
            }
        }
    }
    let d = SubdivisionDescription::new(b, 0);
    ensure_eq!((d.b(), d.c(), d.frequency(), d.triangulation_number()), (b, 0, b, b * b), "description", "description ({}, 0)", b);
    // frequency and triangulation number are documented for all classes
    let (x, y) = (src.usize(1, 40), src.usize(0, 40));
    let d2 = SubdivisionDescription::new(x, y);
    ensure_eq!((d2.b(), d2.c(), d2.frequency(), d2.triangulation_number()), (x, y, x + y, x * x + x * y + y * y), "description", "description ({}, {})", x, y);
    let base = 100000;
    let rec = Recorder { calls: RefCell::new(vec![]), base };
    c.log(|| format!("subdivision ({}, 0) of {} faces", b, s.f.len()));
    if src.bool() || b != 2 {
        struct Ref<'a>(&'a Recorder);
        impl<T: HT> VertexInterpolator<3, T> for Ref<'_> {
            fn call(&self, mesh: &T::Mesh, v: [(usize, T::V); 3]) -> VMark {
                VertexInterpolator::<3, T>::call(self.0, mesh, v)
            }
        }
        m.subdivision_frequency(d, Ref(&rec));
    } else {
        m.loop_subdivision(&rec);
    }
    let after = snap(&m);
    if let Err(d) = after.audit() {
        return fail("audit", format!("after the subdivision: {}", d));
    }
    for (i, v) in &s.v {
        ensure!(after.v.get(i).map(|x| x.vp) == Some(v.vp), "original", "vertex {} changed from {:?} to {:?}", i, v.vp, after.v.get(i));
    }
    // who was made from whom
    let mut mark: BTreeMap<u32, usize> = BTreeMap::new();
    for (i, v) in &after.v {
        if !s.v.contains_key(i) {
            ensure!(mark.insert(v.vp.id, *i).is_none(), "new-vertices", "two vertices carry the payload #{}", v.vp.id);
        }
    }
    let calls = rec.calls.borrow();
    ensure_eq!(mark.len(), calls.len(), "new-vertices", "number of new vertices and of calls of the vertex function");
    let mut mid: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (i, call) in calls.iter().enumerate() {
        let Some(v) = mark.get(&(base + i as u32)) else {
            return fail("new-vertices", format!("the payload #{} of {:?} was not used", i, call));
        };
        let w: Vec<(usize, usize)> = call.iter().copied().filter(|x| x.0 > 0).collect();
        ensure!(w.len() == 2 && w[0].0 == w[1].0, "weights", "the vertex function was called with {:?} instead of two equal weights", call);
        let key = (w[0].1.min(w[1].1), w[0].1.max(w[1].1));
        ensure!(mid.insert(key, *v).is_none(), "shared", "two vertices were created for the edge {:?}", key);
    }
    // refine the lists
    let key = |a: usize, b: usize| (a.min(b), a.max(b));
    let mut faces: Vec<Vec<usize>> = s.f.keys().map(|f| s.face_walk(*f).iter().map(|e| s.org(*e)).collect()).collect();
    let mut holes: Vec<Vec<usize>> = s.holes().iter().map(|w| w.iter().map(|e| s.org(*e)).collect()).collect();
    let mut used = BTreeSet::new();
    let mut k = b;
    while k > 1 {
        let edges: BTreeSet<(usize, usize)> = faces.iter().flat_map(|f| (0..3).map(|i| key(f[i], f[(i + 1) % 3]))).collect();
        let mut next = vec![];
        for f in &faces {
            let mut x = vec![];
            for i in 0..3 {
                let e = key(f[i], f[(i + 1) % 3]);
                let Some(v) = mid.get(&e) else { return fail("new-vertices", format!("no vertex was created for the edge {:?}", e)) };
                used.insert(*v);
                x.push(*v);
            }
            next.push(vec![f[0], x[0], x[2]]);
            next.push(vec![x[0], f[1], x[1]]);
            next.push(vec![x[2], x[1], f[2]]);
            next.push(x);
        }
        faces = next;
        for w in &mut holes {
            let mut y = vec![];
            for i in 0..w.len() {
                y.push(w[i]);
                let e = key(w[i], w[(i + 1) % w.len()]);
                if edges.contains(&e) {
                    y.push(mid[&e]);
                }
            }
            *w = y;
        }
        k /= 2;
    }
    ensure_eq!(used.len(), mark.len(), "new-vertices", "vertices used by the refined faces");
    let sorted = |v: Vec<Vec<usize>>| {
        let mut v: Vec<Vec<usize>> = v.iter().map(|x| canon(x)).collect();
        v.sort();
        v
    };
    let list = |w: &[usize]| w.iter().map(|e| after.org(*e)).collect::<Vec<_>>();
    let got = sorted(after.f.keys().map(|f| list(&after.face_walk(*f))).collect());
    ensure_eq!(got.len(), s.f.len() * b * b, "faces", "number of faces");
    ensure_eq!(got, sorted(faces), "faces", "faces after the subdivision");
    ensure_eq!(sorted(after.holes().iter().map(|w| list(w)).collect()), sorted(holes), "holes", "holes after the subdivision");
    ensure_eq!(after.euler(), s.euler(), "euler", "Euler characteristic");
    ensure_eq!(m.is_open(), after.e.values().any(|h| h.face.is_none()), "openness", "is_open");
    ensure_eq!(m.is_open(), s.e.values().any(|h| h.face.is_none()), "openness", "openness after the subdivision");
    if s.complete() {
        ensure!(m.check().is_ok(), "check", "check() fails: {:?}", m.check());
    }
    c.label(if m.is_open() { "open" } else { "closed" });
    if b > 1 && s.f.len() > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// The interpolators of the library.
fn p11_interp(src: &mut Src, c: &mut Ctx) -> Res {
    type T = M64;
    let mut h = Hist::new(100);
    let (mut m, s) = tri_mesh::<T>(src, c, &mut h, 30)?;
    let center = V3::new(src.int(-9, 9) as f64 / 4.0, src.int(-9, 9) as f64 / 4.0, src.int(-9, 9) as f64 / 4.0);
    let radius = src.scale(-6, 6);
    let b = *src.pick(&[2usize, 4]);
    let linear = src.bool();
    let p = |s: &Snap<T>, v: usize| s.v[&v].vp.pos;
    let dist = |a: V3, b: V3| (a - b).length();
    c.log(|| format!("{} subdivision ({}, 0) of {} faces around {:?} with radius {}", if linear { "linear" } else { "slerp" }, b, s.f.len(), center, radius));
    // directions of the ends of the edges must not be opposite, and no vertex may be the center
    let unit = |x: V3| (x - center) / dist(x, center);
    if !linear {
        for i in s.e.keys() {
            let (x, y) = (p(&s, s.org(*i)), p(&s, s.tgt(*i)));
            if dist(x, center) < 1e-3 || dist(y, center) < 1e-3 || (unit(x) + unit(y)).length() < 0.05 || dist(unit(x), unit(y)) < 0.01 {
                return c.discard();
            }
        }
    }
    let v0: BTreeSet<usize> = s.v.keys().copied().collect();
    if linear {
        m.subdivision_frequency(SubdivisionDescription::new(b, 0), LinearVertexInterpolator::<3> {});
    } else {
        m.subdivision_frequency(SubdivisionDescription::new(b, 0), SlerpVertexInterpolator::<3, T>::new(center, radius));
    }
    let after = snap(&m);
    if let Err(d) = after.audit() {
        return fail("audit", format!("after the subdivision: {}", d));
    }
    // expected positions, face by face
    let mid = |x: V3, y: V3| {
        if linear {
            (x + y) * 0.5
        } else {
            let d = unit(x) + unit(y);
            center + d * (radius / d.length())
        }
    };
    let key = |v: V3| [v.x(), v.y(), v.z()];
    let mut faces: Vec<[V3; 3]> = s.f.keys().map(|f| {
        let w = s.face_walk(*f);
        [p(&s, s.org(w[0])), p(&s, s.org(w[1])), p(&s, s.org(w[2]))]
    }).collect();
    let mut k = b;
    while k > 1 {
        faces = faces.iter().flat_map(|[x, y, z]| {
            let (a, b, c) = (mid(*x, *y), mid(*y, *z), mid(*z, *x));
            [[*x, a, c], [a, *y, b], [c, b, *z], [a, b, c]]
        }).collect();
        k /= 2;
    }
    let scale = s.v.values().map(|v| v.vp.pos.length()).fold(radius + center.length(), f64::max);
    let got: Vec<[V3; 3]> = after.f.keys().map(|f| {
        let w = after.face_walk(*f);
        [p(&after, after.org(w[0])), p(&after, after.org(w[1])), p(&after, after.org(w[2]))]
    }).collect();
    ensure_eq!(got.len(), faces.len(), "faces", "number of faces");
    let tol = 1e-9 * scale;
    let mut left: Vec<[V3; 3]> = got;
    for f in &faces {
        let hit = left.iter().position(|g| (0..3).any(|r| (0..3).all(|i| dist(g[i], f[(i + r) % 3]) <= tol)));
        match hit {
            Some(i) => {
                left.swap_remove(i);
            }
            None => return fail("positions", format!("no triangle at {:?}", f.map(key))),
        }
    }
    if !linear {
        for (i, v) in &after.v {
            if !v0.contains(i) {
                ensure!((dist(v.vp.pos, center) - radius).abs() <= tol, "sphere", "vertex {} at {:?} is not on the sphere", i, key(v.vp.pos));
            }
        }
    }
    if !s.f.is_empty() {
        c.nontrivial();
    }
    // direct calls with arbitrary weights
    if linear && s.v.len() >= 3 {
        let vs: Vec<usize> = s.v.keys().copied().collect();
        let q: Vec<(usize, usize)> = (0..3).map(|_| (src.usize(0, 5), *src.pick(&vs))).collect();
        let w: usize = q.iter().map(|x| x.0).sum();
        if w > 0 {
            let got: VMark = VertexInterpolator::<3, T>::call(&LinearVertexInterpolator::<3> {}, &m, [q[0], q[1], q[2]]);
            let want = q.iter().fold(V3::new(0.0, 0.0, 0.0), |a, (w, v)| a + p(&s, *v) * *w as f64) / w as f64;
            ensure!(dist(got.pos, want) <= 1e-12 * scale, "linear", "interpolation with weights {:?} is {:?}, expected {:?}", q, key(got.pos), key(want));
        }
    }
    Ok(())
}

pub fn prop11() -> Property {
    Property {
        id: "P11",
        rule: "subdivisions by 1, 2, 4 or 8 of random closed and open triangle meshes, with a recording vertex function and with both library interpolators; non-trivial: at least one triangle was subdivided",
        assumptions: &["all faces are triangles", "the frequency is (b, 0) with b a power of two (anything else is refused by the library)", "spherical interpolation: ends of an edge are neither opposite nor equal as seen from the center"],
        targets: vec![
            target("record_usize", 20000, 400000, p11_record::<M64>),
            target("record_u32", 5000, 60000, p11_record::<M32>),
            target("record_u16", 5000, 60000, p11_record::<M16>),
            target("record_u8", 10000, 200000, p11_record::<M8>),
            target("interpolators", 15000, 200000, p11_interp),
        ],
        known: vec![],
    }
}
