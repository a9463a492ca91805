use crate::hist::*;
use crate::model::*;
use crate::mt::*;
use engine::*;
use procedural_modelling::prelude::*;

fn p02<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = Hist::new((T::CAP - 12).min(160));
    let mut m = Mesh::<T>::new();
    let n = src.sized(2, 50);
    run(src, c, &mut h, &mut m, n, &W_ALL)?;
    if h.applied >= 4 && h.kinds.len() >= 3 {
        c.nontrivial();
    }
    for (k, l) in [(4, "close_hole"), (5, "remove_face"), (8, "insert_edge"), (9, "close_face"), (10, "close_face_vertices"), (11, "insert_edge_between"), (12, "split"), (13, "subdivide")] {
        if h.kinds.contains(&k) {
            c.label(l);
        }
    }
    Ok(())
}
pub fn prop02() -> Property {
    Property {
        id: "P02",
        rule: "random histories of builder calls on an initially empty mesh; non-trivial: at least 4 calls of at least 3 kinds were applied",
        assumptions: &["calls respect the documented preconditions: holes only, no parallel edges, insert_edge_between joins two components at vertices with one boundary corner"],
        targets: vec![
            target("history_usize", 30000, 600000, p02::<M64>),
            target("history_u32", 10000, 200000, p02::<M32>),
            target("history_u16", 10000, 200000, p02::<M16>),
            target("history_u8", 20000, 400000, p02::<M8>),
        ],
        known: vec![],
    }
}

/// Weights for histories that never leave an isolated edge behind.
pub const W_SOLID: [u64; OPS] = [1, 0, 0, 2, 4, 1, 2, 2, 2, 4, 3, 2, 3, 2, 3];

pub fn simple(s: &[usize]) -> bool {
    s.iter().collect::<std::collections::BTreeSet<_>>().len() == s.len()
}

/// A random higher-level operation (audited only). Returns its name, None if not applicable.
pub fn big_step<T: HT>(src: &mut Src, c: &mut Ctx, h: &mut Hist, m: &mut Mesh<T>, s: &Snap<T>) -> Result<Option<&'static str>, Fail> {
    let longest = if T::CAP >= 1000 && src.chance(1, 10) { 100 } else { 12 };
    let holes: Vec<Vec<usize>> =
        s.holes().into_iter().filter(|w| w.len() >= 3 && w.len() <= longest && simple(&w.iter().map(|e| s.org(*e)).collect::<Vec<_>>())).collect();
    let op = src.usize(0, 13);
    c.log(|| format!("big operation {}", op));
    let long = holes.iter().map(|w| w.len()).max().unwrap_or(0);
    if long > 12 {
        h.max_edges = h.max_edges.max(s.e.len() + 100 + 8 * long);
    }
    let room = h.max_edges.saturating_sub(s.e.len());
    if room < 80 || s.f.len() + 40 > T::CAP || s.v.len() + 40 > T::CAP {
        return Ok(None);
    }
    let t = Aff3::from_translation(V3::new(src.int(-3, 3) as f64, src.int(-3, 3) as f64, src.int(1, 3) as f64));
    let ring = |src: &mut Src, h: &mut Hist, n: usize| -> Vec<VMark> { (0..n).map(|_| h.vp(src)).collect() };
    if (5..).contains(&op) {
        if holes.is_empty() && op != 13 {
            return Ok(None);
        }
    }
    let e = |i: usize| T::E::new(i);
    let name = match op {
        0 => {
            let n = src.few(3, 6, if T::CAP < 1000 { 6 } else { 60 });
            let r = src.scale(-2, 2);
            let vs = (0..n).map(|i| {
                let a = 2.0 * std::f64::consts::PI * i as f64 / n as f64;
                VMark::new(h.mark(), r * a.cos(), r * a.sin(), 0.5 * r * a.sin())
            }).collect::<Vec<_>>();
            m.insert_prism(vs, 1.5);
            "insert_prism"
        }
        1 => {
            let n = src.few(3, 6, if T::CAP < 1000 { 6 } else { 60 });
            let (a, b) = (ring(src, h, n), ring(src, h, n));
            m.insert_antiprism_iter(a, b);
            "insert_antiprism_iter"
        }
        2 => {
            let n = src.few(3, 6, if T::CAP < 1000 { 6 } else { 60 });
            let (a, b) = (ring(src, h, n), h.vp(src));
            m.insert_pyramid(a, b);
            "insert_pyramid"
        }
        3 => {
            let n = src.few(3, 6, if T::CAP < 1000 { 6 } else { 60 });
            let (a, b) = (ring(src, h, n), ring(src, h, n));
            m.insert_frustum(a, b, false);
            "insert_frustum"
        }
        4 => {
            let n = src.few(3, 6, if T::CAP < 1000 { 6 } else { 60 });
            m.insert_dihedron(ring(src, h, n));
            "insert_dihedron"
        }
        5 => {
            let w = src.pick(&holes).clone();
            m.extrude(e(*src.pick(&w)), t);
            "extrude"
        }
        6 => {
            let w = src.pick(&holes).clone();
            m.extrude_tri(e(*src.pick(&w)), t);
            "extrude_tri"
        }
        7 => {
            let w = src.pick(&holes).clone();
            m.extrude_tri2(e(*src.pick(&w)), t);
            "extrude_tri2"
        }
        8 => {
            let w = src.pick(&holes).clone();
            let vp = h.vp(src);
            m.fill_hole_apex(e(*src.pick(&w)), vp);
            "fill_hole_apex"
        }
        9 => {
            let w = src.pick(&holes).clone();
            let k = src.usize(0, w.len());
            let r = ring(src, h, k);
            m.loft_polygon_back(e(*src.pick(&w)), 2, 2, r);
            "loft_polygon_back"
        }
        10 => {
            let w = src.pick(&holes).clone();
            let k = src.usize(0, w.len());
            let r = ring(src, h, k);
            m.loft_polygon(e(*src.pick(&w)), 2, 2, r);
            "loft_polygon"
        }
        11 => {
            let w = src.pick(&holes).clone();
            let r = ring(src, h, w.len());
            m.loft_tri_closed(e(*src.pick(&w)), r);
            "loft_tri_closed"
        }
        12 => {
            let w = src.pick(&holes).clone();
            let r = ring(src, h, w.len());
            m.loft_tri_back_closed(e(*src.pick(&w)), r);
            "loft_tri_back_closed"
        }
        _ => {
            let fs: Vec<usize> = s
                .f
                .keys()
                .copied()
                .filter(|f| {
                    let w = s.face_walk(*f);
                    w.len() >= 3 && w.len() <= longest && simple(&w.iter().map(|e| s.org(*e)).collect::<Vec<_>>())
                })
                .collect();
            if fs.is_empty() {
                return Ok(None);
            }
            let f = T::F::new(*src.pick(&fs));
            if src.bool() {
                m.extrude_face(f, t);
            } else {
                m.extrude_tri_face(f, t);
            }
            "extrude_face"
        }
    };
    c.log(|| name.to_string());
    Ok(Some(name))
}

fn accept<T: HT>(m: &Mesh<T>, s: &Snap<T>) -> Res {
    let r = m.check();
    if s.complete() {
        ensure!(r.is_ok(), "rejects-valid", "check() rejects a consistent mesh: {}", r.unwrap_err());
    } else {
        ensure!(r.is_err(), "accepts-incomplete", "check() accepts a mesh with a face-less edge or a 2-gon");
    }
    Ok(())
}

/// A mesh grown by low and high level operations; audited after every step.
pub fn grow<T: HT>(src: &mut Src, c: &mut Ctx, h: &mut Hist, weights: &[u64; OPS]) -> Result<(Mesh<T>, Snap<T>), Fail> {
    h.check = false;
    let mut m = Mesh::<T>::new();
    let n = src.sized(1, 14);
    let mut s = snap(&m);
    for _ in 0..n {
        if src.chance(2, 3) {
            let k = src.sized(1, 6);
            s = run(src, c, h, &mut m, k, weights)?;
        } else if let Some(name) = big_step(src, c, h, &mut m, &s)? {
            s = snap(&m);
            if let Err(d) = s.audit() {
                return fail(SIG_AUDIT, format!("after {}: {}", name, d));
            }
            h.applied += 1;
        }
    }
    Ok((m, s))
}

fn p01_grow<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = Hist::new(if T::CAP < 1000 { T::CAP - 12 } else { 400 });
    let any = src.chance(1, 3);
    let (mut m, mut s) = grow::<T>(src, c, &mut h, if any { &W_ALL } else { &W_SOLID })?;
    accept(&m, &s)?;
    if src.bool() {
        // finish it: close everything
        for w in s.holes() {
            if w.len() >= 3 && s.f.len() + 2 < T::CAP {
                m.close_hole(T::E::new(w[0]), FMark(h.mark()), false);
                s = snap(&m);
            }
        }
        if let Err(d) = s.audit() {
            return fail(SIG_AUDIT, format!("after closing all holes: {}", d));
        }
        accept(&m, &s)?;
    }
    if s.complete() {
        c.label("complete");
    }
    if h.applied >= 3 {
        c.nontrivial();
    }
    Ok(())
}

/// corrupts one link of a valid mesh
fn p01_corrupt<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = Hist::new(if T::CAP < 1000 { T::CAP - 12 } else { 120 });
    let (mut m, mut s) = grow::<T>(src, c, &mut h, &W_SOLID)?;
    if s.e.is_empty() {
        m.insert_loop((0..4).map(|_| h.vp(src)).collect::<Vec<_>>());
        s = snap(&m);
    }
    for w in s.holes() {
        if w.len() >= 3 && (src.bool() || s.face(s.twin(w[0])).is_none()) && s.f.len() + 2 < T::CAP {
            m.close_hole(T::E::new(w[0]), FMark(h.mark()), false);
            s = snap(&m);
        }
    }
    for w in s.holes() {
        if w.iter().any(|e| s.face(s.twin(*e)).is_none()) && w.len() >= 3 && s.f.len() + 2 < T::CAP {
            m.close_hole(T::E::new(w[0]), FMark(h.mark()), false);
            s = snap(&m);
        }
    }
    if !s.complete() {
        return c.discard();
    }
    ensure!(m.check().is_ok(), "rejects-valid", "check() rejects a consistent mesh: {:?}", m.check());
    let es: Vec<usize> = s.e.keys().copied().collect();
    let e = *src.pick(&es);
    let other = |src: &mut Src, not: usize, pool: &[usize]| -> Option<usize> {
        let v: Vec<usize> = pool.iter().copied().filter(|x| *x != not).collect();
        if v.is_empty() { None } else { Some(*src.pick(&v)) }
    };
    let te = |i: usize| T::E::new(i);
    let kind = src.usize(0, 11);
    let what;
    match kind {
        0 => {
            let Some(x) = other(src, s.next(e), &es) else { return c.discard() };
            m.edge_mut(te(e)).set_next(te(x));
            what = format!("next of edge {} is {} instead of {}", e, x, s.next(e));
        }
        1 => {
            let Some(x) = other(src, s.prev(e), &es) else { return c.discard() };
            m.edge_mut(te(e)).set_prev(te(x));
            what = format!("prev of edge {} is {} instead of {}", e, x, s.prev(e));
        }
        2 => {
            let Some(x) = other(src, s.twin(e), &es) else { return c.discard() };
            m.edge_mut(te(e)).set_twin(te(x));
            what = format!("twin of edge {} is {} instead of {}", e, x, s.twin(e));
        }
        3 => {
            let vs: Vec<usize> = s.v.keys().copied().collect();
            let Some(x) = other(src, s.org(e), &vs) else { return c.discard() };
            m.edge_mut(te(e)).set_origin(T::V::new(x));
            what = format!("origin of edge {} is {} instead of {}", e, x, s.org(e));
        }
        4 => {
            if s.face(e).is_none() {
                return c.discard();
            }
            m.edge_mut(te(e)).delete_face();
            what = format!("edge {} lost its face", e);
        }
        5 => {
            let fs: Vec<usize> = s.f.keys().copied().collect();
            let Some(x) = other(src, s.face(e).unwrap_or(usize::MAX), &fs) else { return c.discard() };
            if s.face(e).is_some() {
                m.edge_mut(te(e)).delete_face();
            }
            m.edge_mut(te(e)).set_face(T::F::new(x));
            what = format!("face of edge {} is {} instead of {:?}", e, x, s.face(e));
        }
        6 => {
            let vs: Vec<usize> = s.v.iter().filter(|(_, v)| v.edge.is_some()).map(|(k, _)| *k).collect();
            let v = *src.pick(&vs);
            let pool: Vec<usize> = es.iter().copied().filter(|x| s.org(*x) != v).collect();
            if pool.is_empty() {
                return c.discard();
            }
            let x = *src.pick(&pool);
            m.vertex_mut(T::V::new(v)).set_edge(te(x));
            what = format!("representative of vertex {} is {}, which starts at {}", v, x, s.org(x));
        }
        7 => {
            if s.f.is_empty() {
                return c.discard();
            }
            let fs: Vec<usize> = s.f.keys().copied().collect();
            let f = *src.pick(&fs);
            let pool: Vec<usize> = es.iter().copied().filter(|x| s.face(*x) != Some(f)).collect();
            if pool.is_empty() {
                return c.discard();
            }
            let x = *src.pick(&pool);
            m.face_mut(T::F::new(f)).set_edge(te(x));
            what = format!("representative of face {} is {}, which belongs to {:?}", f, x, s.face(x));
        }
        8 => {
            // two edges with different targets exchange their successors
            let pool: Vec<usize> = es.iter().copied().filter(|x| s.tgt(*x) != s.tgt(e)).collect();
            if pool.is_empty() {
                return c.discard();
            }
            let x = *src.pick(&pool);
            let (a, b) = (s.next(e), s.next(x));
            m.edge_mut(te(e)).set_next(te(b));
            m.edge_mut(te(b)).set_prev(te(e));
            m.edge_mut(te(x)).set_next(te(a));
            m.edge_mut(te(a)).set_prev(te(x));
            what = format!("edges {} and {} exchanged their successors", e, x);
        }
        9 => {
            // twins exchanged between two edges with different ends
            let pool: Vec<usize> =
                es.iter().copied().filter(|x| *x != e && *x != s.twin(e) && s.ends(*x) != s.ends(e)).collect();
            if pool.is_empty() {
                return c.discard();
            }
            let x = *src.pick(&pool);
            let (a, b) = (s.twin(e), s.twin(x));
            m.edge_mut(te(e)).set_twin(te(b));
            m.edge_mut(te(b)).set_twin(te(e));
            m.edge_mut(te(x)).set_twin(te(a));
            m.edge_mut(te(a)).set_twin(te(x));
            what = format!("edges {} and {} exchanged their twins", e, x);
        }
        10 => {
            // an edge without any face
            let pool: Vec<usize> = es.iter().copied().filter(|x| s.face(*x).is_some() && s.face(s.twin(*x)).is_none()).collect();
            if pool.is_empty() {
                return c.discard();
            }
            let x = *src.pick(&pool);
            let f = s.face(x).unwrap();
            m.remove_face(T::F::new(f));
            what = format!("face {} next to the open edge {} was removed", f, x);
        }
        _ => {
            // a face with two edges
            if s.v.len() + 3 > T::CAP || s.f.len() + 2 > T::CAP {
                return c.discard();
            }
            let (a, b) = m.add_isolated_edge_default(h.vp(src), h.vp(src));
            let x = m.shared_edge_id(a, b).unwrap();
            m.close_hole(x, FMark(1), false);
            what = "a face with two edges was added".to_string();
        }
    }
    c.log(|| what.clone());
    c.nontrivial();
    c.label(["next", "prev", "twin", "origin", "no-face", "face", "vertex-rep", "face-rep", "swap-next", "swap-twin", "open-edge", "2-gon"][kind]);
    match catch(|| m.check()) {
        Err(_) | Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => fail("accepts-corrupt", format!("check() accepts the mesh although {}", what)),
    }
}

pub fn prop01() -> Property {
    Property {
        id: "P01",
        rule: "random histories of low-level builder calls, primitives, extrusions, lofts and hole fillings; non-trivial: at least 3 operations applied (growth), or one link of a finished mesh corrupted",
        assumptions: &["calls respect the documented preconditions (see P02); extrusions and lofts only on boundaries that visit no vertex twice"],
        targets: vec![
            target("grow_usize", 60000, 1500000, p01_grow::<M64>),
            target("grow_u32", 20000, 400000, p01_grow::<M32>),
            target("grow_u16", 20000, 400000, p01_grow::<M16>),
            target("grow_u8", 40000, 800000, p01_grow::<M8>),
            target("corrupt_usize", 60000, 1500000, p01_corrupt::<M64>),
            target("corrupt_u8", 60000, 1000000, p01_corrupt::<M8>),
        ],
        known: vec![],
    }
}
