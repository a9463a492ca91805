//! Traversals and queries (P04), flips (P05), local surgery (P06).
use crate::hist::*;
use crate::model::*;
use crate::mt::*;
use crate::p01::*;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeSet;

/// Any consistent mesh: grown by low and high level operations.
pub fn any_mesh<T: HT>(src: &mut Src, c: &mut Ctx, h: &mut Hist) -> Result<(Mesh<T>, Snap<T>), Fail> {
    let any = src.bool();
    grow::<T>(src, c, h, if any { &W_ALL } else { &W_SOLID })
}
fn new_hist<T: HT>(n: usize) -> Hist {
    Hist::new(if T::CAP < 1000 { (T::CAP - 12).min(n) } else { n })
}

/// the same cyclic sequence?
pub fn cyc_eq<X: Ord + Clone>(a: &[X], b: &[X]) -> bool {
    a.len() == b.len() && canon(a) == canon(b)
}

/// Faces with many corners, vertices with many edges, long chains.
fn wide_mesh<T: HT>(src: &mut Src, c: &mut Ctx) -> Result<(Mesh<T>, Snap<T>), Fail> {
    let n = *src.pick(&[33usize, 64, 65, 66, 100, 129, 200, 257, 300]) + src.usize(0, 3);
    let kind = src.below(4);
    c.log(|| format!("wide mesh of kind {} with {} vertices", kind, n));
    let p = |i: usize| {
        let a = i as f64 / n as f64 * std::f64::consts::TAU;
        VMark::new(i as u32 + 1, a.cos(), a.sin(), 0.0)
    };
    let mut m = Mesh::<T>::new();
    match kind {
        0 => {
            m.insert_polygon((0..n).map(p));
        }
        1 => {
            let e = m.insert_loop((0..n).map(p));
            m.fill_hole_apex(e, VMark::new(9999, 0.0, 0.0, 1.0));
        }
        2 => {
            m.insert_path((0..n).map(p));
        }
        _ => {
            // a star of dangling edges
            let (v, _) = m.add_isolated_edge_default(p(0), p(1));
            let e = m.edge_ids().find(|e| m.edge(*e).origin_id() == v).unwrap();
            let i = m.edge(e).twin_id();
            let mut i = i;
            for k in 2..n {
                let (_, _, b) = m.add_vertex_via_edge_default(i, e, p(k));
                i = b;
            }
        }
    }
    let s = snap(&m);
    if let Err(e) = s.audit() {
        return fail("setup", e).map(|_: ()| unreachable!());
    }
    Ok((m, s))
}

fn p04<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = new_hist::<T>(160);
    let wide = T::CAP > 1000 && src.chance(1, 40);
    let (m, s) = if wide { wide_mesh::<T>(src, c)? } else { any_mesh::<T>(src, c, &mut h)? };
    if wide {
        c.label("wide");
    }
    let lim = s.e.len() + 5;
    let te = |i: usize| T::E::new(i);
    let tv = |i: usize| T::V::new(i);
    let tf = |i: usize| T::F::new(i);
    ensure_eq!(m.is_open(), s.e.values().any(|h| h.face.is_none()), "is_open", "is_open()");
    // edges
    let mut es: Vec<usize> = s.e.keys().copied().collect();
    while es.len() > if wide { 6 } else { 40 } {
        let i = src.below(es.len() as u64) as usize;
        es.swap_remove(i);
    }
    for &i in &es {
        let h = &s.e[&i];
        let e = m.edge(te(i)).clone();
        let w = s.walk(i);
        let ids = |it: &mut dyn Iterator<Item = usize>| -> Vec<usize> { it.take(lim).collect() };
        ensure_eq!(e.next(&m).id().index(), h.next, "links", "next of edge {}", i);
        ensure_eq!(e.prev(&m).id().index(), h.prev, "links", "prev of edge {}", i);
        ensure_eq!(e.twin(&m).id().index(), h.twin, "links", "twin of edge {}", i);
        ensure_eq!(e.origin(&m).id().index(), h.org, "ends", "origin of edge {}", i);
        ensure_eq!(e.target(&m).id().index(), s.tgt(i), "ends", "target of edge {}", i);
        ensure_eq!(e.target_id(&m).index(), s.tgt(i), "ends", "target_id of edge {}", i);
        ensure_eq!(e.face(&m).map(|f| f.id().index()), h.face, "face", "face of edge {}", i);
        ensure_eq!(e.other_face(&m).map(|f| f.id().index()), s.face(h.twin), "face", "other_face of edge {}", i);
        ensure_eq!(e.is_boundary_self(), h.face.is_none(), "boundary", "is_boundary_self of edge {}", i);
        ensure_eq!(e.is_boundary(&m), h.face.is_none() || s.face(h.twin).is_none(), "boundary", "is_boundary of edge {}", i);
        let mut got = ids(&mut e.face_ids(&m).map(|f| f.index()));
        got.sort();
        let mut exp: Vec<usize> = h.face.iter().chain(s.face(h.twin).iter()).copied().collect();
        exp.sort();
        ensure_eq!(got, exp, "face", "face_ids of edge {}", i);
        let mut back = vec![w[0]];
        back.extend(w[1..].iter().rev());
        ensure_eq!(ids(&mut e.edges_face(&m).map(|e| e.id().index())), w, "walk", "edges_face of edge {}", i);
        ensure_eq!(ids(&mut e.edges_face_back(&m).map(|e| e.id().index())), back, "walk", "edges_face_back of edge {}", i);
        ensure_eq!(ids(&mut m.edges_from(te(i)).map(|e| e.id().index())), w, "walk", "edges_from {}", i);
        ensure_eq!(ids(&mut m.edges_back_from(te(i)).map(|e| e.id().index())), back, "walk", "edges_back_from {}", i);
        // exact sizes, also in the middle of an iteration
        let mut it = e.edges_face(&m);
        for k in 0..w.len() {
            if k < 8 || k % 31 == 0 || k + 8 > w.len() {
                let (lo, hi) = it.size_hint();
                let left = w.len() - k;
                ensure!(lo <= left && hi.map_or(true, |h| h >= left), "len", "size_hint {:?} of edges_face of edge {} after {} of {} items", (lo, hi), i, k, w.len());
            }
            it.next();
        }
        ensure!(it.next().is_none() && it.next().is_none(), "walk", "edges_face of edge {} continues after its end", i);
        for &v in s.v.keys().take(60) {
            let exp = w.iter().any(|x| s.org(*x) == v);
            ensure_eq!(e.same_face(&m, tv(v)), exp, "same_face", "edge {} same_face({})", i, v);
            ensure_eq!(e.same_face_back(&m, tv(v)), exp, "same_face", "edge {} same_face_back({})", i, v);
        }
        let mid = e.centroid::<3>(&m);
        let (a, b) = (s.v[&h.org].vp.pos, s.v[&s.tgt(i)].vp.pos);
        ensure!(((a + b) * 0.5 - mid).length() <= 1e-9 * (1.0 + a.length() + b.length()), "centroid", "centroid of edge {} is {:?}", i, mid);
    }
    // pairs of half-edges
    let pairs: Vec<(usize, usize)> = m.twin_edges().take(lim).map(|(a, b)| (a.id().index(), b.id().index())).collect();
    let mut seen = BTreeSet::new();
    for (a, b) in &pairs {
        ensure_eq!(*b, s.twin(*a), "twin_edges", "partner of {}", a);
        ensure!(seen.insert(*a) && seen.insert(*b), "twin_edges", "pair ({}, {}) is listed twice", a, b);
    }
    ensure_eq!(seen.len(), s.e.len(), "twin_edges", "half-edges covered by twin_edges");
    // vertices
    let mut isolated = false;
    for (&i, x) in &s.v {
        let v = m.vertex(tv(i));
        let outs = s.outs(i);
        ensure_eq!(v.edge(&m).map(|e| e.id().index()), x.edge, "rep", "edge of vertex {}", i);
        isolated |= outs.is_empty();
        // clockwise wheel
        let mut wheel = vec![];
        if let Some(e) = x.edge {
            let mut k = e;
            loop {
                wheel.push(k);
                k = s.next(s.twin(k));
                if k == e {
                    break;
                }
            }
        }
        let got: Vec<usize> = v.edges_out(&m).take(lim).map(|e| e.id().index()).collect();
        ensure!(cyc_eq(&got, &wheel), "wheel", "edges_out of vertex {}: {:?}, expected (cyclically) {:?}", i, got, wheel);
        let got: Vec<usize> = v.edges_in(&m).take(lim).map(|e| e.id().index()).collect();
        let exp: Vec<usize> = wheel.iter().map(|e| s.twin(*e)).collect();
        ensure!(cyc_eq(&got, &exp), "wheel", "edges_in of vertex {}: {:?}, expected {:?}", i, got, exp);
        let exp: Vec<usize> = wheel.iter().map(|e| s.tgt(*e)).collect();
        let got: Vec<usize> = v.vertices(&m).take(lim).map(|e| e.id().index()).collect();
        ensure!(cyc_eq(&got, &exp), "wheel", "vertices around {}: {:?}, expected {:?}", i, got, exp);
        let got: Vec<usize> = v.neighbor_ids(&m).take(lim).map(|e| e.index()).collect();
        ensure!(cyc_eq(&got, &exp), "wheel", "neighbor_ids of {}: {:?}, expected {:?}", i, got, exp);
        let exp: Vec<usize> = wheel.iter().filter_map(|e| s.face(*e)).collect();
        let got: Vec<usize> = v.faces(&m).take(lim).map(|e| e.id().index()).collect();
        ensure!(cyc_eq(&got, &exp), "wheel", "faces around {}: {:?}, expected {:?}", i, got, exp);
        ensure_eq!(v.degree(&m), outs.len(), "degree", "degree of vertex {}", i);
        ensure_eq!(v.has_only_one_edge(&m), outs.len() == 1, "degree", "has_only_one_edge of vertex {}", i);
        ensure_eq!(
            v.is_boundary(&m),
            outs.iter().any(|e| s.face(*e).is_none() || s.face(s.twin(*e)).is_none()),
            "boundary",
            "is_boundary of vertex {}",
            i
        );
        let open = s.boundary_outs(i);
        if open.len() == 1 {
            ensure_eq!(v.outgoing_boundary_edge(&m).map(|e| e.index()), Some(open[0]), "boundary", "outgoing_boundary_edge of vertex {}", i);
            ensure_eq!(v.ingoing_boundary_edge(&m).map(|e| e.index()), Some(s.prev(open[0])), "boundary", "ingoing_boundary_edge of vertex {}", i);
        } else if outs.is_empty() {
            ensure_eq!(v.outgoing_boundary_edge(&m), None, "boundary", "outgoing_boundary_edge of the isolated vertex {}", i);
        }
    }
    // faces
    for &i in s.f.keys() {
        let f = m.face(tf(i));
        let w = s.face_walk(i);
        let n = w.len();
        ensure_eq!(f.edge(&m).id().index(), s.f[&i].edge, "rep", "edge of face {}", i);
        ensure_eq!((f.num_edges(&m), f.num_vertices(&m)), (n, n), "face-count", "num_edges, num_vertices of face {}", i);
        if n >= 3 {
            ensure_eq!(f.num_triangles(&m), (n - 2) * 3, "face-count", "num_triangles (corners) of face {}", i);
        }
        ensure_eq!(f.may_be_curved(), s.f[&i].curved, "curved", "may_be_curved of face {}", i);
        let got: Vec<usize> = f.edges(&m).take(lim).map(|e| e.id().index()).collect();
        ensure!(cyc_eq(&got, &w), "walk", "edges of face {}: {:?}, expected {:?}", i, got, w);
        let got: Vec<usize> = f.edge_ids(&m).take(lim).map(|e| e.index()).collect();
        ensure!(cyc_eq(&got, &w), "walk", "edge_ids of face {}: {:?}, expected {:?}", i, got, w);
        let exp = s.walk_vs(w[0]);
        let got: Vec<usize> = f.vertices(&m).take(lim).map(|e| e.id().index()).collect();
        ensure!(cyc_eq(&got, &exp), "walk", "vertices of face {}: {:?}, expected {:?}", i, got, exp);
        ensure_eq!(f.vertices(&m).len(), n, "len", "vertices().len() of face {}", i);
        let got: Vec<usize> = f.vertex_ids(&m).take(lim).map(|e| e.index()).collect();
        ensure!(cyc_eq(&got, &exp), "walk", "vertex_ids of face {}: {:?}, expected {:?}", i, got, exp);
        // a triangle of three face vertices
        for _ in 0..3 {
            let (a, b, d) = (*src.pick(&exp), *src.pick(&exp), *src.pick(&exp));
            if a == b || b == d || a == d {
                continue;
            }
            let sides: Vec<usize> = [(a, b), (b, d), (d, a)]
                .iter()
                .filter_map(|(x, y)| s.edge_between(*x, *y))
                // an edge of other faces is no evidence: it may be a diagonal of this one
                .filter(|e| s.face(*e) == Some(i) || s.face(s.twin(*e)) == Some(i))
                .collect();
            let own = sides.iter().filter(|e| s.face(**e) == Some(i)).count();
            let got = f.triangle_touches_boundary(&m, tv(a), tv(b), tv(d));
            if sides.is_empty() {
                ensure_eq!(got, None, "touches", "triangle ({},{},{}) of face {} without a common edge", a, b, d, i);
            } else if own == sides.len() {
                ensure_eq!(got, Some(true), "touches", "triangle ({},{},{}) along an edge of face {}", a, b, d, i);
            } else if own == 0 {
                ensure_eq!(got, Some(false), "touches", "triangle ({},{},{}) along edges that face {} does not own", a, b, d, i);
            }
        }
    }
    // pairs of vertices
    let vs: Vec<usize> = s.v.keys().copied().collect();
    for _ in 0..(vs.len() * 2).min(60) {
        let a = *src.pick(&vs);
        // neighbours more often than chance would have it
        let outs = s.outs(a);
        let b = if !outs.is_empty() && src.bool() { s.tgt(*src.pick(&outs)) } else { *src.pick(&vs) };
        let exp = s.edge_between(a, b);
        ensure_eq!(m.shared_edge(tv(a), tv(b)).map(|e| e.id().index()), exp, "shared_edge", "shared_edge({}, {})", a, b);
        ensure_eq!(m.shared_edge_id(tv(a), tv(b)).map(|e| e.index()), exp, "shared_edge", "shared_edge_id({}, {})", a, b);
        let fs = |v: usize| s.outs(v).iter().filter_map(|e| s.face(*e)).collect::<BTreeSet<usize>>();
        let common: BTreeSet<usize> = fs(a).intersection(&fs(b)).copied().collect();
        let got = m.shared_face(tv(a), tv(b)).map(|f| f.index());
        match got {
            None => ensure!(common.is_empty(), "shared_face", "shared_face({}, {}) is None but both touch {:?}", a, b, common),
            Some(f) => ensure!(common.contains(&f), "shared_face", "shared_face({}, {}) is {} but the common faces are {:?}", a, b, f, common),
        }
    }
    let comps: BTreeSet<usize> = s.components().values().copied().collect();
    if comps.len() > 1 {
        c.label("components");
    }
    if isolated {
        c.label("isolated-vertex");
    }
    if s.f.len() >= 2 && s.e.values().any(|h| h.face.is_none()) {
        c.label("open");
        c.nontrivial();
    } else if s.f.len() >= 4 {
        c.nontrivial();
    }
    Ok(())
}

/// Renames the two half-edges of the given pairs, payloads staying with the ids.
fn flip_model<T: HT>(s: &Snap<T>, flipped: &BTreeSet<usize>) -> Snap<T> {
    let sw = |e: usize| if flipped.contains(&e) { s.twin(e) } else { e };
    let mut x = s.clone();
    for (i, h) in &s.e {
        let j = sw(*i);
        x.e.insert(
            j,
            He { twin: sw(h.twin), next: sw(h.next), prev: sw(h.prev), org: h.org, face: h.face, ep: s.he(j).ep.clone() },
        );
    }
    x
}

fn p05<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = new_hist::<T>(160);
    let (mut m, s) = any_mesh::<T>(src, c, &mut h)?;
    let all: BTreeSet<usize> = s.e.keys().copied().collect();
    let expect = |m: &Mesh<T>, exp: &Snap<T>, what: &str| -> Result<Snap<T>, Fail> {
        let got = snap(m);
        if let Err(d) = got.audit() {
            return fail("flip-audit", format!("{}: {}", what, d));
        }
        if let Err(d) = exp.diff(&got) {
            return fail("flip-effect", format!("{}: {}", what, d));
        }
        ensure_eq!(m.check().is_ok(), s.complete(), "flip-check", "{}: check() accepts", what);
        Ok(got)
    };
    // flipped() leaves the original alone
    let fl = m.flipped();
    expect(&fl, &flip_model(&s, &all), "flipped()")?;
    ensure!(snap(&m).same(&s), "flip-original", "flipped() changed the original mesh");
    m.flip();
    let f1 = expect(&m, &flip_model(&s, &all), "flip()")?;
    // cyclic vertex lists of faces and holes are what they were
    let lists = |s: &Snap<T>| -> BTreeSet<(Option<usize>, Vec<usize>)> {
        s.walks().into_iter().map(|w| (s.face(w[0]), canon(&s.walk_vs(w[0])))).collect()
    };
    ensure_eq!(lists(&f1), lists(&s), "flip-walks", "boundary walks after flip()");
    m.flip();
    expect(&m, &s, "flip() twice")?;
    // single edges
    if !s.e.is_empty() {
        let mut cur = snap(&m);
        let es: Vec<usize> = all.iter().copied().collect();
        for _ in 0..src.usize(1, 6) {
            let e = *src.pick(&es);
            c.log(|| format!("flip_edge({})", e));
            if src.bool() {
                m.flip_edge(T::E::new(e));
            } else {
                HalfEdge::<T>::flip(T::E::new(e), &mut m);
            }
            let exp = flip_model(&cur, &[e, cur.twin(e)].into_iter().collect());
            cur = expect(&m, &exp, &format!("flip_edge({})", e))?;
        }
    }
    if s.walks().iter().any(|w| w.len() == 2) || s.e.iter().any(|(_, h)| h.next == h.twin) {
        c.label("dangling");
    }
    if s.e.len() >= 6 && !s.f.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

fn p06<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = new_hist::<T>(if T::CAP < 1000 { 140 } else { 200 });
    let (mut m, mut s) = any_mesh::<T>(src, c, &mut h)?;
    if s.e.is_empty() {
        m.insert_polygon((0..src.usize(3, 6)).map(|_| h.vp(src)).collect::<Vec<_>>());
        s = snap(&m);
    }
    h.check = true;
    h.max_edges = if T::CAP < 1000 { T::CAP - 4 } else { 10_000 };
    let mut did = (0, 0);
    for _ in 0..src.usize(1, 8) {
        match src.below(4) {
            0 => {
                if let Some(n) = step(src, c, &mut h, &mut m, &s, 13)? {
                    s = n;
                    did.0 += 1;
                }
            }
            1 => {
                // remove a face and close the hole again, at any of its edges
                let fs: Vec<usize> = s.f.keys().copied().filter(|f| s.face_walk(*f).len() >= 3).collect();
                if fs.is_empty() {
                    continue;
                }
                let f = *src.pick(&fs);
                let w = s.face_walk(f);
                c.log(|| format!("remove_face({})", f));
                let fp = m.remove_face(T::F::new(f));
                ensure_eq!(fp, s.f[&f].fp, SIG_RET, "payload returned by remove_face({})", f);
                let mut x = s.clone();
                for e in &w {
                    x.e.get_mut(e).unwrap().face = None;
                }
                x.f.remove(&f);
                let got = settle(&h, &m, &x, snap(&m), "remove_face")?;
                ensure!(cyc_eq(&got.walk(w[0]), &w), SIG_EFFECT, "the hole left by face {} has another walk", f);
                let e = *src.pick(&w);
                let cv = s.f[&f].curved;
                c.log(|| format!("close_hole({})", e));
                let id = m.close_hole(T::E::new(e), fp, cv).index();
                x.add_face(id, e, cv, fp)?;
                s = settle(&h, &m, &x, snap(&m), "close_hole after remove_face")?;
                did.1 += 1;
            }
            _ => {
                if let Some(n) = step(src, c, &mut h, &mut m, &s, 12)? {
                    s = n;
                    did.0 += 1;
                }
            }
        }
    }
    if did.0 > 0 && did.1 > 0 || did.0 > 2 {
        c.nontrivial();
    }
    Ok(())
}

/// Long chains: one edge takes many vertices, in one or in several calls.
fn p06_chain(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = new_hist::<M64>(120);
    let (mut m, mut s) = any_mesh::<M64>(src, c, &mut h)?;
    if s.e.is_empty() {
        m.insert_polygon((0..3).map(|_| h.vp(src)).collect::<Vec<_>>());
        s = snap(&m);
    }
    let es: Vec<usize> = s.e.keys().copied().collect();
    let e = *src.pick(&es);
    let k = src.sized(2, 40);
    let items: Vec<(EMark, EMark, VMark)> = (0..k).map(|_| (EMark(h.mark()), EMark(h.mark()), h.vp(src))).collect();
    c.log(|| format!("insert_vertices_into_edge({} [{}->{}], {} vertices)", e, s.org(e), s.tgt(e), k));
    let before = snap(&m);
    let (u, w) = s.ends(e);
    let ret = m.insert_vertices_into_edge(e, items.clone().into_iter());
    let after = snap(&m);
    if let Err(d) = after.audit() {
        return fail(SIG_AUDIT, d);
    }
    let mut x = before.clone();
    split_model(&mut x, &after, &before, e, &items)?;
    settle(&h, &m, &x, after.clone(), "insert_vertices_into_edge")?;
    ensure_eq!(after.org(ret), u, SIG_RET, "origin of the returned edge");
    // the chain from the returned edge passes the new vertices in order
    let mut cur = ret;
    for it in &items {
        ensure_eq!(after.v[&after.tgt(cur)].vp.id, it.2.id, SIG_EFFECT, "order of the chain");
        cur = after.next(cur);
    }
    ensure_eq!(after.tgt(cur), w, SIG_EFFECT, "end of the chain");
    ensure_eq!(after.euler(), before.euler(), SIG_EFFECT, "Euler characteristic");
    c.nontrivial();
    Ok(())
}

pub fn prop04() -> Property {
    Property {
        id: "P04",
        rule: "random meshes grown by builder calls, primitives, extrusions and lofts; every query on every element is compared with a brute-force reading of the raw links; non-trivial: an open mesh with at least two faces or any mesh with at least four",
        assumptions: &["outgoing/ingoing_boundary_edge are queried at vertices with exactly one open corner (they assert manifold vertices)"],
        targets: vec![
            target("queries_usize", 25000, 750000, p04::<M64>),
            target("queries_u32", 15000, 400000, p04::<M32>),
            target("queries_u16", 15000, 400000, p04::<M16>),
            target("queries_u8", 25000, 700000, p04::<M8>),
        ],
        known: vec![],
    }
}
pub fn prop05() -> Property {
    Property {
        id: "P05",
        rule: "random grown meshes, flipped as a whole and edge by edge; non-trivial: at least three edges and one face",
        assumptions: &[],
        targets: vec![
            target("flip_usize", 15000, 400000, p05::<M64>),
            target("flip_u32", 4000, 100000, p05::<M32>),
            target("flip_u16", 4000, 100000, p05::<M16>),
            target("flip_u8", 8000, 200000, p05::<M8>),
        ],
        known: vec![],
    }
}
pub fn prop06() -> Property {
    Property {
        id: "P06",
        rule: "random grown meshes followed by splits, subdivisions, face removals and re-closings; non-trivial: splits and a removal, or more than two splits",
        assumptions: &["subdivide_unsafe is only used together with its fixup on edges without dangling ends"],
        targets: vec![
            target("surgery_usize", 15000, 400000, p06::<M64>),
            target("surgery_u32", 4000, 100000, p06::<M32>),
            target("surgery_u16", 4000, 100000, p06::<M16>),
            target("surgery_u8", 8000, 200000, p06::<M8>),
            target("chain", 10000, 200000, p06_chain),
        ],
        known: vec![],
    }
}
