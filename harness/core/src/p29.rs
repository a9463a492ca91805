//! The consistency check of a mesh (P29).
use crate::hist::*;
use crate::model::*;
use crate::mt::*;
use crate::p04::any_mesh;
use crate::p21::{renumber, shuffle};
use engine::*;
use procedural_modelling::prelude::*;

/// The invariants the check is documented to look at, read from the raw links. Returns the first broken one.
fn broken<T: HT>(s: &Snap<T>) -> Option<(&'static str, String)> {
    for (i, h) in &s.e {
        if s.twin(h.twin) != *i {
            return Some(("twin", format!("the twin of the twin of half-edge {} is {}", i, s.twin(h.twin))));
        }
    }
    for (i, h) in &s.e {
        if s.prev(h.next) != *i || s.next(h.prev) != *i {
            return Some(("link", format!("half-edge {} has prev(next) {} and next(prev) {}", i, s.prev(h.next), s.next(h.prev))));
        }
    }
    for (i, h) in &s.e {
        if s.face(h.next) != h.face {
            return Some(("face", format!("half-edge {} has face {:?} but its successor {:?}", i, h.face, s.face(h.next))));
        }
        if s.org(h.next) != s.tgt(*i) {
            return Some(("origin", format!("half-edge {} leads to {} but its successor starts at {}", i, s.tgt(*i), s.org(h.next))));
        }
    }
    for (i, f) in &s.f {
        if s.face(f.edge) != Some(*i) {
            return Some(("face-edge", format!("face {} refers to half-edge {} of face {:?}", i, f.edge, s.face(f.edge))));
        }
    }
    for (i, v) in &s.v {
        if let Some(e) = v.edge {
            if s.org(e) != *i {
                return Some(("vertex-edge", format!("vertex {} refers to half-edge {} from vertex {}", i, e, s.org(e))));
            }
        }
    }
    for i in s.f.keys() {
        if s.face_walk(*i).len() < 3 {
            return Some(("degenerate", format!("face {} has {} edges", i, s.face_walk(*i).len())));
        }
    }
    for (i, h) in &s.e {
        if h.face.is_none() && s.face(h.twin).is_none() {
            return Some(("faceless", format!("half-edge {} has no face on either side", i)));
        }
    }
    None
}

fn face<T: HT>(m: &mut Mesh<T>, e: usize, f: Option<usize>) {
    let x = m.edge_mut(T::E::new(e));
    if !x.is_boundary_self() {
        x.delete_face();
    }
    if let Some(f) = f {
        x.set_face(T::F::new(f));
    }
}

/// One damage of the links. Some keep all but one of the invariants.
fn damage<T: HT>(src: &mut Src, c: &mut Ctx, m: &mut Mesh<T>) {
    let s = snap(m);
    let (vs, es, fs): (Vec<usize>, Vec<usize>, Vec<usize>) = (s.v.keys().copied().collect(), s.e.keys().copied().collect(), s.f.keys().copied().collect());
    if es.is_empty() || fs.is_empty() {
        return;
    }
    let te = |i: usize| T::E::new(i);
    let (e, d) = (*src.pick(&es), *src.pick(&es));
    let v = *src.pick(&vs);
    let f = *src.pick(&fs);
    let some = src.chance(3, 4).then_some(*src.pick(&fs));
    match src.below(16) {
        0 => {
            c.log(|| format!("next of {} := {}", e, d));
            m.edge_mut(te(e)).set_next(te(d));
        }
        1 => {
            c.log(|| format!("prev of {} := {}", e, d));
            m.edge_mut(te(e)).set_prev(te(d));
        }
        2 => {
            c.log(|| format!("twin of {} := {}", e, d));
            m.edge_mut(te(e)).set_twin(te(d));
        }
        3 => {
            c.log(|| format!("origin of {} := {}", e, v));
            m.edge_mut(te(e)).set_origin(T::V::new(v));
        }
        4 => {
            c.log(|| format!("face of {} := {:?}", e, some));
            face(m, e, some);
        }
        5 => {
            c.log(|| format!("edge of vertex {} := {}", v, e));
            m.vertex_mut(T::V::new(v)).set_edge(te(e));
        }
        6 => {
            c.log(|| format!("edge of face {} := {}", f, e));
            m.face_mut(T::F::new(f)).set_edge(te(e));
        }
        7 => {
            // exchange the successors
            let (n, k) = (s.next(e), s.next(d));
            c.log(|| format!("exchange the successors of {} and {}", e, d));
            m.edge_mut(te(e)).set_next(te(k));
            m.edge_mut(te(k)).set_prev(te(e));
            m.edge_mut(te(d)).set_next(te(n));
            m.edge_mut(te(n)).set_prev(te(d));
        }
        8 => {
            // exchange the twins
            let (n, k) = (s.twin(e), s.twin(d));
            if d != e && d != n {
                c.log(|| format!("exchange the twins of {} and {}", e, d));
                m.edge_mut(te(e)).set_twin(te(k));
                m.edge_mut(te(k)).set_twin(te(e));
                m.edge_mut(te(d)).set_twin(te(n));
                m.edge_mut(te(n)).set_twin(te(d));
            }
        }
        9 => {
            // a whole walk to another face
            c.log(|| format!("face of the walk of {} := {:?}", e, some));
            for x in s.walk(e) {
                face(m, x, some);
            }
        }
        10 => {
            // a part of a walk to another face
            let w = s.walk(e);
            let k = src.usize(1, w.len());
            c.log(|| format!("face of {} edges from {} on := {:?}", k, e, some));
            for x in &w[..k] {
                face(m, *x, some);
            }
        }
        11 => {
            // cut a face short: leave out an edge and what is behind it
            let (p, n) = (s.prev(e), s.next(e));
            if p != e {
                c.log(|| format!("leave out {}", e));
                m.edge_mut(te(p)).set_next(te(n));
                m.edge_mut(te(n)).set_prev(te(p));
                m.edge_mut(te(e)).set_next(te(e));
                m.edge_mut(te(e)).set_prev(te(e));
            }
        }
        12 => {
            // all edges of a vertex to another
            let w = *src.pick(&vs);
            c.log(|| format!("all edges of {} start at {}", v, w));
            for x in s.outs(v) {
                m.edge_mut(te(x)).set_origin(T::V::new(w));
            }
        }
        13 => {
            let n = s.next(e);
            c.log(|| format!("origin of {} and of the twin of its predecessor := {}", n, v));
            m.edge_mut(te(n)).set_origin(T::V::new(v));
            m.edge_mut(te(s.twin(e))).set_origin(T::V::new(v));
        }
        14 => {
            // a face moves to another walk, a short one if there is any
            let short: Vec<usize> = es.iter().copied().filter(|e| s.walk(*e).len() == 2).collect();
            let e = if short.is_empty() { e } else { *src.pick(&short) };
            if s.face(e).is_none() {
                c.log(|| format!("face {} moves to the walk of {}", f, e));
                for x in s.face_walk(f) {
                    face(m, x, None);
                }
                for x in s.walk(e) {
                    face(m, x, Some(f));
                }
                m.face_mut(T::F::new(f)).set_edge(te(e));
            }
        }
        _ if s.audit().is_ok() => {
            c.log(|| format!("remove face {}", f));
            m.remove_face(T::F::new(f));
        }
        _ => {}
    }
}

fn check<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = Hist::new(60.min(T::CAP - 12));
    let (mut m, _) = any_mesh::<T>(src, c, &mut h)?;
    let n = *src.pick(&[0usize, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        let s = snap(&m);
        if broken(&s).is_some_and(|b| b.0 == "twin" || b.0 == "link") {
            break;
        }
        damage(src, c, &mut m);
    }
    let mut s = snap(&m);
    if src.chance(1, 3) {
        let (pv, pe, pf) = (shuffle(src, &s.v, true), shuffle(src, &s.e, true), shuffle(src, &s.f, true));
        c.log(|| format!("renumber the half-edges {:?}", pe));
        m = renumber(&m, &s, &pv, &pe, &pf);
        s = snap(&m);
    }
    let want = broken(&s);
    let got = m.check();
    match (&want, &got) {
        (None, Ok(())) => {
            // what the check does not promise to look at
            c.label(if s.audit().is_ok() { "sound" } else { "accepted, other damage" });
        }
        (None, Err(e)) => return fail("rejected", format!("a mesh without broken invariants is rejected: {}", e)),
        (Some((k, d)), Ok(())) => return fail(&format!("accepted-{}", k), format!("accepted although {}", d)),
        (Some((k, _)), Err(_)) => {
            c.label(k);
        }
    }
    if n > 0 && s.e.len() > 6 {
        c.nontrivial();
    }
    Ok(())
}

pub fn prop29() -> Property {
    Property {
        id: "P29",
        rule: "meshes from random histories, then up to three damages of the links (single links, exchanged pairs, faces of parts of walks, origins of whole vertices), renumbered in a third of the cases; non-trivial: more than six half-edges and at least one damage",
        assumptions: &["damages refer to live elements only", "vertices with several wheels, faces with several walks and vertices that forgot their edges are not among the invariants check() looks at"],
        targets: vec![
            target("check_usize", 100000, 3000000, check::<M64>),
            target("check_u32", 100000, 3000000, check::<M32>),
            target("check_u16", 60000, 1800000, check::<M16>),
            target("check_u8", 60000, 1800000, check::<M8>),
        ],
        known: vec![],
    }
}
