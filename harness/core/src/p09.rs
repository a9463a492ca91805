//! Extrusion (P09), lofting and hole filling (P10): reference patches on a snapshot.
use crate::hist::*;
use crate::model::*;
use crate::mt::*;
use crate::p01::*;
use crate::p04::any_mesh;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

/// A vertex of the expected result: an old one or the i-th new one.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum R {
    O(usize),
    N(usize),
}
use R::*;

/// Compares `after` with `s` in which the boundary walk `old` (and the face `gone`, if any) has been replaced.
/// Returns the ids of the new vertices.
pub fn patched<T: HT>(
    s: &Snap<T>,
    after: &Snap<T>,
    what: &str,
    old: &[usize],
    gone: Option<usize>,
    new: &[VMark],
    faces: &[Vec<R>],
    hole: Option<Vec<R>>,
) -> Result<Vec<usize>, Fail> {
    if let Err(d) = after.audit() {
        return fail("audit", format!("after {}: {}", what, d));
    }
    // vertices
    for (i, v) in &s.v {
        ensure!(after.v.get(i).map(|x| x.vp) == Some(v.vp), "untouched", "{} changed vertex {} from {:?} to {:?}", what, i, v.vp, after.v.get(i).map(|x| x.vp));
    }
    let mut fresh: BTreeMap<usize, VMark> = after.v.iter().filter(|(i, _)| !s.v.contains_key(i)).map(|(i, v)| (*i, v.vp)).collect();
    ensure_eq!(fresh.len(), new.len(), "new-vertices", "vertices created by {}", what);
    let mut id = vec![];
    for n in new {
        let close = |v: &VMark| (v.pos - n.pos).length() <= 1e-9 * (1.0 + n.pos.length()) && v.id == n.id;
        let Some(i) = fresh.iter().find(|(_, v)| close(v)).map(|(i, _)| *i) else {
            return fail("new-vertices", format!("{} did not create a vertex {:?}; unmatched new ones: {:?}", what, n, fresh));
        };
        fresh.remove(&i);
        id.push(i);
    }
    let res = |r: &R| match r {
        O(i) => *i,
        N(i) => id[*i],
    };
    // old edges
    for (i, h) in &s.e {
        let Some(g) = after.e.get(i) else { return fail("untouched", format!("{} deleted edge {}", what, i)) };
        ensure!((g.twin, g.org) == (h.twin, h.org) && g.ep == h.ep, "untouched", "{} changed edge {} from {:?} to {:?}", what, i, h, g);
        if !old.contains(i) {
            ensure!(g.next == h.next || old.contains(&h.next), "untouched", "{} changed next of edge {} from {} to {}", what, i, h.next, g.next);
            ensure!(g.face == h.face, "untouched", "{} changed the face of edge {} from {:?} to {:?}", what, i, h.face, g.face);
        }
    }
    for (i, f) in &s.f {
        if Some(*i) == gone {
            continue;
        }
        let Some(g) = after.f.get(i) else { return fail("untouched", format!("{} deleted face {}", what, i)) };
        ensure!(g.fp == f.fp && g.curved == f.curved, "untouched", "{} changed face {} from {:?} to {:?}", what, i, f, g);
    }
    // faces and holes as cyclic vertex lists
    let list = |x: &Snap<T>, w: &[usize]| canon(&w.iter().map(|e| x.org(*e)).collect::<Vec<_>>());
    let mut want: Vec<Vec<usize>> = s.f.keys().filter(|i| Some(**i) != gone).map(|i| list(s, &s.face_walk(*i))).collect();
    want.extend(faces.iter().map(|f| canon(&f.iter().map(res).collect::<Vec<_>>())));
    let mut got: Vec<Vec<usize>> = after.f.keys().map(|i| list(after, &after.face_walk(*i))).collect();
    want.sort();
    got.sort();
    if want != got {
        let miss: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
        let extra: Vec<_> = got.iter().filter(|w| !want.contains(w)).collect();
        return fail("faces", format!("{}: {} faces instead of {}; missing {:?}, unexpected {:?} (new vertices {:?})", what, got.len(), want.len(), miss, extra, id));
    }
    let mut want: Vec<Vec<usize>> = s.holes().iter().filter(|w| !old.contains(&w[0])).map(|w| list(s, w)).collect();
    if let Some(h) = &hole {
        want.push(canon(&h.iter().map(res).collect::<Vec<_>>()));
    }
    let mut got: Vec<Vec<usize>> = after.holes().iter().map(|w| list(after, w)).collect();
    want.sort();
    got.sort();
    ensure_eq!(got, want, "holes", "holes after {} (new vertices {:?})", what, id);
    // new elements carry default payloads
    for (i, h) in after.e.iter().filter(|(i, _)| !s.e.contains_key(i)) {
        ensure!(h.ep == EMark::default(), "payload", "{}: new edge {} carries {:?}", what, i, h.ep);
    }
    let nf = after.f.values().filter(|f| f.fp == FMark::default() && !f.curved).count();
    let of = s.f.iter().filter(|(i, f)| Some(**i) != gone && f.fp == FMark::default() && !f.curved).count();
    ensure_eq!(nf - of, faces.len(), "payload", "faces with default payload created by {}", what);
    Ok(id)
}

fn transform(src: &mut Src, c: &mut Ctx) -> Aff3 {
    let t = V3::new(src.int(-5, 5) as f64, src.int(-5, 5) as f64, src.int(-5, 5) as f64);
    let r = match src.below(4) {
        0 => Aff3::from_translation(t),
        1 => Aff3::from_scale(V3::new(src.int(1, 3) as f64, src.int(1, 3) as f64, src.int(1, 3) as f64)).with_translation(t),
        2 => {
            let axis = [V3::new(1.0, 0.0, 0.0), V3::new(0.0, 1.0, 0.0), V3::new(0.0, 0.0, 1.0)];
            Aff3::from_rotation_arc(*src.pick(&axis), *src.pick(&axis)).with_translation(t)
        }
        _ => Aff3::from_scale(V3::new(src.real(0.5, 2.0), src.real(0.5, 2.0), src.real(0.5, 2.0))).with_translation(t),
    };
    c.log(|| format!("transformation {:?}", r));
    r
}

fn simple_holes<T: HT>(s: &Snap<T>, max: usize) -> Vec<Vec<usize>> {
    s.holes().into_iter().filter(|w| w.len() >= 3 && w.len() <= max && simple(&w.iter().map(|e| s.org(*e)).collect::<Vec<_>>())).collect()
}
fn simple_faces<T: HT>(s: &Snap<T>, max: usize) -> Vec<usize> {
    s.f.keys().copied().filter(|f| {
        let w = s.face_walk(*f);
        w.len() >= 3 && w.len() <= max && simple(&w.iter().map(|e| s.org(*e)).collect::<Vec<_>>())
    }).collect()
}
fn rot(w: &[usize], i: usize) -> Vec<usize> {
    w[i..].iter().chain(w[..i].iter()).copied().collect()
}

/// gives every vertex its own mark, so that copies can be told apart in the next step
fn remark<T: HT>(m: &mut Mesh<T>) -> Snap<T> {
    let vs: Vec<T::V> = m.vertex_ids().collect();
    for v in vs {
        m.vertex_mut(v).payload_mut().id = 1000 + v.index() as u32;
    }
    snap(m)
}

fn start_mesh<T: HT>(src: &mut Src, c: &mut Ctx) -> Result<(Hist, Mesh<T>, Snap<T>), Fail> {
    let mut h = Hist::new(if T::CAP < 1000 { 100 } else { 300 });
    let (mut m, mut s) = any_mesh::<T>(src, c, &mut h)?;
    let hs = simple_holes(&s, 90);
    if hs.is_empty() || src.chance(1, 4) {
        if T::CAP > 1000 || s.e.len() < 100 {
            let n = src.few(3, 7, if T::CAP < 1000 { 10 } else { 80 });
            let vs: Vec<VMark> = (0..n).map(|_| h.vp(src)).collect();
            c.log(|| format!("insert_polygon of {} vertices", n));
            m.insert_polygon(vs);
            s = snap(&m);
        }
    }
    s = remark(&mut m);
    Ok((h, m, s))
}
fn fits<T: HT>(s: &Snap<T>, v: usize, e: usize, f: usize) -> bool {
    s.v.len() + v <= T::CAP && s.e.len() + e <= T::CAP && s.f.len() + f <= T::CAP
}

fn p09<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let (_h, mut m, mut s) = start_mesh::<T>(src, c)?;
    let steps = src.usize(1, 4);
    let mut done = 0;
    for _ in 0..steps {
        let op = src.usize(0, 5);
        let hs = simple_holes(&s, 90);
        let fs = simple_faces(&s, 90);
        let (w, gone) = if op < 4 {
            if hs.is_empty() {
                continue;
            }
            let w = src.pick(&hs).clone();
            let i = src.usize(0, w.len() - 1);
            (rot(&w, i), None)
        } else {
            if fs.is_empty() {
                continue;
            }
            let f = *src.pick(&fs);
            (s.face_walk(f), Some(f))
        };
        let n = w.len();
        if !fits(&s, n, 8 * n, 2 * n + 1) {
            continue;
        }
        let t = transform(src, c);
        let vs: Vec<usize> = w.iter().map(|e| s.org(*e)).collect();
        let copy = |v: usize| s.v[&v].vp.transformed(&t);
        let name = ["extrude", "extrude_tri", "extrude_tri2", "extrude_boundary", "extrude_face", "extrude_tri_face"][op];
        c.log(|| format!("{} at edge {} (boundary {:?})", name, w[0], vs));
        let e0 = T::E::new(w[0]);
        if op == 3 {
            // every hole is extruded
            let all = s.holes();
            let total = all.iter().map(|w| w.len()).sum::<usize>();
            if simple_holes(&s, 90).len() != all.len() || total > 120 || !fits(&s, total, 6 * total, total + all.len()) {
                continue;
            }
            m.extrude_boundary(t);
            let after = snap(&m);
            let mut new = vec![];
            let mut faces = vec![];
            for w in &all {
                let b = new.len();
                let k = w.len();
                let vs: Vec<usize> = w.iter().map(|e| s.org(*e)).collect();
                for i in 0..k {
                    new.push(copy(vs[i]));
                    let j = (i + 1) % k;
                    faces.push(vec![O(vs[i]), O(vs[j]), N(b + j), N(b + i)]);
                }
                faces.push((0..k).map(|i| N(b + i)).collect());
            }
            // a vertex on two holes is copied once per hole; the copies cannot be told apart
            let ids: BTreeSet<u32> = new.iter().map(|v| v.id).collect();
            if ids.len() == new.len() {
                let flat: Vec<usize> = all.iter().flatten().copied().collect();
                patched(&s, &after, name, &flat, None, &new, &faces, None)?;
            } else if let Err(d) = after.audit() {
                return fail("audit", format!("after {}: {}", name, d));
            }
            ensure!(!m.is_open() && after.holes().is_empty(), "holes", "the mesh is open after extrude_boundary");
            s = remark(&mut m);
            done += 1;
            c.label(name);
            continue;
        }
        let ret = match op {
            0 => m.extrude(e0, t),
            1 => m.extrude_tri(e0, t),
            2 => m.extrude_tri2(e0, t),
            4 => m.extrude_face(T::F::new(gone.unwrap()), t),
            _ => m.extrude_tri_face(T::F::new(gone.unwrap()), t),
        };
        let after = snap(&m);
        let next = |i: usize| (i + 1) % n;
        let cap: Vec<R> = (0..n).map(N).collect();
        let mut new: Vec<VMark> = vs.iter().map(|v| copy(*v)).collect();
        let id;
        match op {
            0 | 4 => {
                let mut f: Vec<Vec<R>> = (0..n).map(|i| vec![O(vs[i]), O(vs[next(i)]), N(next(i)), N(i)]).collect();
                f.push(cap);
                id = patched(&s, &after, name, &w, gone, &new, &f, None)?;
            }
            2 => {
                new = (0..n).map(|i| new[i].lerped(&new[next(i)], 0.5)).collect();
                let distinct = (0..n).all(|i| (0..i).all(|j| (new[i].pos - new[j].pos).length() > 1e-6));
                if !distinct {
                    s = remark(&mut m);
                    continue;
                }
                let mut f: Vec<Vec<R>> = (0..n).map(|i| vec![O(vs[i]), O(vs[next(i)]), N(i)]).collect();
                f.extend((0..n).map(|i| vec![N(i), O(vs[next(i)]), N(next(i))]));
                f.push(cap);
                id = patched(&s, &after, name, &w, None, &new, &f, None)?;
            }
            _ => {
                // either diagonal, but the same all around
                let mut f: Vec<Vec<R>> = (0..n).flat_map(|i| [vec![O(vs[i]), O(vs[next(i)]), N(next(i))], vec![O(vs[i]), N(next(i)), N(i)]]).collect();
                f.push(cap.clone());
                let mut g: Vec<Vec<R>> = (0..n).flat_map(|i| [vec![O(vs[i]), O(vs[next(i)]), N(i)], vec![O(vs[next(i)]), N(next(i)), N(i)]]).collect();
                g.push(cap);
                let a = patched(&s, &after, name, &w, gone, &new, &f, None);
                id = match patched(&s, &after, name, &w, gone, &new, &g, None) {
                    Ok(x) => x,
                    Err(_) => a?,
                };
            }
        }
        // the returned edge lies on the transported loop, on the side of the cap
        let r = ret.index();
        let ok = after.e.contains_key(&r) && id.contains(&after.org(r)) && id.contains(&after.tgt(r)) && after.walk(r).len() == n && after.walk(r).iter().all(|e| id.contains(&after.org(*e)));
        ensure!(ok, "returned", "{} returned edge {}, which is not on the new boundary {:?}", name, r, id);
        ensure!(s.complete() == false || m.check().is_ok(), "check", "check() fails after {}: {:?}", name, m.check());
        s = remark(&mut m);
        done += 1;
        c.label(name);
    }
    if done > 0 {
        c.nontrivial();
    }
    Ok(())
}

fn p10<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let (mut h, mut m, mut s) = start_mesh::<T>(src, c)?;
    let steps = src.usize(1, 4);
    let mut done = 0;
    let mut cont: Option<usize> = None;
    for _ in 0..steps {
        let op = src.usize(0, 6);
        let hs = simple_holes(&s, 90);
        if hs.is_empty() {
            break;
        }
        // continue at the edge returned last, or anywhere
        let w = match cont.take().and_then(|e| hs.iter().find_map(|w| w.iter().position(|x| *x == e).map(|i| rot(w, i)))) {
            Some(w) if src.chance(3, 4) => w,
            _ => {
                let w = src.pick(&hs).clone();
                let i = src.usize(0, w.len() - 1);
                rot(&w, i)
            }
        };
        let l = w.len();
        if !fits(&s, 3 * l, 8 * l, 2 * l + 1) {
            break;
        }
        let (nn, mm) = (src.few(2, 4, 9), src.few(2, 4, 9).min(l));
        // going around in fewer than three steps would create parallel edges
        let (nn, mm) = if l / (mm - 1) < 3 { (nn, 2) } else { (nn, mm) };
        let k = match op {
            0 | 1 | 3 => {
                // often exactly once around
                if src.bool() { l } else { src.usize(0, l) }
            }
            2 => {
                let q = l / (mm - 1);
                let full = q * (nn - 1);
                let lim = if l % (mm - 1) == 0 { full } else { ((l - 1) / (mm - 1)) * (nn - 1) + 1 };
                if src.bool() { lim } else { src.usize(0, lim) }
            }
            _ => l,
        };
        if !fits(&s, k, 8 * l + 2 * k, 2 * l + 1) {
            break;
        }
        let shift = src.bool();
        let xs: Vec<VMark> = (0..k).map(|_| h.vp(src)).collect();
        let v: Vec<usize> = w.iter().map(|e| s.org(*e)).collect();
        // backwards: u[0] is the target of the start edge
        let u: Vec<usize> = (0..l).map(|i| v[(l + 1 - i) % l]).collect();
        let e0 = T::E::new(w[0]);
        let name = ["loft_tri", "loft_tri_back", "loft_polygon_back", "loft_polygon", "loft_tri_closed", "loft_tri_back_closed", "fill_hole_apex"][op];
        c.log(|| format!("{} at edge {} (boundary {:?}) with {} vertices, shift {}, n {}, m {}", name, w[0], v, k, shift, nn, mm));
        let mut faces: Vec<Vec<R>> = vec![];
        let mut hole: Vec<R> = vec![];
        let vv = |i: usize| O(v[i % l]);
        let uu = |i: usize| O(u[i % l]);
        // the returned edge: (origin, target) and whether it must face the hole
        let mut ret_want: Option<(R, R)> = None;
        let ret;
        match op {
            0 => {
                ret = m.loft_tri(e0, shift, xs.clone()).index();
                for i in 0..k.saturating_sub(1) {
                    if shift {
                        faces.push(vec![N(i), vv(i), N(i + 1)]);
                        faces.push(vec![vv(i), vv(i + 1), N(i + 1)]);
                    } else {
                        faces.push(vec![vv(i), vv(i + 1), N(i)]);
                        faces.push(vec![N(i), vv(i + 1), N(i + 1)]);
                    }
                }
                if shift && k == 1 {
                    faces.clear();
                }
                if k > 0 {
                    hole.push(vv(0));
                    hole.extend((0..k).map(N));
                    hole.extend((k - 1..l).map(vv));
                    ret_want = Some((N(0), vv(0)));
                }
            }
            1 => {
                ret = m.loft_tri_back(e0, shift, xs.clone()).index();
                for i in 0..k.saturating_sub(1) {
                    if shift {
                        faces.push(vec![N(i + 1), uu(i), N(i)]);
                        faces.push(vec![uu(i + 1), uu(i), N(i + 1)]);
                    } else {
                        faces.push(vec![uu(i + 1), uu(i), N(i)]);
                        faces.push(vec![N(i + 1), uu(i + 1), N(i)]);
                    }
                }
                if k > 0 {
                    hole.push(uu(0));
                    hole.extend((k - 1..l).rev().map(uu));
                    hole.extend((0..k).rev().map(N));
                    ret_want = Some((N(0), uu(0)));
                }
            }
            2 => {
                ret = m.loft_polygon_back(e0, nn, mm, xs.clone()).index();
                let full = l % (mm - 1) == 0 && k == l / (mm - 1) * (nn - 1) && k > 0;
                let nf = if full { l / (mm - 1) } else { k.saturating_sub(1) / (nn - 1) };
                for j in 0..nf {
                    let mut f: Vec<R> = (0..mm).rev().map(|i| uu(j * (mm - 1) + i)).collect();
                    f.extend((0..nn).map(|i| N((j * (nn - 1) + i) % k)));
                    faces.push(f);
                }
                if full {
                    hole.extend((0..k).rev().map(N));
                } else if k > 0 {
                    let (a, b) = (nf * (mm - 1), nf * (nn - 1));
                    hole.push(uu(0));
                    hole.extend((a..l).rev().map(uu));
                    hole.push(N(b));
                    if k - 1 > b {
                        hole.extend((b + 1..k).map(N));
                        hole.extend((b..k - 1).rev().map(N));
                    }
                    hole.extend((0..b).rev().map(N));
                }
                if k > 1 {
                    ret_want = Some((N(1), N(0)));
                }
            }
            3 => {
                ret = m.loft_polygon(e0, 2, 2, xs.clone()).index();
                let full = k == l;
                for j in 0..(if full { l } else { k.saturating_sub(1) }) {
                    faces.push(vec![vv(j), vv(j + 1), N((j + 1) % k), N(j)]);
                }
                if full {
                    hole.extend((0..k).map(N));
                } else if k > 0 {
                    hole.push(vv(0));
                    hole.extend((0..k).map(N));
                    hole.extend((k - 1..l).map(vv));
                }
                if k > 1 {
                    ret_want = Some((N(0), N(1)));
                }
            }
            4 => {
                ret = m.loft_tri_closed(e0, xs.clone()).index();
                for i in 0..l {
                    faces.push(vec![vv(i), vv(i + 1), N(i)]);
                    faces.push(vec![N(i), vv(i + 1), N((i + 1) % l)]);
                }
                hole.extend((0..k).map(N));
                ret_want = Some((N(0), N(1)));
            }
            5 => {
                ret = m.loft_tri_back_closed(e0, xs.clone()).index();
                for i in 0..l {
                    faces.push(vec![uu(i + 1), uu(i), N(i)]);
                    faces.push(vec![N((i + 1) % l), uu(i + 1), N(i)]);
                }
                hole.extend((0..k).rev().map(N));
            }
            _ => {
                let vp = h.vp(src);
                let a = m.fill_hole_apex(e0, vp).index();
                let after = snap(&m);
                let f: Vec<Vec<R>> = (0..l).map(|i| vec![vv(i), vv(i + 1), N(0)]).collect();
                let id = patched(&s, &after, name, &w, None, &[vp], &f, None)?;
                ensure_eq!(a, id[0], "returned", "vertex returned by fill_hole_apex");
                s = after;
                done += 1;
                c.label(name);
                continue;
            }
        }
        let after = snap(&m);
        let holes = if k == 0 { Some(v.iter().map(|x| O(*x)).collect()) } else { Some(hole) };
        let id = patched(&s, &after, name, &w, None, &xs, &faces, holes)?;
        ensure!(after.e.contains_key(&ret), "returned", "{} returned the dead edge {}", name, ret);
        if k == 0 {
            ensure_eq!(ret, w[0], "returned", "edge returned by {} without vertices", name);
        }
        if let Some((a, b)) = ret_want {
            let r = |x: R| match x {
                O(i) => i,
                N(i) => id[i],
            };
            ensure_eq!(after.ends(ret), (r(a), r(b)), "returned", "ends of the edge returned by {}", name);
            if op >= 2 {
                ensure!(after.face(ret).is_none(), "returned", "{} returned an edge that is not on the remaining boundary", name);
            }
        }
        cont = Some(ret);
        s = after;
        done += 1;
        c.label(name);
    }
    if done > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn prop09() -> Property {
    Property {
        id: "P09",
        rule: "random extrusions of random boundaries and faces of grown meshes by random transformations, several in a row; non-trivial: at least one extrusion was applied and compared with its reference patch",
        assumptions: &["the extruded boundary has at least three edges and visits no vertex twice", "the diagonal direction of the triangle variants is free but uniform"],
        targets: vec![
            target("extrude_usize", 60000, 2400000, p09::<M64>),
            target("extrude_u32", 16000, 400000, p09::<M32>),
            target("extrude_u16", 16000, 400000, p09::<M16>),
            target("extrude_u8", 40000, 1200000, p09::<M8>),
        ],
        known: vec![],
    }
}
pub fn prop10() -> Property {
    Property {
        id: "P10",
        rule: "random lofts and hole fillings on random boundaries of grown meshes, several in a row and continued at the returned edge; non-trivial: at least one operation was applied and compared with its reference patch",
        assumptions: &["the boundary has at least three edges and visits no vertex twice", "at most one vertex per consumed boundary element is given (the hem does not overlap itself)", "closed variants get exactly one vertex per boundary edge", "loft_polygon is limited to quads by its own assertions", "forward lofts start at the origin of the start edge, backward lofts at its target"],
        targets: vec![
            target("loft_usize", 80000, 3200000, p10::<M64>),
            target("loft_u32", 16000, 400000, p10::<M32>),
            target("loft_u16", 16000, 400000, p10::<M16>),
            target("loft_u8", 40000, 1200000, p10::<M8>),
        ],
        known: vec![],
    }
}
