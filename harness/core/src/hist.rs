//! Histories of building operations, each with its reference semantics on a snapshot.
use crate::model::*;
use crate::mt::*;
use engine::*;
use procedural_modelling::prelude::*;

pub struct Hist {
    pub marker: u32,
    pub max_edges: usize,
    /// compare with the model after every step
    pub check: bool,
    pub applied: usize,
    pub kinds: std::collections::BTreeSet<usize>,
}
impl Hist {
    pub fn new(max_edges: usize) -> Self {
        Hist { marker: 0, max_edges, check: true, applied: 0, kinds: Default::default() }
    }
    /// A length that is large now and then (then the mesh may become larger as well).
    fn few<T: HT>(&mut self, src: &mut Src, lo: usize, hi: usize, big: usize) -> usize {
        let k = src.few(lo, hi, if T::CAP < 1000 { big.min(30) } else { big });
        if k > hi && T::CAP >= 1000 {
            self.max_edges += 2 * k + 40;
        }
        k
    }
    pub fn mark(&mut self) -> u32 {
        self.marker += 1;
        self.marker
    }
    pub fn vp(&mut self, src: &mut Src) -> VMark {
        let id = self.mark();
        VMark::new(id, src.int(-8, 8) as f64, src.int(-8, 8) as f64, src.int(-8, 8) as f64)
    }
}

pub const SIG_EFFECT: &str = "effect";
pub const SIG_AUDIT: &str = "audit";
pub const SIG_RET: &str = "returned";

fn v<T: HT>(i: usize) -> T::V {
    T::V::new(i)
}
fn e<T: HT>(i: usize) -> T::E {
    T::E::new(i)
}
fn f<T: HT>(i: usize) -> T::F {
    T::F::new(i)
}

impl<T: HT> Snap<T> {
    pub fn link(&mut self, a: usize, b: usize) {
        self.e.get_mut(&a).unwrap().next = b;
        self.e.get_mut(&b).unwrap().prev = a;
    }
    pub fn add_v(&mut self, i: usize, vp: VMark) -> Res {
        ensure!(!self.v.contains_key(&i), "fresh-id", "new vertex took the live id {}", i);
        self.v.insert(i, Vx { edge: None, vp });
        Ok(())
    }
    pub fn add_e(&mut self, i: usize, j: usize, oi: usize, oj: usize, ei: EMark, ej: EMark) -> Res {
        for x in [i, j] {
            ensure!(!self.e.contains_key(&x), "fresh-id", "new half-edge took the live id {}", x);
        }
        ensure!(i != j, "fresh-id", "both new half-edges have id {}", i);
        self.e.insert(i, He { twin: j, next: j, prev: j, org: oi, face: None, ep: ei });
        self.e.insert(j, He { twin: i, next: i, prev: i, org: oj, face: None, ep: ej });
        Ok(())
    }
    pub fn add_face(&mut self, i: usize, e: usize, curved: bool, fp: FMark) -> Res {
        ensure!(!self.f.contains_key(&i), "fresh-id", "new face took the live id {}", i);
        self.f.insert(i, Fc { edge: e, curved, fp });
        for x in self.walk(e) {
            self.e.get_mut(&x).unwrap().face = Some(i);
        }
        Ok(())
    }
    /// the id of the vertex with the given marker
    fn by_mark(&self, m: u32) -> Result<usize, Fail> {
        let r: Vec<usize> = self.v.iter().filter(|(_, x)| x.vp.id == m).map(|(k, _)| *k).collect();
        if r.len() != 1 {
            return fail(SIG_EFFECT, format!("{} vertices carry the payload #{} instead of one", r.len(), m));
        }
        Ok(r[0])
    }
    fn edge_id_between(&self, a: usize, b: usize) -> Result<usize, Fail> {
        match self.edge_between(a, b) {
            Some(x) => Ok(x),
            None => fail(SIG_EFFECT, format!("no half-edge from {} to {} after the call", a, b)),
        }
    }
    /// splits the corner (i -> o) and puts the edge pair (a, b) there: i, a ... b, o
    fn add_spur(&mut self, i: usize, o: usize, a: usize, b: usize) {
        self.link(i, a);
        self.link(a, b);
        self.link(b, o);
    }
    /// connects target(i) with target(o): i -> a -> next(o) and o -> b -> next(i)
    fn connect(&mut self, i: usize, o: usize, a: usize, b: usize) {
        let (ni, no) = (self.next(i), self.next(o));
        self.link(i, a);
        self.link(a, no);
        self.link(o, b);
        self.link(b, ni);
    }
    pub fn boundary_outs(&self, v: usize) -> Vec<usize> {
        self.outs(v).into_iter().filter(|e| self.face(*e).is_none()).collect()
    }
}

/// Checks the mesh against the expected snapshot.
pub fn settle<T: HT>(h: &Hist, m: &Mesh<T>, exp: &Snap<T>, after: Snap<T>, what: &str) -> Result<Snap<T>, Fail> {
    let _ = m;
    if let Err(d) = after.audit() {
        return fail(SIG_AUDIT, format!("after {}: {}", what, d));
    }
    if h.check {
        if let Err(d) = exp.diff(&after) {
            return fail(SIG_EFFECT, format!("after {}: {}", what, d));
        }
    }
    Ok(after)
}

pub const OPS: usize = 15;

/// Applies one random operation; returns the new snapshot (None if not applicable).
pub fn step<T: HT>(src: &mut Src, c: &mut Ctx, h: &mut Hist, m: &mut Mesh<T>, s: &Snap<T>, op: usize) -> Result<Option<Snap<T>>, Fail> {
    let mut x = s.clone();
    let room0 = s.e.len();
    macro_rules! room { () => { h.max_edges.saturating_sub(room0) } }
    let what: String;
    macro_rules! na {
        () => {
            return Ok(None)
        };
    }
    match op {
        // isolated vertex
        0 => {
            if s.v.len() + 2 > T::CAP {
                na!();
            }
            let vp = h.vp(src);
            what = format!("add_vertex({:?})", vp);
            c.log(|| what.clone());
            let i = m.add_vertex(vp);
            x.add_v(i.index(), vp)?;
        }
        1 => {
            if room!() < 2 {
                na!();
            }
            let (a, b) = (h.vp(src), h.vp(src));
            let (ea, eb) = (EMark(h.mark()), EMark(h.mark()));
            let default = src.bool();
            what = format!("add_isolated_edge{}({:?},{:?},{:?},{:?})", if default { "_default" } else { "" }, a, ea, b, eb);
            c.log(|| what.clone());
            let (va, vb) = if default { m.add_isolated_edge_default(a, b) } else { m.add_isolated_edge(a, ea.clone(), b, eb.clone()) };
            let (ea, eb) = if default { (EMark(0), EMark(0)) } else { (ea, eb) };
            let (va, vb) = (va.index(), vb.index());
            x.add_v(va, a)?;
            ensure!(va != vb, SIG_RET, "add_isolated_edge returned the same vertex {} twice", va);
            x.add_v(vb, b)?;
            let after = snap(m);
            let i = after.edge_id_between(va, vb)?;
            let j = after.edge_id_between(vb, va)?;
            x.add_e(i, j, va, vb, ea, eb)?;
        }
        2 => {
            let k = h.few::<T>(src, 2, 5, 70);
            if room!() < 2 * k {
                na!();
            }
            let vps: Vec<VMark> = (0..k).map(|_| h.vp(src)).collect();
            what = format!("insert_path({} vertices)", k);
            c.log(|| what.clone());
            let (first, last) = m.insert_path(vps.clone());
            let after = snap(m);
            let ids = path_model(&mut x, &after, &vps)?;
            ensure_eq!(first.index(), x.edge_between(ids[1], ids[0]).unwrap(), SIG_RET, "insert_path first edge");
            ensure_eq!(last.index(), x.edge_between(ids[k - 2], ids[k - 1]).unwrap(), SIG_RET, "insert_path last edge");
        }
        3 => {
            let k = h.few::<T>(src, 3, 7, 70);
            if room!() < 2 * k {
                na!();
            }
            let vps: Vec<VMark> = (0..k).map(|_| h.vp(src)).collect();
            what = format!("insert_loop({} vertices)", k);
            c.log(|| what.clone());
            let first = m.insert_loop(vps.clone()).index();
            let after = snap(m);
            let ids = path_model(&mut x, &after, &vps)?;
            let a = after.edge_id_between(ids[0], ids[k - 1])?;
            let b = after.edge_id_between(ids[k - 1], ids[0])?;
            x.add_e(a, b, ids[0], ids[k - 1], EMark(0), EMark(0))?;
            // v1->v0 -> (v0->vk) -> ... and ...->vk -> (vk->v0) -> v0->v1
            for i in 0..k {
                let (p, q, r) = (ids[i], ids[(i + 1) % k], ids[(i + 2) % k]);
                let pq = x.edge_between(p, q).unwrap();
                let qr = x.edge_between(q, r).unwrap();
                x.link(pq, qr);
                let (rq, qp) = (x.twin(qr), x.twin(pq));
                x.link(rq, qp);
            }
            ensure_eq!(first, x.edge_between(ids[1], ids[0]).unwrap(), SIG_RET, "insert_loop returned edge");
        }
        4 => {
            let holes: Vec<Vec<usize>> = s.holes().into_iter().filter(|w| w.len() >= 3).collect();
            if holes.is_empty() || s.f.len() + 2 > T::CAP {
                na!();
            }
            let w = src.pick(&holes).clone();
            let he = *src.pick(&w);
            let (fp, curved, default) = (FMark(h.mark()), src.bool(), src.chance(1, 4));
            what = format!("close_hole{}(edge {}, {:?}, {})", if default { "_default" } else { "" }, he, fp, curved);
            c.log(|| what.clone());
            let id = if default { m.close_hole_default(e::<T>(he)) } else { m.close_hole(e::<T>(he), fp, curved) };
            let (fp, curved) = if default { (FMark(0), false) } else { (fp, curved) };
            x.add_face(id.index(), he, curved, fp)?;
        }
        5 => {
            if s.f.is_empty() {
                na!();
            }
            let ks: Vec<usize> = s.f.keys().copied().collect();
            let i = *src.pick(&ks);
            what = format!("remove_face({})", i);
            c.log(|| what.clone());
            let fp = m.remove_face(f::<T>(i));
            ensure_eq!(fp, s.f[&i].fp, SIG_RET, "payload returned by remove_face({})", i);
            for y in s.face_walk(i) {
                x.e.get_mut(&y).unwrap().face = None;
            }
            x.f.remove(&i);
        }
        6 => {
            let es: Vec<usize> = s.e.keys().copied().filter(|e| s.face(*e).is_none()).collect();
            if es.is_empty() || room!() < 2 {
                na!();
            }
            let i = *src.pick(&es);
            // now and then a hub: many vertices at the same corner
            let reps = if src.chance(1, 30) { src.usize(2, if T::CAP < 1000 { 20 } else { 70 }) } else { 1 };
            if reps > 1 && T::CAP >= 1000 {
                h.max_edges += 2 * reps + 40;
            }
            if room!() < 2 * reps {
                na!();
            }
            what = format!("{} x add_vertex_via_edge", reps);
            for _ in 0..reps {
            let o = x.next(i);
            let vp = h.vp(src);
            let (e1, e2) = (EMark(h.mark()), EMark(h.mark()));
            let default = src.chance(1, 3);
            let what = format!("add_vertex_via_edge{}({}, {}, {:?}, {:?}, {:?})", if default { "_default" } else { "" }, i, o, vp, e1, e2);
            c.log(|| what.clone());
            let (n, a, b) = if default {
                m.add_vertex_via_edge_default(e::<T>(i), e::<T>(o), vp)
            } else {
                m.add_vertex_via_edge(e::<T>(i), e::<T>(o), vp, e1.clone(), e2.clone())
            };
            let (e1, e2) = if default { (EMark(0), EMark(0)) } else { (e1, e2) };
            x.add_v(n.index(), vp)?;
            x.add_e(a.index(), b.index(), x.tgt(i), n.index(), e1, e2)?;
            x.add_spur(i, o, a.index(), b.index());
            }
        }
        7 => {
            let vs: Vec<usize> = s.v.keys().copied().filter(|v| s.boundary_outs(*v).len() == 1).collect();
            if vs.is_empty() || room!() < 2 {
                na!();
            }
            let w = *src.pick(&vs);
            let o = s.boundary_outs(w)[0];
            let i = s.prev(o);
            let vp = h.vp(src);
            let (e1, e2) = (EMark(h.mark()), EMark(h.mark()));
            let default = src.chance(1, 3);
            what = format!("add_vertex_via_vertex{}({}, {:?}, {:?}, {:?})", if default { "_default" } else { "" }, w, vp, e1, e2);
            c.log(|| what.clone());
            let (n, a, b) = if default {
                m.add_vertex_via_vertex_default(v::<T>(w), vp)
            } else {
                m.add_vertex_via_vertex(v::<T>(w), vp, e1.clone(), e2.clone())
            };
            let (e1, e2) = if default { (EMark(0), EMark(0)) } else { (e1, e2) };
            x.add_v(n.index(), vp)?;
            x.add_e(a.index(), b.index(), w, n.index(), e1, e2)?;
            x.add_spur(i, o, a.index(), b.index());
        }
        8 | 9 => {
            // insert_edge / close_face
            if room!() < 2 {
                na!();
            }
            let mut cand = vec![];
            for w in s.holes() {
                if w.len() >= 4 {
                    cand.push(w);
                }
            }
            if cand.is_empty() {
                na!();
            }
            let w = src.pick(&cand).clone();
            let i = w[src.below(w.len() as u64) as usize];
            let os: Vec<usize> =
                w.iter().copied().filter(|o| s.tgt(*o) != s.tgt(i) && !s.adjacent(s.tgt(*o), s.tgt(i))).collect();
            if os.is_empty() {
                na!();
            }
            let o = *src.pick(&os);
            let (e1, e2) = (EMark(h.mark()), EMark(h.mark()));
            if op == 8 {
                what = format!("insert_edge({}, {:?}, {}, {:?})", i, e1, o, e2);
                c.log(|| what.clone());
                let (a, b) = if src.chance(1, 3) {
                    m.insert_edge_no_check(e::<T>(i), e1.clone(), e::<T>(o), e2.clone())
                } else {
                    m.insert_edge(e::<T>(i), e1.clone(), e::<T>(o), e2.clone())
                };
                x.add_e(a.index(), b.index(), s.tgt(i), s.tgt(o), e1, e2)?;
                x.connect(i, o, a.index(), b.index());
            } else {
                if s.f.len() + 2 > T::CAP {
                    na!();
                }
                let (fp, curved, default) = (FMark(h.mark()), src.bool(), src.chance(1, 3));
                what = format!("close_face{}({}, {:?}, {}, {:?}, {:?}, {})", if default { "_default" } else { "" }, i, e1, o, e2, fp, curved);
                c.log(|| what.clone());
                let (id, a, b) = if default {
                    m.close_face_default(e::<T>(i), e::<T>(o), curved)
                } else {
                    m.close_face(e::<T>(i), e1.clone(), e::<T>(o), e2.clone(), fp, curved)
                };
                let (e1, e2, fp) = if default { (EMark(0), EMark(0), FMark(0)) } else { (e1, e2, fp) };
                x.add_e(a.index(), b.index(), s.tgt(i), s.tgt(o), e1, e2)?;
                x.connect(i, o, a.index(), b.index());
                x.add_face(id.index(), i, curved, fp)?;
            }
        }
        10 => {
            if room!() < 2 || s.f.len() + 2 > T::CAP {
                na!();
            }
            let mut cand = vec![];
            for w in s.holes() {
                let vs: std::collections::BTreeSet<usize> = w.iter().map(|e| s.org(*e)).collect();
                let from = if w.len() > 24 { src.usize(0, w.len() - 4) } else { 0 };
                for &i in w.iter().skip(from).take(if w.len() > 24 { 4 } else { 24 }) {
                    for &t in &vs {
                        let fr = s.tgt(i);
                        if t == fr || s.adjacent(t, fr) {
                            continue;
                        }
                        // in-edges of t on a hole that can reach origin(i)
                        let ins: Vec<usize> = s
                            .outs(t)
                            .into_iter()
                            .map(|o| s.twin(o))
                            .filter(|o| s.face(*o).is_none() && s.walk(*o).iter().any(|y| s.org(*y) == s.org(i)))
                            .collect();
                        if ins.len() == 1 && w.contains(&ins[0]) {
                            cand.push((i, ins[0]));
                        }
                    }
                }
            }
            if cand.is_empty() {
                na!();
            }
            let (i, o) = *src.pick(&cand);
            let (e1, e2) = (EMark(h.mark()), EMark(h.mark()));
            let (fp, curved, default) = (FMark(h.mark()), src.bool(), src.chance(1, 3));
            let (p, fr, to) = (s.org(i), s.tgt(i), s.tgt(o));
            what = format!("close_face_vertices{}({}, {:?}, {}, {:?}, {}, {:?}, {})", if default { "_default" } else { "" }, p, e1, fr, e2, to, fp, curved);
            c.log(|| what.clone());
            let (id, a, b) = if default {
                m.close_face_vertices_default(v::<T>(p), v::<T>(fr), v::<T>(to), curved)
            } else {
                m.close_face_vertices(v::<T>(p), e1.clone(), v::<T>(fr), e2.clone(), v::<T>(to), fp, curved)
            };
            let (e1, e2, fp) = if default { (EMark(0), EMark(0), FMark(0)) } else { (e1, e2, fp) };
            x.add_e(a.index(), b.index(), fr, to, e1, e2)?;
            x.connect(i, o, a.index(), b.index());
            x.add_face(id.index(), i, curved, fp)?;
        }
        11 => {
            if room!() < 2 {
                na!();
            }
            let comp = s.components();
            let vs: Vec<usize> =
                s.v.keys().copied().filter(|v| s.outs(*v).is_empty() || s.boundary_outs(*v).len() == 1).collect();
            if vs.len() < 2 {
                na!();
            }
            let a = *src.pick(&vs);
            let bs: Vec<usize> = vs.iter().copied().filter(|b| comp[b] != comp[&a]).collect();
            if bs.is_empty() {
                na!();
            }
            let b = *src.pick(&bs);
            let (e1, e2) = (EMark(h.mark()), EMark(h.mark()));
            what = format!("insert_edge_between({}, {:?}, {}, {:?})", a, e1, b, e2);
            c.log(|| what.clone());
            let (i, j) = m.insert_edge_between(v::<T>(a), e1.clone(), v::<T>(b), e2.clone());
            let (i, j) = (i.index(), j.index());
            x.add_e(i, j, a, b, e1, e2)?;
            if let Some(o) = s.boundary_outs(a).first() {
                x.link(s.prev(*o), i);
                x.link(j, *o);
            }
            if let Some(o) = s.boundary_outs(b).first() {
                x.link(s.prev(*o), j);
                x.link(i, *o);
            }
        }
        12 => {
            // split an edge by k vertices
            let k = h.few::<T>(src, 0, 3, 40);
            if s.e.is_empty() || room!() < 2 * k {
                na!();
            }
            let es: Vec<usize> = s.e.keys().copied().collect();
            let i = *src.pick(&es);
            let items: Vec<(EMark, EMark, VMark)> =
                (0..k).map(|_| (EMark(h.mark()), EMark(h.mark()), h.vp(src))).collect();
            what = format!("insert_vertices_into_edge({} [{}->{}], {} vertices)", i, s.org(i), s.tgt(i), k);
            c.log(|| what.clone());
            let ret = m.insert_vertices_into_edge(e::<T>(i), items.clone().into_iter()).index();
            let after = snap(m);
            if let Err(d) = after.audit() {
                return fail(SIG_AUDIT, format!("after {}: {}", what, d));
            }
            split_model(&mut x, &after, s, i, &items)?;
            let (f1, f2) = (after.face(i), after.face(s.twin(i)));
            let _ = (f1, f2);
            ensure!(
                after.e.contains_key(&ret) && after.org(ret) == s.org(i),
                SIG_RET,
                "{} returned edge {} which does not start in the previous origin {}",
                what, ret, s.org(i)
            );
        }
        13 => {
            if s.e.is_empty() || room!() < 2 {
                na!();
            }
            let es: Vec<usize> = s.e.keys().copied().collect();
            let i = *src.pick(&es);
            let t = s.twin(i);
            let vp = h.vp(src);
            let (e1, e2) = (EMark(h.mark()), EMark(h.mark()));
            what = format!("subdivide_unsafe({}, {:?}, {:?}) + fixup({}, {:?})", i, vp, e1, t, e2);
            c.log(|| what.clone());
            // degree-one ends are outside of its (documented: triangle mesh subdivision) domain
            if s.next(i) == t || s.next(t) == i {
                na!();
            }
            let a = m.subdivide_unsafe(e::<T>(i), vp, e1.clone()).index();
            let b = m.subdivide_unsafe_try_fixup(e::<T>(t), e2.clone()).map(|x| x.index());
            let Some(b) = b else {
                return fail(SIG_RET, format!("{}: fixup returned None", what));
            };
            let after = snap(m);
            let n = after.by_mark(vp.id)?;
            x.add_v(n, vp)?;
            for y in [a, b] {
                ensure!(!s.e.contains_key(&y), "fresh-id", "new half-edge took the live id {}", y);
            }
            let (ni, nt) = (s.next(i), s.next(t));
            x.e.insert(a, He { twin: t, next: ni, prev: i, org: n, face: s.face(i), ep: e1 });
            x.e.insert(b, He { twin: i, next: nt, prev: t, org: n, face: s.face(t), ep: e2 });
            x.e.get_mut(&t).unwrap().twin = a;
            x.e.get_mut(&i).unwrap().twin = b;
            x.link(i, a);
            x.link(t, b);
            x.link(a, ni);
            x.link(b, nt);
        }
        _ => {
            // close a loop's inside straight away: a polygon
            let k = h.few::<T>(src, 3, 6, 70);
            if room!() < 2 * k {
                na!();
            }
            let vps: Vec<VMark> = (0..k).map(|_| h.vp(src)).collect();
            what = format!("insert_polygon({} vertices)", k);
            c.log(|| what.clone());
            let first = m.insert_polygon(vps.clone()).index();
            let after = snap(m);
            let ids = path_model(&mut x, &after, &vps)?;
            let a = after.edge_id_between(ids[0], ids[k - 1])?;
            let b = after.edge_id_between(ids[k - 1], ids[0])?;
            x.add_e(a, b, ids[0], ids[k - 1], EMark(0), EMark(0))?;
            for i in 0..k {
                let (p, q, r) = (ids[i], ids[(i + 1) % k], ids[(i + 2) % k]);
                let pq = x.edge_between(p, q).unwrap();
                let qr = x.edge_between(q, r).unwrap();
                x.link(pq, qr);
                let (rq, qp) = (x.twin(qr), x.twin(pq));
                x.link(rq, qp);
            }
            let back = x.edge_between(ids[1], ids[0]).unwrap();
            let nf: Vec<usize> = after.f.keys().copied().filter(|f| !s.f.contains_key(f)).collect();
            ensure!(nf.len() == 1, SIG_EFFECT, "{} created {} faces", what, nf.len());
            x.add_face(nf[0], back, false, FMark(0))?;
            ensure!(after.e.contains_key(&first), SIG_RET, "insert_polygon returned the dead edge {}", first);
            ensure!(after.face(first).is_none() && after.face(after.twin(first)) == Some(nf[0]),
                SIG_RET, "insert_polygon returned {} which is not on the outside boundary", first);
            ensure_eq!(first, x.twin(back), SIG_RET, "insert_polygon's first edge");
        }
    }
    let after = snap(m);
    let after = settle(h, m, &x, after, &what)?;
    h.applied += 1;
    h.kinds.insert(op);
    Ok(Some(after))
}

/// models an open path through new vertices carrying the given payloads; returns their ids
pub fn path_model<T: HT>(x: &mut Snap<T>, after: &Snap<T>, vps: &[VMark]) -> Result<Vec<usize>, Fail> {
    let mut ids = vec![];
    for vp in vps {
        let i = after.by_mark(vp.id)?;
        x.add_v(i, *vp)?;
        ids.push(i);
    }
    let mut prev: Option<(usize, usize)> = None;
    for w in ids.windows(2) {
        let a = after.edge_id_between(w[0], w[1])?;
        let b = after.edge_id_between(w[1], w[0])?;
        x.add_e(a, b, w[0], w[1], EMark(0), EMark(0))?;
        if let Some((pa, pb)) = prev {
            x.link(pa, a);
            x.link(b, pb);
        }
        x.link(a, b);
        if prev.is_none() {
            x.link(b, a);
        }
        prev = Some((a, b));
    }
    Ok(ids)
}

/// models the replacement of edge `i` (u -> w) by the chain u, n1 .. nk, w
pub fn split_model<T: HT>(x: &mut Snap<T>, after: &Snap<T>, s: &Snap<T>, i: usize, items: &[(EMark, EMark, VMark)]) -> Res {
    let k = items.len();
    if k == 0 {
        return Ok(());
    }
    let t = s.twin(i);
    let (u, w) = s.ends(i);
    let mut ids = vec![u];
    for it in items {
        let n = after.by_mark(it.2.id)?;
        x.add_v(n, it.2)?;
        ids.push(n);
    }
    ids.push(w);
    let (p, nx) = (s.prev(i), s.next(i));
    let (tp, tn) = (s.prev(t), s.next(t));
    // The chain's half-edges in the direction of i and of t. Which segment keeps the old ids and payloads is not
    // documented (the current implementation keeps them on the last one): accept either end, consistently.
    let mut fw = vec![];
    let mut bw = vec![];
    for q in ids.windows(2) {
        let (a, b) = (after.edge_id_between(q[0], q[1])?, after.edge_id_between(q[1], q[0])?);
        fw.push(a);
        bw.push(b);
    }
    let keep_last = fw[k] == i && bw[k] == t;
    let keep_first = fw[0] == i && bw[0] == t;
    ensure!(keep_last || keep_first, SIG_EFFECT, "splitting edge {}: its id is on neither end of the chain {:?} / {:?}", i, fw, bw);
    x.e.remove(&i);
    x.e.remove(&t);
    for j in 0..=k {
        let (a, b) = (fw[j], bw[j]);
        ensure!(a != b && !x.e.contains_key(&a) && !x.e.contains_key(&b), "fresh-id", "splitting reused a live id");
        let (pa, pb) = if a == i {
            (s.he(i).ep.clone(), s.he(t).ep.clone())
        } else {
            let it = &items[if keep_last { j } else { j - 1 }];
            (it.0.clone(), it.1.clone())
        };
        x.e.insert(a, He { twin: b, next: b, prev: b, org: ids[j], face: s.face(i), ep: pa });
        x.e.insert(b, He { twin: a, next: a, prev: a, org: ids[j + 1], face: s.face(t), ep: pb });
    }
    for j in 0..k {
        x.link(fw[j], fw[j + 1]);
        x.link(bw[j + 1], bw[j]);
    }
    // ends
    if p == t {
        x.link(bw[0], fw[0]);
    } else {
        x.link(p, fw[0]);
        x.link(bw[0], tn);
    }
    if nx == t {
        x.link(fw[k], bw[k]);
    } else {
        x.link(fw[k], nx);
        x.link(tp, bw[k]);
    }
    // the representative edge of a face may have been replaced; it is audited on the real mesh
    Ok(())
}

/// A random history starting from `m`. `weights[op]`.
pub fn run<T: HT>(src: &mut Src, c: &mut Ctx, h: &mut Hist, m: &mut Mesh<T>, steps: usize, weights: &[u64; OPS]) -> Result<Snap<T>, Fail> {
    let mut s = snap(m);
    let total: u64 = weights.iter().sum();
    for _ in 0..steps {
        let mut r = src.below(total);
        let mut op = 0;
        while r >= weights[op] {
            r -= weights[op];
            op += 1;
        }
        // if the operation does not apply, the next allowed one is tried
        for _ in 0..OPS {
            if weights[op] > 0 {
                if let Some(n) = step(src, c, h, m, &s, op)? {
                    s = n;
                    break;
                }
            }
            op = (op + 1) % OPS;
        }
    }
    Ok(s)
}
pub const W_ALL: [u64; OPS] = [1, 1, 1, 2, 3, 2, 3, 2, 2, 3, 3, 2, 3, 2, 2];
