//! Isomorphism of meshes (P21).
use crate::cm::*;
use crate::hist::*;
use crate::model::*;
use crate::mt::*;
use crate::p04::any_mesh;
use crate::p16::{bend, curved_mesh};
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

/// Renumbers a mesh by permuting its ids; everything else stays.
pub fn renumber<T: HT>(m: &Mesh<T>, s: &Snap<T>, pv: &BTreeMap<usize, usize>, pe: &BTreeMap<usize, usize>, pf: &BTreeMap<usize, usize>) -> Mesh<T> {
    let mut n = m.clone();
    let (te, tv, tf) = (|i: usize| T::E::new(pe[&i]), |i: usize| T::V::new(pv[&i]), |i: usize| T::F::new(pf[&i]));
    for (i, v) in &s.v {
        *n.vertex_mut(tv(*i)).payload_mut() = v.vp;
        n.vertex_mut(tv(*i)).set_edge(v.edge.map_or(<T::E as IndexType>::max(), te));
    }
    for (i, f) in &s.f {
        *n.face_mut(tf(*i)).payload_mut() = f.fp;
        n.face_mut(tf(*i)).set_edge(te(f.edge));
    }
    for (i, h) in &s.e {
        let e = n.edge_mut(te(*i));
        e.set_next(te(h.next));
        e.set_prev(te(h.prev));
        e.set_twin(te(h.twin));
        e.set_origin(tv(h.org));
        if !e.is_boundary_self() {
            e.delete_face();
        }
        if let Some(f) = h.face {
            e.set_face(tf(f));
        }
        *e.payload_mut() = h.ep.clone();
    }
    n
}
pub fn shuffle<X>(src: &mut Src, m: &BTreeMap<usize, X>, yes: bool) -> BTreeMap<usize, usize> {
    let k: Vec<usize> = m.keys().copied().collect();
    if !yes {
        return k.iter().map(|i| (*i, *i)).collect();
    }
    let p = src.perm(k.len());
    k.iter().zip(p).map(|(i, j)| (*i, k[j])).collect()
}
/// Distinct positions on a grid with unit distance.
fn place<T: HT>(m: &mut Mesh<T>, h: &[usize]) {
    for v in m.vertices_mut() {
        let i = h.get(v.id().index()).copied().unwrap_or(v.id().index());
        v.payload_mut().pos = V3::new((i % 7) as f64, (i / 7 % 7) as f64, (i / 49) as f64);
    }
}
fn simple<T: HT>(s: &Snap<T>) -> bool {
    let mut d = BTreeSet::new();
    s.e.keys().all(|e| d.insert(s.ends(*e)) && s.org(*e) != s.tgt(*e))
}
fn faces<T: HT>(s: &Snap<T>, f: &dyn Fn(usize) -> usize) -> Vec<(Vec<usize>, usize)> {
    let mut r: Vec<(Vec<usize>, usize)> = s.f.keys().map(|k| (canon(&s.face_walk(*k).iter().map(|e| f(s.org(*e))).collect::<Vec<_>>()), *k)).collect();
    r.sort();
    r
}
fn wheel<T: HT>(s: &Snap<T>, v: usize) -> Vec<usize> {
    let Some(e) = s.v[&v].edge else { return vec![] };
    let mut r = vec![];
    let mut x = e;
    loop {
        r.push(x);
        x = s.twin(s.prev(x));
        if x == e || r.len() > s.e.len() {
            return canon(&r);
        }
    }
}
/// Does this map of the vertices carry `a` onto `b`, under the given comparisons?
fn carries<T: HT, U: HT>(a: &Snap<T>, b: &Snap<U>, map: &BTreeMap<usize, usize>, marks: bool) -> Result<(), String> {
    if (a.v.len(), a.e.len(), a.f.len()) != (b.v.len(), b.e.len(), b.f.len()) {
        return Err("counts".into());
    }
    for (i, v) in &a.v {
        if marks && v.vp.id != b.v[&map[i]].vp.id {
            return Err(format!("vertex {}", i));
        }
    }
    let ends: BTreeMap<(usize, usize), usize> = b.e.keys().map(|e| (b.ends(*e), *e)).collect();
    for (i, h) in &a.e {
        let (p, q) = a.ends(*i);
        match ends.get(&(map[&p], map[&q])) {
            None => return Err(format!("edge {}", i)),
            Some(j) => {
                if marks && b.e[j].ep != h.ep {
                    return Err(format!("payload of edge {}", i));
                }
            }
        }
    }
    let fa = faces(a, &|v| map[&v]);
    let fb = faces(b, &|v| v);
    for (x, y) in fa.iter().zip(&fb) {
        if x.0 != y.0 {
            return Err(format!("face {}", x.1));
        }
        if marks && a.f[&x.1].fp != b.f[&y.1].fp {
            return Err(format!("payload of face {}", x.1));
        }
    }
    Ok(())
}
fn trivial<T: HT>(a: &Snap<T>, b: &Snap<T>, marks: bool) -> Result<(), String> {
    if !a.v.keys().eq(b.v.keys()) || !a.e.keys().eq(b.e.keys()) || !a.f.keys().eq(b.f.keys()) {
        return Err("ids".into());
    }
    for (i, v) in &a.v {
        if marks && v.vp.id != b.v[i].vp.id {
            return Err(format!("vertex {}", i));
        }
        if wheel(a, *i) != wheel(b, *i) {
            return Err(format!("edges around vertex {}", i));
        }
    }
    for (i, h) in &a.e {
        if a.ends(*i) != b.ends(*i) || marks && h.ep != b.e[i].ep {
            return Err(format!("edge {}", i));
        }
    }
    for (i, f) in &a.f {
        if canon(&a.face_walk(*i)) != canon(&b.face_walk(*i)) || marks && f.fp != b.f[i].fp {
            return Err(format!("face {}", i));
        }
    }
    Ok(())
}

/// Small changes which keep the mesh consistent.
fn mutate<T: HT>(src: &mut Src, c: &mut Ctx, h: &mut Hist, m: &mut Mesh<T>, eps: f64) -> Res {
    let s = snap(m);
    let (vs, es, fs): (Vec<usize>, Vec<usize>, Vec<usize>) = (s.v.keys().copied().collect(), s.e.keys().copied().collect(), s.f.keys().copied().collect());
    let k = src.below(11);
    match k {
        9 if s.v.len() + 2 < T::CAP => {
            let mut p = h.vp(src);
            p.pos = V3::new(50.0 + src.below(30) as f64, 0.0, 0.0);
            c.log(|| "add a vertex without edges".into());
            m.add_vertex(p);
        }
        10 => {
            // an edge through a hole; there may be one already
            let hs: Vec<Vec<usize>> = s.holes().into_iter().filter(|h| h.len() >= 4).collect();
            if hs.is_empty() || s.e.len() + 2 >= T::CAP {
                return Ok(());
            }
            let w = src.pick(&hs);
            let (i, j) = (src.usize(0, w.len() - 1), src.usize(0, w.len() - 1));
            let (x, y) = (s.org(w[i]), s.org(w[j]));
            if x == y || s.adjacent(x, y) || s.adjacent(y, x) {
                return Ok(());
            }
            c.log(|| format!("an edge from vertex {} to vertex {} through the hole of {:?}", x, y, w));
            m.insert_edge(T::E::new(s.prev(w[i])), EMark(h.mark()), T::E::new(s.prev(w[j])), EMark(h.mark()));
        }
        0 | 1 if !vs.is_empty() => {
            let v = *src.pick(&vs);
            let f = *src.pick(&[0.3, 0.9, 1.1, 3.0, 30.0]);
            let i = src.usize(0, 2);
            c.log(|| format!("move vertex {} by {} along {}", v, f * eps, i));
            m.vertex_mut(T::V::new(v)).payload_mut().pos[i] += f * eps;
        }
        2 if vs.len() > 1 => {
            let (v, w) = (*src.pick(&vs), *src.pick(&vs));
            c.log(|| format!("swap the payloads of vertices {} and {}", v, w));
            *m.vertex_mut(T::V::new(v)).payload_mut() = s.v[&w].vp;
            *m.vertex_mut(T::V::new(w)).payload_mut() = s.v[&v].vp;
        }
        3 => {
            // change a payload
            let w = src.below(3);
            if w == 0 && !vs.is_empty() {
                m.vertex_mut(T::V::new(*src.pick(&vs))).payload_mut().id = 60000;
            } else if w == 1 && !es.is_empty() {
                *m.edge_mut(T::E::new(*src.pick(&es))).payload_mut() = EMark(60000);
            } else if !fs.is_empty() {
                *m.face_mut(T::F::new(*src.pick(&fs))).payload_mut() = FMark(60000);
            }
            c.log(|| "change a mark".into());
        }
        4 | 5 => {
            // put a dangling edge into another sector
            let spikes: Vec<usize> = es.iter().copied().filter(|e| s.next(*e) == s.twin(*e) && s.next(s.twin(*e)) != *e).collect();
            if spikes.is_empty() {
                return Ok(());
            }
            let e = *src.pick(&spikes);
            let t = s.twin(e);
            let (p, n) = (s.prev(e), s.next(t));
            let ins: Vec<usize> = es.iter().copied().filter(|q| s.tgt(*q) == s.org(e) && *q != t).collect();
            let q = *src.pick(&ins);
            if q == p {
                return Ok(());
            }
            let r = s.next(q);
            c.log(|| format!("move the dangling edge {} from behind edge {} to behind edge {}", e, p, q));
            let te = |i: usize| T::E::new(i);
            m.edge_mut(te(p)).set_next(te(n));
            m.edge_mut(te(n)).set_prev(te(p));
            m.edge_mut(te(q)).set_next(te(e));
            m.edge_mut(te(e)).set_prev(te(q));
            m.edge_mut(te(t)).set_next(te(r));
            m.edge_mut(te(r)).set_prev(te(t));
            if let Some(f) = s.face(e) {
                m.edge_mut(te(e)).delete_face();
                m.edge_mut(te(t)).delete_face();
                m.face_mut(T::F::new(f)).set_edge(te(p));
            }
            if let Some(f) = s.face(q) {
                m.edge_mut(te(e)).set_face(T::F::new(f));
                m.edge_mut(te(t)).set_face(T::F::new(f));
            }
        }
        6 => {
            // reorder the sectors of a vertex
            let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for e in es.iter().filter(|e| s.face(**e).is_none()) {
                by.entry(s.tgt(*e)).or_default().push(*e);
            }
            let l: Vec<Vec<usize>> = by.into_values().filter(|l| l.len() >= 3).collect();
            if l.is_empty() {
                return Ok(());
            }
            let l = src.pick(&l).clone();
            let p = src.perm(l.len());
            let mut n = m.clone();
            for (i, q) in l.iter().enumerate() {
                let r = s.next(l[p[i]]);
                n.edge_mut(T::E::new(*q)).set_next(T::E::new(r));
                n.edge_mut(T::E::new(r)).set_prev(T::E::new(*q));
            }
            if snap(&n).audit().is_ok() {
                c.log(|| format!("reorder the sectors behind the edges {:?} as {:?}", l, p));
                *m = n;
            }
        }
        7 if !fs.is_empty() => {
            let f = *src.pick(&fs);
            c.log(|| format!("remove face {}", f));
            m.remove_face(T::F::new(f));
        }
        8 => {
            let hs = s.holes();
            let hs: Vec<&Vec<usize>> = hs.iter().filter(|h| h.len() >= 3).collect();
            if hs.is_empty() {
                return Ok(());
            }
            let e = src.pick(&hs)[0];
            let mk = FMark(h.mark());
            c.log(|| format!("close the hole at edge {}", e));
            m.close_hole(T::E::new(e), mk, false);
        }
        _ => {}
    }
    Ok(())
}

struct Pair<T: HT, U: HT> {
    a: Mesh<T>,
    b: Mesh<U>,
    sa: Snap<T>,
    sb: Snap<U>,
    eps: f64,
    ids_kept: bool,
}
/// Two meshes with a common origin. They are built from the same choices, so also types may differ.
fn pair<T: HT, U: HT>(src: &mut Src, c: &mut Ctx) -> Result<Option<Pair<T, U>>, Fail> {
    let start = src.rec.len();
    let mut ha = Hist::new(60);
    let (mut a, _) = any_mesh::<T>(src, c, &mut ha)?;
    let mut again = Src::replay(src.rec[start..].to_vec(), src.size);
    let mut hb = Hist::new(60);
    let (mut b, _) = any_mesh::<U>(&mut again, &mut Ctx::default(), &mut hb)?;
    ha.check = false;
    hb.check = false;
    let eps = *src.pick(&[1e-6, 0.01, 0.2]);
    let order = src.perm(a.max_vertex_index().max(b.max_vertex_index()) + 40);
    // a common step with different choices
    if src.chance(1, 3) {
        let w = [1, 1, 1, 1, 2, 2, 3, 2, 2, 3, 3, 2, 3, 2, 2];
        let k = src.usize(1, 2);
        ha.max_edges += 12;
        hb.max_edges += 12;
        run(src, c, &mut ha, &mut a, k, &w)?;
        c.log(|| "the other mesh:".into());
        run(src, c, &mut hb, &mut b, k, &w)?;
    }
    place(&mut a, &order);
    place(&mut b, &order);
    for _ in 0..src.usize(0, 2) {
        mutate(src, c, &mut hb, &mut b, eps)?;
    }
    let mut ids_kept = true;
    if src.chance(1, 2) {
        let sb = snap(&b);
        let (v, e, f) = (src.bool(), src.bool(), src.bool());
        let (pv, pe, pf) = (shuffle(src, &sb.v, v), shuffle(src, &sb.e, e), shuffle(src, &sb.f, f));
        c.log(|| format!("renumber vertices {:?} edges {:?} faces {:?}", v, e, f));
        ids_kept = !(v || e || f);
        b = renumber(&b, &sb, &pv, &pe, &pf);
    }
    let (sa, sb) = (snap(&a), snap(&b));
    for r in [sa.audit(), sb.audit()] {
        if let Err(d) = r {
            return fail("setup", d);
        }
    }
    if !simple(&sa) || !simple(&sb) {
        return Ok(None);
    }
    Ok(Some(Pair { a, b, sa, sb, eps, ids_kept }))
}
fn near(a: &V3, b: &V3, eps: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() < eps)
}
/// The map of vertices by position, if there is one.
fn by_pos<T: HT, U: HT>(p: &Pair<T, U>) -> Option<BTreeMap<usize, usize>> {
    let mut r = BTreeMap::new();
    for (i, v) in &p.sa.v {
        r.insert(*i, *p.sb.v.iter().find(|(_, w)| near(&v.vp.pos, &w.vp.pos, p.eps))?.0);
    }
    Some(r)
}

fn cross<T: HT, U: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let Some(p) = pair::<T, U>(src, c)? else { return c.discard() };
    let map = by_pos(&p);
    let want = map.as_ref().map_or(Err("no corresponding vertex".to_string()), |m| carries(&p.sa, &p.sb, m, false));
    // a single vertex may come within the tolerance of two others only if it was moved far; then the answer is undefined
    let double = |x: &BTreeMap<usize, Vx<VMark>>, y: &BTreeMap<usize, Vx<VMark>>| x.values().any(|v| y.values().filter(|w| near(&v.vp.pos, &w.vp.pos, 2.0 * p.eps)).count() > 1);
    if double(&p.sa.v, &p.sb.v) || double(&p.sb.v, &p.sa.v) {
        return c.discard();
    }
    let got = p.a.is_isomorphic_by_pos::<f64, 3, V3, U>(&p.b, p.eps);
    ensure!(got.eq() != got.ne(), "ne", "eq and ne agree for {:?}", got);
    ensure!(got.eq() == want.is_ok(), if got.eq() { "accepted" } else { "rejected" }, "is_isomorphic_by_pos returns {:?}, expected {:?}", got, want);
    c.label(if want.is_ok() { "isomorphic by position" } else { "different by position" });
    if p.sa.e.len() > 6 && (p.sa.v.len(), p.sa.e.len(), p.sa.f.len()) == (p.sb.v.len(), p.sb.e.len(), p.sb.f.len()) {
        c.nontrivial();
    }
    // the map itself
    let near_ = |x: &T::Vertex, y: &U::Vertex| x.pos().is_about(&y.pos(), p.eps);
    let iso = p.a.find_payload_isomorphism::<U, _>(&p.b, near_);
    match (&iso, &map) {
        (Ok(i), Some(m)) => {
            let g: BTreeMap<usize, usize> = i.iter().map(|(a, b)| (a.index(), b.index())).collect();
            ensure_eq!(&g, m, "map", "the isomorphism found by position");
            ensure!(m.iter().all(|(a, b)| i.has(T::V::new(*a)) && i.get(T::V::new(*a)) == Some(&U::V::new(*b))), "map", "has/get of the isomorphism disagree with iter");
        }
        (Err(_), None) => {}
        _ => return fail("map", format!("find_payload_isomorphism returns {:?}, expected {:?}", iso, map)),
    }
    // two vertices at one place: no map is found
    if p.sa.v.len() > 1 && p.sa.v.len() <= p.sb.v.len() && src.chance(1, 4) {
        let k: Vec<usize> = p.sa.v.keys().copied().collect();
        let q = src.perm(k.len());
        let mut a = p.a.clone();
        a.vertex_mut(T::V::new(k[q[0]])).payload_mut().pos = p.sa.v[&k[q[1]]].vp.pos;
        let i = a.find_payload_isomorphism::<U, _>(&p.b, near_);
        ensure!(i.is_err(), "unique", "vertices {} and {} are at the same place, but find_payload_isomorphism returns {:?}", k[q[0]], k[q[1]], i);
        ensure!(a.is_isomorphic_by_pos::<f64, 3, V3, U>(&p.b, p.eps).ne(), "unique", "vertices {} and {} are at the same place, but is_isomorphic_by_pos accepts", k[q[0]], k[q[1]]);
        c.label("two vertices at one place");
    }
    // payloads, under this map and under a random one
    if p.sa.v.len() == p.sb.v.len() {
        let random = map.is_none() || src.chance(1, 4);
        let m = if random {
            let k: Vec<usize> = p.sb.v.keys().copied().collect();
            let q = src.perm(k.len());
            p.sa.v.keys().zip(q).map(|(i, j)| (*i, k[j])).collect()
        } else {
            map.unwrap()
        };
        let mut i = IndexIsomorphism::<T::V, U::V>::new();
        for (a, b) in &m {
            i.insert(T::V::new(*a), U::V::new(*b));
        }
        for marks in [false, true] {
            let want = carries(&p.sa, &p.sb, &m, marks);
            let got = p.a.is_isomorphic::<U, _, _, _>(&p.b, &i, |a, b| !marks || a.payload().id == b.payload().id, |a, b| !marks || a.payload() == b.payload(), |a, b| !marks || a.payload() == b.payload());
            ensure!(got.eq() == want.is_ok(), if got.eq() { "accepted" } else { "rejected" }, "is_isomorphic {} payloads under {:?} returns {:?}, expected {:?}", if marks { "with" } else { "without" }, m, got, want);
            if random && want.is_ok() && m.iter().any(|(a, b)| a != b) {
                c.label("random automorphism");
            }
        }
        // by marks, where they are unique
        let marks = |s: &BTreeMap<usize, Vx<VMark>>| s.values().map(|v| v.vp.id).collect::<BTreeSet<_>>();
        if marks(&p.sa.v).len() == p.sa.v.len() && marks(&p.sb.v).len() == p.sb.v.len() {
            let f = |x: &T::Vertex, y: &U::Vertex| x.payload().id == y.payload().id;
            let m: Option<BTreeMap<usize, usize>> = p.sa.v.iter().map(|(i, v)| p.sb.v.iter().find(|(_, w)| w.vp.id == v.vp.id).map(|(j, _)| (*i, *j))).collect();
            let want = m.as_ref().map_or(Err("no corresponding vertex".into()), |m| carries(&p.sa, &p.sb, m, false));
            let got = p.a.is_isomorphic_by::<U, _>(&p.b, f);
            ensure!(got.eq() == want.is_ok(), if got.eq() { "accepted" } else { "rejected" }, "is_isomorphic_by marks returns {:?}, expected {:?}", got, want);
        }
    }
    Ok(())
}

fn same_type<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let Some(p) = pair::<T, T>(src, c)? else { return c.discard() };
    let want = trivial(&p.sa, &p.sb, false);
    let got = p.a.is_trivially_isomorphic(&p.b);
    ensure!(got.eq() == want.is_ok(), if got.eq() { "accepted" } else { "rejected" }, "is_trivially_isomorphic returns {:?}, expected {:?}", got, want);
    c.label(if want.is_ok() { "trivially isomorphic" } else { "not trivially isomorphic" });
    let all = trivial(&p.sa, &p.sb, true);
    let got = p.a.is_trivially_isomorphic_ex(&p.b, |a, b| a.payload().id == b.payload().id, |a, b| a.payload() == b.payload(), |a, b| a.payload() == b.payload());
    ensure!(got.eq() == all.is_ok(), if got.eq() { "accepted" } else { "rejected" }, "is_trivially_isomorphic_ex with payloads returns {:?}, expected {:?}", got, all);
    let moved = |p: &Pair<T, T>| p.sa.v.iter().find(|(i, v)| p.sb.v.get(i).is_some_and(|w| !near(&v.vp.pos, &w.vp.pos, p.eps))).map(|(i, _)| *i);
    let pos = want.clone().and_then(|_| moved(&p).map_or(Ok(()), |i| Err(format!("vertex {} is moved", i))));
    let got = p.a.is_trivially_isomorphic_pos::<3, f64, V3>(&p.b, p.eps);
    ensure!(got.eq() == pos.is_ok(), if got.eq() { "accepted" } else { "rejected" }, "is_trivially_isomorphic_pos returns {:?}, expected {:?}", got, pos);
    let got2 = p.b.is_trivially_isomorphic_pos::<3, f64, V3>(&p.a, p.eps);
    ensure!(got2.eq() == got.eq(), "symmetric", "is_trivially_isomorphic_pos returns {:?}, but {:?} with swapped meshes", got, got2);
    // positions only
    let double = |x: &BTreeMap<usize, Vx<VMark>>, y: &BTreeMap<usize, Vx<VMark>>| x.values().any(|v| y.values().filter(|w| near(&v.vp.pos, &w.vp.pos, 2.0 * p.eps)).count() > 1);
    if !double(&p.sa.v, &p.sb.v) && !double(&p.sb.v, &p.sa.v) {
        let w = by_pos(&p).map_or(Err("no corresponding vertex".to_string()), |m| carries(&p.sa, &p.sb, &m, false));
        let got = p.a.is_isomorphic_pos::<3, f64, V3>(&p.b, p.eps);
        ensure!(got.eq() == w.is_ok(), if got.eq() { "accepted" } else { "rejected" }, "is_isomorphic_pos returns {:?}, expected {:?}", got, w);
    }
    if p.sa.e.len() > 6 && (p.sa.v.len(), p.sa.e.len(), p.sa.f.len()) == (p.sb.v.len(), p.sb.e.len(), p.sb.f.len()) {
        c.nontrivial();
        if p.ids_kept && want.is_err() {
            c.label("same counts and ids, other links");
        }
    }
    Ok(())
}

fn curved<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let s = 8.0;
    let mut a = curved_mesh::<T, D>(src, c, s)?;
    bend::<T, D>(src, c, &mut a, s);
    let mut b = a.clone();
    let eps = *src.pick(&[1e-3, 0.1, 1.0]);
    let mut same = true;
    let es: Vec<T::E> = a.edge_ids().collect();
    for _ in 0..src.usize(0, 2) {
        let e = *src.pick(&es);
        let k = b.edge(e).curve_type();
        let f = *src.pick(&[0.5, 0.9, 1.1, 5.0]);
        let i = src.usize(0, D - 1);
        let mut d = [0.0; 3];
        d[i] = f * eps;
        let go = |p: T::Vec| -> T::Vec { p + ve::<T::S, D, T::Vec>(d) };
        let kind = src.below(3);
        let other = match k {
            _ if kind == 2 => CurvedEdgeType::Linear,
            CurvedEdgeType::Linear => CurvedEdgeType::QuadraticBezier(ve::<T::S, D, T::Vec>(d)),
            CurvedEdgeType::QuadraticBezier(p) if kind == 1 => CurvedEdgeType::CubicBezier(p, p),
            CurvedEdgeType::QuadraticBezier(p) => CurvedEdgeType::QuadraticBezier(go(p)),
            CurvedEdgeType::CubicBezier(p, q) if kind == 1 => CurvedEdgeType::CubicBezier(p, go(q)),
            CurvedEdgeType::CubicBezier(p, q) => CurvedEdgeType::CubicBezier(go(p), q),
        };
        b.edge_mut(e).set_curve_type(other);
        c.log(|| format!("edge {} becomes {:?}", e, other));
    }
    for e in &es {
        let cps = |k: CurvedEdgeType<D, T>| match k {
            CurvedEdgeType::Linear => vec![],
            CurvedEdgeType::QuadraticBezier(p) => vec![co::<T::S, D, T::Vec>(&p)],
            CurvedEdgeType::CubicBezier(p, q) => vec![co::<T::S, D, T::Vec>(&p), co::<T::S, D, T::Vec>(&q)],
        };
        let (x, y) = (cps(a.edge(*e).curve_type()), cps(b.edge(*e).curve_type()));
        same &= x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| (0..3).all(|i| (p[i] - q[i]).abs() < eps));
    }
    let got = a.is_trivially_isomorphic_pos_curved::<D>(&b, crate::poly::sc::<T::S>(eps));
    ensure!(got.eq() == same, if got.eq() { "accepted" } else { "rejected" }, "is_trivially_isomorphic_pos_curved returns {:?}, expected {}", got, same);
    let got = a.is_trivially_isomorphic_pos::<D, T::S, T::Vec>(&b, crate::poly::sc::<T::S>(eps));
    ensure!(got.eq(), "rejected", "is_trivially_isomorphic_pos looks at the curves: {:?}", got);
    c.label(if same { "same curves" } else { "other curves" });
    if snap(&a).e.values().any(|h| !h.ep.is_empty()) {
        c.nontrivial();
    }
    Ok(())
}

pub fn prop21() -> Property {
    Property {
        id: "P21",
        rule: "pairs of meshes with a common origin: renumbered, mutated (positions, payloads, faces, dangling edges, order of sectors) and grown differently; non-trivial: more than six half-edges and equal counts; curved: at least one curved edge",
        assumptions: &["vertices are unique with respect to the comparison and the meshes have no multi-edges, as the documentation requires"],
        targets: vec![
            target("trivial_u32", 40000, 1200000, same_type::<M32>),
            target("trivial_u8", 20000, 600000, same_type::<M8>),
            target("trivial_usize", 20000, 600000, same_type::<M64>),
            target("general_u32_u16", 40000, 1200000, cross::<M32, M16>),
            target("general_u16_usize", 20000, 600000, cross::<M16, M64>),
            target("general_u32", 40000, 1200000, cross::<M32, M32>),
            target("curved_2d", 60000, 1800000, curved::<C2, 2>),
            target("curved_3d", 60000, 1800000, curved::<C3, 3>),
        ],
        known: vec![],
    }
}
