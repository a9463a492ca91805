//! Element storage.
use crate::hist::*;
use crate::model::*;
use crate::mt::*;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
struct Item<I: IndexType> {
    id: I,
    val: u32,
}
impl<I: IndexType> Deletable<I> for Item<I> {
    fn is_deleted(&self) -> bool {
        self.id == <I as IndexType>::max()
    }
    fn delete(&mut self) {
        self.id = <I as IndexType>::max();
    }
    fn set_id(&mut self, id: I) {
        assert!(id != <I as IndexType>::max(), "id out of range");
        self.id = id;
    }
    fn allocate() -> Self {
        Item { id: <I as IndexType>::max(), val: 0 }
    }
}
fn fresh<I: IndexType>(val: u32) -> Item<I> {
    Item { id: <I as IndexType>::max(), val }
}

fn storage<I: IndexType>(src: &mut Src, c: &mut Ctx) -> Res {
    let limit = if <I as IndexType>::max().index() < 300 { <I as IndexType>::max().index() } else { usize::MAX };
    let mut d: DeletableVector<Item<I>, I> = DeletableVector::new();
    let mut live: BTreeMap<usize, u32> = BTreeMap::new();
    let mut reserved: BTreeSet<usize> = BTreeSet::new();
    let mut peak = 0usize; // most elements that were ever there at once: that many slots suffice
    let mut gone: BTreeSet<usize> = BTreeSet::new();
    let mut val = 0;
    let burst = src.chance(1, 60); // long insertion runs reach the limit of narrow indices
    let n = if burst { src.usize(300, 900) } else { src.sized(1, 60) };
    let del = if burst { src.below(2) } else { src.below(6) };
    let (mut dels, mut reuse) = (0, 0);
    for _ in 0..n {
        val += 1;
        let full = live.len() + reserved.len() >= limit;
        let r = src.below(12);
        let r = if r < del { 11 } else if burst && r == 10 { 0 } else { r };
        match r {
            0..=4 => {
                if full && peak >= limit {
                    // no id left: must be refused, and nothing may change
                    c.label("full");
                    let before: Vec<Item<I>> = d.iter().cloned().collect();
                    let mut d2 = d.clone();
                    let r = catch(|| d2.push(fresh(val)));
                    ensure!(r.is_err(), "overflow", "push into a full storage returned id {:?}", r);
                    ensure!(d.iter().cloned().collect::<Vec<_>>() == before, "overflow", "a refused push changed the content");
                    continue;
                }
                let i = d.push(fresh(val)).index();
                c.log(|| format!("push(#{}) -> {}", val, i));
                ensure!(!live.contains_key(&i) && !reserved.contains(&i), "fresh-id", "push returned id {} which is in use", i);
                reuse += gone.remove(&i) as usize;
                live.insert(i, val);
            }
            5..=6 => {
                if full {
                    continue;
                }
                let i = d.allocate().index();
                c.log(|| format!("allocate() -> {}", i));
                ensure!(!live.contains_key(&i) && !reserved.contains(&i), "fresh-id", "allocate returned id {} which is in use", i);
                reuse += gone.remove(&i) as usize;
                reserved.insert(i);
                if src.chance(3, 4) {
                    c.log(|| format!("set({}, #{})", i, val));
                    d.set(I::new(i), fresh(val));
                    reserved.remove(&i);
                    live.insert(i, val);
                }
            }
            7 => {
                let Some(&i) = reserved.iter().next() else { continue };
                c.log(|| format!("set({}, #{})", i, val));
                d.set(I::new(i), fresh(val));
                reserved.remove(&i);
                live.insert(i, val);
            }
            8 => {
                if live.is_empty() {
                    continue;
                }
                let ks: Vec<usize> = live.keys().copied().collect();
                let i = *src.pick(&ks);
                c.log(|| format!("get_mut({}).val = #{}", i, val));
                d.get_mut(I::new(i)).val = val;
                live.insert(i, val);
            }
            9 => {
                // refusals
                let i = src.usize(0, peak.min(limit.saturating_sub(1)));
                if live.contains_key(&i) {
                    ensure!(catch(|| d.clone().set(I::new(i), fresh(1))).is_err(), "refuse", "set({}) overwrote a live element", i);
                    let own = d.get(I::new(i)).clone();
                    ensure!(catch(|| d.clone().push(own)).is_err(), "refuse", "push accepted an element that already has an id");
                } else {
                    ensure!(catch(|| d.get(I::new(i)).val).is_err(), "refuse", "get({}) returned a deleted element", i);
                    ensure!(catch(|| d.clone().get_mut(I::new(i)).val).is_err(), "refuse", "get_mut({}) returned a deleted element", i);
                }
            }
            10 => {
                if src.chance(1, 6) {
                    c.log(|| "clear()".into());
                    d.clear();
                    live.clear();
                    reserved.clear();
                    gone.clear();
                    peak = 0;
                    ensure!(d.len() == 0 && d.iter().next().is_none(), "clear", "clear left {} elements", d.len());
                } else if !live.is_empty() {
                    let add = src.usize(1, 5) as u32;
                    c.log(|| format!("iter_mut += {}", add));
                    let mut k = 0;
                    for x in d.iter_mut() {
                        x.val += 1000 * add;
                        k += 1;
                    }
                    ensure_eq!(k, live.len(), "iter", "iter_mut visited");
                    live.values_mut().for_each(|v| *v += 1000 * add);
                }
            }
            _ => {
                if live.is_empty() {
                    continue;
                }
                let ks: Vec<usize> = live.keys().copied().collect();
                let i = *src.pick(&ks);
                c.log(|| format!("delete({})", i));
                d.delete_internal(I::new(i));
                live.remove(&i);
                gone.insert(i);
                dels += 1;
            }
        }
        peak = peak.max(live.len() + reserved.len());
        let it: Vec<(usize, u32)> = d.iter().map(|x| (x.id.index(), x.val)).collect();
        let ex: Vec<(usize, u32)> = live.iter().map(|(k, v)| (*k, *v)).collect();
        ensure_eq!(it, ex, "iter", "iter() (id, payload)");
        ensure_eq!(d.len(), live.len() + reserved.len(), "len", "len()");
        let top = live.keys().next_back().map_or(0, |k| k + 1);
        ensure!(d.capacity() >= top, "capacity", "capacity() is {} but id {} is live", d.capacity(), top - 1);
        ensure!(d.capacity() <= peak, "capacity", "capacity() is {} although no more than {} elements ever existed at once (freed ids are not handed out again)", d.capacity(), peak);
        for i in 0..(peak + 2).min(limit) {
            ensure_eq!(d.has(I::new(i)), live.contains_key(&i), "has", "has({})", i);
            if let Some(v) = live.get(&i) {
                ensure_eq!(d.get(I::new(i)).val, *v, "get", "get({})", i);
            }
        }
    }
    if dels >= 1 && reuse >= 1 {
        c.nontrivial();
    }
    Ok(())
}

fn counts<T: HT>(m: &Mesh<T>, s: &Snap<T>) -> Res {
    ensure_eq!(m.num_vertices(), s.v.len(), "count", "num_vertices()");
    ensure_eq!(m.num_edges(), s.e.len(), "count", "num_edges() (half-edges)");
    ensure_eq!(m.num_faces(), s.f.len(), "count", "num_faces()");
    let ids: Vec<usize> = m.vertex_ids().map(|v| v.index()).collect();
    ensure_eq!(ids, s.v.keys().copied().collect::<Vec<_>>(), "ids", "vertex_ids()");
    let ids: Vec<usize> = m.edge_ids().map(|v| v.index()).collect();
    ensure_eq!(ids, s.e.keys().copied().collect::<Vec<_>>(), "ids", "edge_ids()");
    let ids: Vec<usize> = m.face_ids().map(|v| v.index()).collect();
    ensure_eq!(ids, s.f.keys().copied().collect::<Vec<_>>(), "ids", "face_ids()");
    let top = s.v.keys().next_back().map_or(0, |k| k + 1);
    ensure!(m.max_vertex_index() >= top, "count", "max_vertex_index() is {} but vertex {} exists", m.max_vertex_index(), top - 1);
    for i in 0..(top + 3).min(T::CAP) {
        ensure_eq!(m.has_vertex(T::V::new(i)), s.v.contains_key(&i), "has", "has_vertex({})", i);
    }
    ensure_eq!(m.has_consecutive_vertex_ids(), s.v.keys().copied().eq(0..s.v.len()), "ids", "has_consecutive_vertex_ids()");
    for (i, v) in &s.v {
        ensure_eq!(m.vertex(T::V::new(*i)).payload(), &v.vp, "payload", "vertex({})", i);
        ensure_eq!(m.vertex(T::V::new(*i)).id().index(), *i, "ids", "vertex({}).id()", i);
    }
    for (i, v) in &s.e {
        ensure_eq!(m.edge(T::E::new(*i)).payload(), &v.ep, "payload", "edge({})", i);
        ensure_eq!(m.edge(T::E::new(*i)).id().index(), *i, "ids", "edge({}).id()", i);
    }
    for (i, v) in &s.f {
        ensure_eq!(m.face(T::F::new(*i)).payload(), &v.fp, "payload", "face({})", i);
        ensure_eq!(m.face(T::F::new(*i)).id().index(), *i, "ids", "face({}).id()", i);
    }
    Ok(())
}

/// Faces come and go: ids stay unique and payloads stay put.
fn mesh<T: HT>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = Hist::new(if T::CAP < 1000 { T::CAP - 12 } else { 120 });
    let mut m = Mesh::<T>::new();
    let w: [u64; OPS] = [1, 1, 1, 2, 8, 8, 2, 2, 2, 3, 3, 2, 2, 2, 3];
    let mut s = snap(&m);
    counts(&m, &s)?;
    let n = src.sized(1, 20);
    let mut cleared = false;
    for _ in 0..n {
        let k = src.usize(1, 4);
        let before = s.clone();
        s = run(src, c, &mut h, &mut m, k, &w)?;
        counts(&m, &s)?;
        for f in before.f.keys() {
            if !s.f.contains_key(f) {
                ensure!(catch(|| m.face(T::F::new(*f)).id()).is_err(), "deleted", "face({}) is still returned after its removal", f);
            }
        }
        if src.chance(1, 4) && !s.v.is_empty() {
            // payloads through the mutable accessors
            let vs: Vec<usize> = s.v.keys().copied().collect();
            let v = *src.pick(&vs);
            let id = h.mark();
            c.log(|| format!("vertex_mut({}).payload_mut().id = {}", v, id));
            m.vertex_mut(T::V::new(v)).payload_mut().id = id;
            s.v.get_mut(&v).unwrap().vp.id = id;
            counts(&m, &s)?;
        }
        if src.chance(1, 25) {
            c.log(|| "clear()".into());
            m.clear();
            s = snap(&m);
            ensure!(s.v.is_empty() && s.e.is_empty() && s.f.is_empty(), "clear", "clear() left elements behind");
            counts(&m, &s)?;
            cleared = true;
        }
    }
    // mutable iteration touches exactly the live elements
    let (mut a, mut b, mut d) = (0, 0, 0);
    m.vertices_mut().for_each(|_| a += 1);
    m.edges_mut().for_each(|_| b += 1);
    m.faces_mut().for_each(|_| d += 1);
    ensure_eq!((a, b, d), (s.v.len(), s.e.len(), s.f.len()), "count", "mutable iteration");
    if cleared {
        c.label("cleared");
    }
    if h.kinds.contains(&5) && h.kinds.contains(&4) {
        c.nontrivial();
    }
    Ok(())
}

/// Exhausting a narrow index type is refused and never hands out a live id.
fn exhaust(src: &mut Src, c: &mut Ctx) -> Res {
    let mut m = Mesh::<M8>::new();
    let kind = src.usize(0, 2);
    let mut ids = BTreeSet::new();
    let mut refused = false;
    for i in 0..300u32 {
        let r = catch(|| {
            let vp = VMark::new(i + 1, 0.0, 0.0, 0.0);
            match kind {
                0 => vec![m.add_vertex(vp).index()],
                1 => {
                    let (a, b) = m.add_isolated_edge_default(vp, vp);
                    let e = m.shared_edge_id(a, b).unwrap().index();
                    vec![e, m.edge(e as u8).twin_id().index()]
                }
                _ => {
                    if m.num_edges() == 0 {
                        m.insert_loop(vec![vp; 3]);
                    }
                    // faces are not checked for overlap: keep closing the same walk
                    vec![m.close_hole_unchecked(i).index()]
                }
            }
        });
        match r {
            Ok(v) => {
                for x in v {
                    ensure!(x != 255, "overflow", "the reserved id 255 was handed out");
                    ensure!(ids.insert(x), "fresh-id", "id {} was handed out twice", x);
                }
            }
            Err(_) => {
                refused = true;
                break;
            }
        }
    }
    ensure!(refused, "overflow", "more elements than ids were accepted");
    c.log(|| format!("kind {}: {} ids before the refusal", kind, ids.len()));
    c.nontrivial();
    Ok(())
}
trait CloseHole {
    fn close_hole_unchecked(&mut self, i: u32) -> u8;
}
impl CloseHole for Mesh<M8> {
    fn close_hole_unchecked(&mut self, i: u32) -> u8 {
        for e in self.edges_mut() {
            if !e.is_boundary_self() {
                e.delete_face();
            }
        }
        let e = self.edge_ids().next().unwrap();
        self.close_hole(e, FMark(i), false)
    }
}

/// Index types convert without loss, and refuse what they can't represent.
fn index<I: IndexType>(src: &mut Src, c: &mut Ctx) -> Res {
    let max = <I as IndexType>::max().index();
    let bits = std::mem::size_of::<I>() * 8;
    ensure!(max == if bits == 64 { usize::MAX } else { (1usize << bits) - 1 }, "max", "the maximum of a {} bit index is {}", bits, max);
    let around = [0, max / 2, max, (u8::MAX as usize).min(max), (u16::MAX as usize).min(max), (u32::MAX as usize).min(max)];
    let b = *src.pick(&around);
    let (d, up) = (src.usize(0, 300), src.bool());
    let x = if up { b.saturating_add(d) } else { b.saturating_sub(d) };
    c.log(|| format!("{} as a {} bit index", x, bits));
    let r = catch(|| I::new(x).index());
    if x <= max {
        match r {
            Ok(y) => ensure_eq!(y, x, "index", "new({}).index()", x),
            Err(e) => return fail("index", format!("new({}) is refused: {}", x, e)),
        }
        let y = x ^ 1;
        if y <= max {
            ensure_eq!(I::new(x) < I::new(y), x < y, "order", "{} < {}", x, y);
        }
    } else {
        ensure!(r.is_err(), "overflow", "new({}) gives {:?} instead of being refused", x, r);
        c.label("out of range");
    }
    if x != 0 && x != max {
        c.nontrivial();
    }
    Ok(())
}

pub fn prop03() -> Property {
    Property {
        id: "P03",
        rule: "random storage histories; non-trivial: something was deleted and a freed id was handed out again (storage), or faces were both closed and removed (meshes); index types: neither end of the range",
        assumptions: &["an id is deleted at most once per life (double deletion is outside of the contract)"],
        targets: vec![
            target("storage_u8", 40000, 800000, storage::<u8>),
            target("storage_u16", 20000, 400000, storage::<u16>),
            target("storage_u32", 20000, 400000, storage::<u32>),
            target("storage_usize", 20000, 400000, storage::<usize>),
            target("mesh_usize", 6000, 200000, mesh::<M64>),
            target("mesh_u32", 3000, 100000, mesh::<M32>),
            target("mesh_u16", 3000, 100000, mesh::<M16>),
            target("mesh_u8", 6000, 200000, mesh::<M8>),
            target("exhaust_u8", 60, 600, exhaust),
            target("index_u8", 2000, 100000, index::<u8>),
            target("index_u16", 2000, 100000, index::<u16>),
            target("index_u32", 2000, 100000, index::<u32>),
            target("index_usize", 2000, 100000, index::<usize>),
        ],
        known: vec![],
    }
}
