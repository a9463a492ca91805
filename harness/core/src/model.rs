//! Snapshots of a half-edge mesh read through the public id accessors, the structural audit, and
//! the reference semantics of the building operations.
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct He<EP> {
    pub twin: usize,
    pub next: usize,
    pub prev: usize,
    pub org: usize,
    pub face: Option<usize>,
    pub ep: EP,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fc<FP> {
    pub edge: usize,
    pub curved: bool,
    pub fp: FP,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Vx<VP> {
    pub edge: Option<usize>,
    pub vp: VP,
}

#[derive(Clone, Debug)]
pub struct Snap<T: HalfEdgeImplMeshType> {
    pub v: BTreeMap<usize, Vx<T::VP>>,
    pub e: BTreeMap<usize, He<T::EP>>,
    pub f: BTreeMap<usize, Fc<T::FP>>,
}

pub fn oi<I: IndexType>(i: I) -> Option<usize> {
    if i == <I as IndexType>::max() { None } else { Some(i.index()) }
}

pub fn snap<T: HalfEdgeImplMeshType>(m: &HalfEdgeMeshImpl<T>) -> Snap<T> {
    Snap {
        v: m.vertices()
            .map(|v| (v.id().index(), Vx { edge: oi(v.edge_id(m)), vp: v.payload().clone() }))
            .collect(),
        e: m.edges()
            .map(|e| {
                (
                    e.id().index(),
                    He {
                        twin: e.twin_id().index(),
                        next: e.next_id().index(),
                        prev: e.prev_id().index(),
                        org: e.origin_id().index(),
                        face: oi(e.face_id()),
                        ep: e.payload().clone(),
                    },
                )
            })
            .collect(),
        f: m.faces()
            .map(|f| {
                (
                    f.id().index(),
                    Fc { edge: f.edge_id().index(), curved: f.may_be_curved(), fp: f.payload().clone() },
                )
            })
            .collect(),
    }
}

impl<T: HalfEdgeImplMeshType> Snap<T> {
    pub fn he(&self, e: usize) -> &He<T::EP> {
        &self.e[&e]
    }
    pub fn org(&self, e: usize) -> usize {
        self.e[&e].org
    }
    pub fn tgt(&self, e: usize) -> usize {
        self.e[&self.e[&e].twin].org
    }
    pub fn next(&self, e: usize) -> usize {
        self.e[&e].next
    }
    pub fn prev(&self, e: usize) -> usize {
        self.e[&e].prev
    }
    pub fn twin(&self, e: usize) -> usize {
        self.e[&e].twin
    }
    pub fn face(&self, e: usize) -> Option<usize> {
        self.e[&e].face
    }
    pub fn ends(&self, e: usize) -> (usize, usize) {
        (self.org(e), self.tgt(e))
    }
    /// the walk starting at `e` (bounded)
    pub fn walk(&self, e: usize) -> Vec<usize> {
        let mut r = vec![e];
        let mut c = self.next(e);
        while c != e && r.len() <= self.e.len() {
            r.push(c);
            c = self.next(c);
        }
        r
    }
    pub fn walk_vs(&self, e: usize) -> Vec<usize> {
        self.walk(e).iter().map(|e| self.org(*e)).collect()
    }
    /// all walks, each starting at its lowest edge id
    pub fn walks(&self) -> Vec<Vec<usize>> {
        let mut seen = BTreeSet::new();
        let mut r = vec![];
        for e in self.e.keys() {
            if seen.contains(e) {
                continue;
            }
            let w = self.walk(*e);
            seen.extend(w.iter().copied());
            r.push(w);
        }
        r
    }
    pub fn holes(&self) -> Vec<Vec<usize>> {
        self.walks().into_iter().filter(|w| self.face(w[0]).is_none()).collect()
    }
    pub fn face_walk(&self, f: usize) -> Vec<usize> {
        self.walk(self.f[&f].edge)
    }
    pub fn outs(&self, v: usize) -> Vec<usize> {
        self.e.iter().filter(|(_, h)| h.org == v).map(|(k, _)| *k).collect()
    }
    pub fn adjacent(&self, a: usize, b: usize) -> bool {
        self.e.keys().any(|e| self.ends(*e) == (a, b))
    }
    pub fn edge_between(&self, a: usize, b: usize) -> Option<usize> {
        self.e.keys().copied().find(|e| self.ends(*e) == (a, b))
    }
    /// component number of every vertex
    pub fn components(&self) -> BTreeMap<usize, usize> {
        let mut comp: BTreeMap<usize, usize> = BTreeMap::new();
        let mut adj: BTreeMap<usize, Vec<usize>> = self.v.keys().map(|v| (*v, vec![])).collect();
        for e in self.e.keys() {
            let (a, b) = self.ends(*e);
            adj.entry(a).or_default().push(b);
        }
        let mut n = 0;
        for s in self.v.keys() {
            if comp.contains_key(s) {
                continue;
            }
            let mut st = vec![*s];
            comp.insert(*s, n);
            while let Some(x) = st.pop() {
                for y in adj.get(&x).into_iter().flatten() {
                    if !comp.contains_key(y) {
                        comp.insert(*y, n);
                        st.push(*y);
                    }
                }
            }
            n += 1;
        }
        comp
    }
    pub fn euler(&self) -> i64 {
        self.v.len() as i64 - self.e.len() as i64 / 2 + self.f.len() as i64
    }

    /// The structural invariants of a half-edge mesh, read from the raw links.
    pub fn audit(&self) -> Result<(), String> {
        for (i, h) in &self.e {
            for (n, x) in [("twin", h.twin), ("next", h.next), ("prev", h.prev)] {
                if !self.e.contains_key(&x) {
                    return Err(format!("edge {}: {} {} is not a live edge", i, n, x));
                }
            }
            if !self.v.contains_key(&h.org) {
                return Err(format!("edge {}: origin {} is not a live vertex", i, h.org));
            }
            if let Some(f) = h.face {
                if !self.f.contains_key(&f) {
                    return Err(format!("edge {}: face {} is not a live face", i, f));
                }
            }
        }
        for (i, h) in &self.e {
            if h.twin == *i || self.twin(h.twin) != *i {
                return Err(format!("edge {}: twin {} whose twin is {}", i, h.twin, self.twin(h.twin)));
            }
            if self.prev(h.next) != *i {
                return Err(format!("edge {}: prev(next) is {}", i, self.prev(h.next)));
            }
            if self.next(h.prev) != *i {
                return Err(format!("edge {}: next(prev) is {}", i, self.next(h.prev)));
            }
            if self.face(h.next) != h.face {
                return Err(format!("edge {}: face {:?} but next has {:?}", i, h.face, self.face(h.next)));
            }
            if self.org(h.next) != self.org(h.twin) {
                return Err(format!("edge {}: next starts at {} but twin at {}", i, self.org(h.next), self.org(h.twin)));
            }
        }
        let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
        for w in self.walks() {
            if let Some(f) = self.face(w[0]) {
                if let Some(o) = owner.insert(f, w[0]) {
                    return Err(format!("face {} has two boundary walks, at edges {} and {}", f, o, w[0]));
                }
            }
        }
        for (i, f) in &self.f {
            if !self.e.contains_key(&f.edge) || self.face(f.edge) != Some(*i) {
                return Err(format!("face {}: edge {} does not belong to it", i, f.edge));
            }
        }
        let mut has_out = BTreeSet::new();
        for h in self.e.values() {
            has_out.insert(h.org);
        }
        for (i, v) in &self.v {
            match v.edge {
                None => {
                    if has_out.contains(i) {
                        return Err(format!("vertex {} has edges but no representative", i));
                    }
                }
                Some(e) => {
                    if !self.e.contains_key(&e) || self.org(e) != *i {
                        return Err(format!("vertex {}: edge {} does not start there", i, e));
                    }
                    // single wheel: rotating around the vertex reaches all outgoing edges
                    let n = self.e.values().filter(|h| h.org == *i).count();
                    let mut c = e;
                    let mut k = 0;
                    loop {
                        k += 1;
                        c = self.next(self.twin(c));
                        if c == e || k > n {
                            break;
                        }
                    }
                    if k != n {
                        return Err(format!("vertex {}: the wheel has {} of {} outgoing edges", i, k, n));
                    }
                }
            }
        }
        Ok(())
    }
    /// what check() additionally demands of a finished mesh
    pub fn complete(&self) -> bool {
        self.f.keys().all(|f| self.face_walk(*f).len() >= 3)
            && self.e.values().all(|h| h.face.is_some() || self.e[&h.twin].face.is_some())
    }

    /// Compares everything except representatives and prev links (those are audited).
    pub fn diff(&self, o: &Snap<T>) -> Result<(), String> {
        let k = |a: Vec<usize>, b: Vec<usize>, n: &str| {
            if a != b { Err(format!("{} ids are {:?}, expected {:?}", n, b, a)) } else { Ok(()) }
        };
        k(self.v.keys().copied().collect(), o.v.keys().copied().collect(), "vertex")?;
        k(self.e.keys().copied().collect(), o.e.keys().copied().collect(), "edge")?;
        k(self.f.keys().copied().collect(), o.f.keys().copied().collect(), "face")?;
        for (i, v) in &self.v {
            if v.vp != o.v[i].vp {
                return Err(format!("payload of vertex {} is {:?}, expected {:?}", i, o.v[i].vp, v.vp));
            }
        }
        for (i, f) in &self.f {
            let g = &o.f[i];
            if f.fp != g.fp || f.curved != g.curved {
                return Err(format!("face {} is {:?}, expected {:?}", i, g, f));
            }
        }
        for (i, h) in &self.e {
            let g = &o.e[i];
            if (h.twin, h.next, h.org, h.face) != (g.twin, g.next, g.org, g.face) || h.ep != g.ep {
                return Err(format!("edge {} is {:?}, expected {:?}", i, g, h));
            }
        }
        Ok(())
    }
    pub fn same(&self, o: &Snap<T>) -> bool {
        self.v == o.v && self.e == o.e && self.f == o.f
    }
}

/// Rotates a cyclic list so that its smallest rotation comes first.
pub fn canon<X: Ord + Clone>(w: &[X]) -> Vec<X> {
    let n = w.len();
    let mut best: Option<Vec<X>> = None;
    for i in 0..n {
        let c: Vec<X> = w[i..].iter().chain(w[..i].iter()).cloned().collect();
        if best.as_ref().is_none_or(|b| c < *b) {
            best = Some(c);
        }
    }
    best.unwrap_or_default()
}
