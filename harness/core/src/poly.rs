//! A backend-independent view of a 3D mesh (positions, cyclic faces) and geometric measures of it.
use crate::mt::*;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// 3D half-edge meshes of any backend.
pub trait P3:
    HalfEdgeImplMeshType<Mesh = HalfEdgeMeshImpl<Self>>
    + MeshTypeHalfEdge
    + MeshType3D
    + MeshType<EP: DefaultEdgePayload, FP: DefaultFacePayload>
{
    /// relative tolerance for coordinates
    const TOL: f64;
    const CAPS: usize;
}
impl P3 for M64 {
    const TOL: f64 = 1e-10;
    const CAPS: usize = 1 << 30;
}
impl P3 for M32 {
    const TOL: f64 = 1e-10;
    const CAPS: usize = 1 << 30;
}
impl P3 for M16 {
    const TOL: f64 = 1e-10;
    const CAPS: usize = 60000;
}
impl P3 for M8 {
    const TOL: f64 = 1e-10;
    const CAPS: usize = 250;
}
impl P3 for procedural_modelling::extensions::nalgebra::MeshType3d64PNU {
    const TOL: f64 = 1e-10;
    const CAPS: usize = 1 << 30;
}
#[cfg(feature = "bevy")]
impl P3 for procedural_modelling::extensions::bevy::BevyMeshType3d32 {
    const TOL: f64 = 2e-5;
    const CAPS: usize = 1 << 30;
}
impl P3 for MF32 {
    const TOL: f64 = 2e-5;
    const CAPS: usize = 1 << 30;
}

pub type D3 = [f64; 3];
pub fn sub(a: D3, b: D3) -> D3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: D3, b: D3) -> D3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mul(a: D3, k: f64) -> D3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn dot(a: D3, b: D3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: D3, b: D3) -> D3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: D3) -> f64 {
    dot(a, a).sqrt()
}
/// converts a number as exactly as the scalar type allows
pub fn sc<S: Scalar>(x: f64) -> S {
    let a = x as f32;
    let b = (x - a as f64) as f32;
    let c = (x - a as f64 - b as f64) as f32;
    let k = <S as From<f32>>::from(a) + <S as From<f32>>::from(b);
    k + <S as From<f32>>::from(c)
}
pub fn d3<S: Scalar, V: Vector<S, 3>>(v: &V) -> D3 {
    [v.x().to_f64(), v.y().to_f64(), v.z().to_f64()]
}

#[derive(Clone, Debug)]
pub struct Solid {
    pub ids: Vec<usize>,
    pub pos: Vec<D3>,
    /// vertex indices (into pos) in walking order
    pub faces: Vec<Vec<usize>>,
    pub holes: Vec<Vec<usize>>,
    pub face_ids: Vec<usize>,
    pub half_edges: usize,
}

/// Reads a mesh through its ids, checking the links on the way.
pub fn solid<T: P3>(m: &HalfEdgeMeshImpl<T>) -> Result<Solid, Fail> {
    let mut idx = HashMap::new();
    let mut ids = vec![];
    let mut pos = vec![];
    for v in m.vertices() {
        idx.insert(v.id().index(), ids.len());
        ids.push(v.id().index());
        pos.push(d3(&v.pos()));
    }
    struct H {
        twin: usize,
        next: usize,
        org: usize,
        face: Option<usize>,
    }
    let mut es: BTreeMap<usize, H> = BTreeMap::new();
    let mut prevs = HashMap::new();
    for e in m.edges() {
        es.insert(
            e.id().index(),
            H { twin: e.twin_id().index(), next: e.next_id().index(), org: e.origin_id().index(), face: crate::model::oi(e.face_id()) },
        );
        prevs.insert(e.id().index(), e.prev_id().index());
    }
    for (i, h) in &es {
        let (Some(t), Some(n)) = (es.get(&h.twin), es.get(&h.next)) else {
            return fail("links", format!("edge {}: twin {} or next {} is not live", i, h.twin, h.next));
        };
        ensure!(t.twin == *i && h.twin != *i, "links", "edge {}: twin {} has twin {}", i, h.twin, t.twin);
        ensure!(prevs.get(&h.next) == Some(i), "links", "edge {}: prev of next {} is {:?}", i, h.next, prevs.get(&h.next));
        ensure!(n.org == t.org, "links", "edge {}: next starts at {}, twin at {}", i, n.org, t.org);
        ensure!(n.face == h.face, "links", "edge {}: face {:?} but next has {:?}", i, h.face, n.face);
        ensure!(idx.contains_key(&h.org), "links", "edge {}: origin {} is not live", i, h.org);
    }
    let mut out = Solid { ids, pos, faces: vec![], holes: vec![], face_ids: vec![], half_edges: es.len() };
    let mut reps: BTreeMap<usize, usize> = BTreeMap::new();
    for f in m.faces() {
        reps.insert(f.id().index(), f.edge_id().index());
        ensure!(es.get(&f.edge_id().index()).and_then(|h| h.face) == Some(f.id().index()), "links", "face {} is represented by foreign edge {}", f.id(), f.edge_id());
    }
    let mut seen = BTreeSet::new();
    for i in es.keys() {
        if seen.contains(i) {
            continue;
        }
        let f = es[i].face;
        // walk from the representative edge
        let start = match f {
            Some(f) => *reps.get(&f).ok_or(Fail { sig: "links".into(), msg: format!("edge {}: face {} is not live", i, f) })?,
            None => *i,
        };
        let mut w = vec![];
        let mut c = start;
        loop {
            ensure!(seen.insert(c), "links", "the walk of face {:?} does not close", f);
            w.push(idx[&es[&c].org]);
            c = es[&c].next;
            if c == start {
                break;
            }
        }
        ensure!(seen.contains(i), "links", "face {:?} has two boundaries", f);
        match f {
            Some(f) => {
                out.face_ids.push(f);
                out.faces.push(w);
            }
            None => out.holes.push(w),
        }
    }
    ensure_eq!(out.faces.len(), reps.len(), "links", "number of faces");
    Ok(out)
}

impl Solid {
    pub fn edges(&self) -> BTreeSet<(usize, usize)> {
        let mut r = BTreeSet::new();
        for w in self.faces.iter().chain(self.holes.iter()) {
            for i in 0..w.len() {
                let (a, b) = (w[i], w[(i + 1) % w.len()]);
                r.insert((a.min(b), a.max(b)));
            }
        }
        r
    }
    pub fn scale(&self) -> f64 {
        self.pos.iter().map(|p| len(*p)).fold(0.0, f64::max)
    }
    pub fn centroid(&self) -> D3 {
        mul(self.pos.iter().fold([0.0; 3], |a, p| add(a, *p)), 1.0 / self.pos.len().max(1) as f64)
    }
    /// Newell normal: twice the area vector, by the right-hand rule
    pub fn normal(&self, f: &[usize]) -> D3 {
        let o = self.pos[f[0]];
        let mut n = [0.0; 3];
        for i in 1..f.len() - 1 {
            n = add(n, cross(sub(self.pos[f[i]], o), sub(self.pos[f[i + 1]], o)));
        }
        n
    }
    pub fn face_centroid(&self, f: &[usize]) -> D3 {
        mul(f.iter().fold([0.0; 3], |a, p| add(a, self.pos[*p])), 1.0 / f.len() as f64)
    }
    pub fn volume(&self) -> f64 {
        let c = self.centroid();
        let mut v = 0.0;
        for f in &self.faces {
            let o = sub(self.pos[f[0]], c);
            for i in 1..f.len() - 1 {
                v += dot(o, cross(sub(self.pos[f[i]], c), sub(self.pos[f[i + 1]], c)));
            }
        }
        v / 6.0
    }
    pub fn area(&self) -> f64 {
        self.faces.iter().map(|f| len(self.normal(f)) / 2.0).sum()
    }
    pub fn euler(&self) -> i64 {
        self.pos.len() as i64 - (self.half_edges / 2) as i64 + self.faces.len() as i64
    }
    pub fn connected(&self) -> bool {
        let n = self.pos.len();
        if n == 0 {
            return true;
        }
        let mut adj = vec![vec![]; n];
        for (a, b) in self.edges() {
            adj[a].push(b);
            adj[b].push(a);
        }
        let mut seen = vec![false; n];
        let mut st = vec![0];
        seen[0] = true;
        let mut k = 1;
        while let Some(x) = st.pop() {
            for &y in &adj[x] {
                if !seen[y] {
                    seen[y] = true;
                    k += 1;
                    st.push(y);
                }
            }
        }
        k == n
    }
    /// sizes of the faces, as (size, count)
    pub fn sizes(&self) -> BTreeMap<usize, usize> {
        let mut r = BTreeMap::new();
        for f in &self.faces {
            *r.entry(f.len()).or_insert(0) += 1;
        }
        r
    }
    pub fn edge_lengths(&self) -> Vec<f64> {
        self.edges().iter().map(|(a, b)| len(sub(self.pos[*a], self.pos[*b]))).collect()
    }
    /// every face planar and every vertex on or below its plane
    pub fn convex(&self, tol: f64) -> Result<(), String> {
        let s = self.scale().max(1e-300);
        for f in &self.faces {
            let n = self.normal(f);
            let l = len(n);
            if l == 0.0 {
                return Err(format!("face {:?} has no area", f));
            }
            let n = mul(n, 1.0 / l);
            let o = self.face_centroid(f);
            for i in f {
                let d = dot(n, sub(self.pos[*i], o));
                if d.abs() > tol * s {
                    return Err(format!("face {:?} is not planar (vertex {} is off by {})", f, i, d));
                }
            }
            for (i, p) in self.pos.iter().enumerate() {
                let d = dot(n, sub(*p, o));
                if d > tol * s {
                    return Err(format!("vertex {} lies {} outside face {:?}", i, d, f));
                }
            }
        }
        Ok(())
    }
}

/// matches two point sets one to one within tolerance
pub fn same_points(a: &[D3], b: &[D3], tol: f64) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} points instead of {}", a.len(), b.len()));
    }
    let mut used = vec![false; a.len()];
    for p in b {
        let Some(i) = (0..a.len()).filter(|i| !used[*i]).min_by(|i, j| len(sub(a[*i], *p)).total_cmp(&len(sub(a[*j], *p)))) else {
            return Err("?".into());
        };
        let d = len(sub(a[i], *p));
        if !(d <= tol) {
            return Err(format!("no vertex at {:?}; the closest unused one is {:?}", p, a[i]));
        }
        used[i] = true;
    }
    Ok(())
}
