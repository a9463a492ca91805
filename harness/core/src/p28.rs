//! Attributes of the elements of a mesh, against a plain record of what was written (P28).
use crate::cm::*;
use crate::maps::*;
use crate::model::*;
use crate::p19::*;
use engine::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeMap;

type Me<T> = HalfEdgeMeshImpl<T>;

/// The attributes of a vertex by name: 0 = position, 1 = normal, 2 = texture coordinates.
pub trait VA<const D: usize> {
    const ATTRS: u64 = 3;
    fn write(&mut self, k: u64, v: [f64; 4]);
    fn read(&self) -> [Vec<f64>; 3];
    fn attr(k: u64) -> usize {
        if k == 2 { 2 } else { D }
    }
}
impl<S: ScalarPlus, const D: usize> VA<D> for VertexPayloadPNU<S, D> {
    fn write(&mut self, k: u64, v: [f64; 4]) {
        let x = VecN::<S, D>::from_fn(|i, _| crate::poly::sc::<S>(v[i]));
        match k {
            0 => self.set_pos(x),
            1 => self.set_normal(x),
            _ => self.set_uv(VecN::<S, 2>::from_fn(|i, _| crate::poly::sc::<S>(v[i]))),
        }
    }
    fn read(&self) -> [Vec<f64>; 3] {
        let f = |v: &VecN<S, D>| (0..D).map(|i| v[i].to_f64()).collect::<Vec<_>>();
        [f(self.pos()), f(self.normal()), vec![self.uv()[0].to_f64(), self.uv()[1].to_f64()]]
    }
}
#[cfg(feature = "bevy")]
mod b {
    use super::*;
    use bevy::math::{Vec2, Vec3};
    use procedural_modelling::extensions::bevy::*;
    impl VA<3> for BevyVertexPayload3d {
        fn write(&mut self, k: u64, v: [f64; 4]) {
            let x = Vec3::new(v[0] as f32, v[1] as f32, v[2] as f32);
            match k {
                0 => self.set_pos(x),
                1 => self.set_normal(x),
                _ => self.set_uv(Vec2::new(v[0] as f32, v[1] as f32)),
            }
        }
        fn read(&self) -> [Vec<f64>; 3] {
            let f = |v: &Vec3| vec![v.x as f64, v.y as f64, v.z as f64];
            [f(self.pos()), f(self.normal()), vec![self.uv().x as f64, self.uv().y as f64]]
        }
    }
    impl VA<2> for BevyVertexPayload2d {
        // only the position is accessible
        const ATTRS: u64 = 1;
        fn write(&mut self, _: u64, v: [f64; 4]) {
            self.set_pos(Vec2::new(v[0] as f32, v[1] as f32));
        }
        fn read(&self) -> [Vec<f64>; 3] {
            [vec![self.pos().x as f64, self.pos().y as f64], vec![], vec![]]
        }
    }
}

/// Edge, face and mesh payloads that can be written to.
pub trait Wr<T: MeshType, const D: usize> {
    /// what the payload reads like after writing
    fn edge(_: &mut T::Edge, _: &mut Src, _: &mut Ctx) -> Option<Vec<Vec<f64>>> {
        None
    }
    fn face(_: &mut T::FP, _: &mut Src) -> bool {
        false
    }
    fn mesh(_: &mut T::MP, _: &mut Src) -> bool {
        false
    }
}
impl<const D: usize> Wr<MeshTypeNd64PNU<D>, D> for () {}
#[cfg(feature = "bevy")]
impl Wr<procedural_modelling::extensions::bevy::BevyMeshType3d32, 3> for () {}
fn bend_edge<T: CM<D>, const D: usize>(e: &mut HalfEdgeImpl<T>, src: &mut Src, c: &mut Ctx) -> Option<Vec<Vec<f64>>>
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let n = src.usize(0, 2);
    let pts: Vec<_> = (0..n).map(|_| point::<T::S, D>(src, 8.0)).collect();
    let k = match n {
        0 => CurvedEdgeType::Linear,
        1 => CurvedEdgeType::QuadraticBezier(ve(pts[0])),
        _ => CurvedEdgeType::CubicBezier(ve(pts[0]), ve(pts[1])),
    };
    if src.bool() {
        e.set_curve_type(k);
    } else {
        e.payload_mut().set_curve_type(k);
    }
    c.log(|| format!("edge {}: curve {:?}", e.id(), pts));
    Some(pts.iter().map(|p| p[..D].to_vec()).collect())
}
macro_rules! curved_wr {
    ($t:ty, $d:expr) => {
        impl Wr<$t, $d> for () {
            fn edge(e: &mut HalfEdgeImpl<$t>, src: &mut Src, c: &mut Ctx) -> Option<Vec<Vec<f64>>> {
                bend_edge::<$t, $d>(e, src, c)
            }
        }
    };
}
curved_wr!(C2, 2);
curved_wr!(C3, 3);
curved_wr!(C2F, 2);
#[cfg(feature = "bevy")]
curved_wr!(procedural_modelling::extensions::bevy::BevyMeshType2d32, 2);
impl Wr<X3, 3> for () {
    fn edge(e: &mut HalfEdgeImpl<X3>, src: &mut Src, c: &mut Ctx) -> Option<Vec<Vec<f64>>> {
        bend_edge::<X3, 3>(e, src, c)
    }
    fn face(f: &mut FX, src: &mut Src) -> bool {
        f.dress(src);
        true
    }
    fn mesh(m: &mut MX, src: &mut Src) -> bool {
        m.dress(src);
        true
    }
}

type EdgeModel = BTreeMap<usize, Vec<Vec<f64>>>;
/// What was written so far.
#[derive(Clone)]
struct Model<T: MeshType, const D: usize> {
    v: BTreeMap<usize, [Vec<f64>; 3]>,
    e: EdgeModel,
    f: BTreeMap<usize, T::FP>,
    m: T::MP,
    links: Links,
}
fn bits(x: &[f64]) -> Vec<u64> {
    x.iter().map(|x| x.to_bits()).collect()
}
fn read<T: X<D>, const D: usize>(m: &Me<T>) -> Model<T, D>
where
    T::VP: VA<D>,
{
    let s = snap(m);
    Model {
        v: s.v.iter().map(|(i, v)| (*i, v.vp.read())).collect(),
        e: s.e.iter().map(|(i, h)| (*i, h.ep.parts().0.iter().map(|p| p.to_vec()).collect())).collect(),
        f: s.f.iter().map(|(i, f)| (*i, f.fp)).collect(),
        m: m.payload().clone(),
        links: links(&s),
    }
}
fn same<T: X<D>, const D: usize>(m: &Me<T>, w: &Model<T, D>, what: &str) -> Res
where
    T::VP: VA<D>,
{
    let g = read::<T, D>(m);
    ensure!(g.links == w.links, "links", "{}: the connectivity is {:?}, expected {:?}", what, g.links, w.links);
    for (i, a) in &w.v {
        let b = &g.v[i];
        for (k, n) in ["position", "normal", "texture coordinates"].iter().enumerate() {
            ensure!(bits(&a[k]) == bits(&b[k]), "vertex", "{}: {} of vertex {} reads {:?}, expected {:?}", what, n, i, b[k], a[k]);
        }
        // the same through the vertex
        let p: T::Vec = m.vertex(T::V::new(*i)).pos();
        ensure!(bits(&<T::Trans as Maps<D>>::co(&p)) == bits(&a[0]), "vertex", "{}: pos of vertex {} is {:?}, expected {:?}", what, i, p, a[0]);
    }
    for (i, a) in &w.e {
        let same = a.len() == g.e[i].len() && a.iter().zip(&g.e[i]).all(|(a, b)| bits(a) == bits(b));
        ensure!(same, "edge", "{}: the curve of edge {} reads {:?}, expected {:?}", what, i, g.e[i], a);
        ensure_eq!(m.edge(T::E::new(*i)).payload().is_empty(), a.is_empty(), "edge", "{}: is_empty of edge {}", what, i);
    }
    for (i, a) in &w.f {
        ensure!(*a == g.f[i], "face", "{}: the payload of face {} reads {:?}, expected {:?}", what, i, g.f[i], a);
        ensure!(*a == *m.face(T::F::new(*i)).payload(), "face", "{}: the payload of face {} reads {:?}", what, i, m.face(T::F::new(*i)).payload());
    }
    ensure!(g.m == w.m, "mesh", "{}: the payload of the mesh reads {:?}, expected {:?}", what, g.m, w.m);
    Ok(())
}
fn value<T: X<D>, const D: usize>(src: &mut Src) -> [f64; 4] {
    let k = src.below(4);
    let q = |x: f64| crate::poly::sc::<T::S>(x).to_f64();
    std::array::from_fn(|_| {
        q(match k {
            0 => src.int(-4, 4) as f64,
            1 => *src.pick(&[0.0, -0.0, 1.0, -1.0, 1e30, 1e-30, f64::INFINITY, f64::NEG_INFINITY]),
            2 => src.scale(-20, 20),
            _ => src.real(-10.0, 10.0),
        })
    })
}

fn history<T: X<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    (): Wr<T, D>,
    T::VP: VA<D>,
{
    let mut m = <T as X<D>>::make(src, c)?;
    let fs: Vec<T::F> = m.face_ids().collect();
    if fs.len() > 2 && src.chance(1, 3) {
        // sparse ids
        let f = *src.pick(&fs);
        m.remove_face(f);
        c.label("a face removed");
    }
    let mut w = read::<T, D>(&m);
    let mut kept: Option<(Me<T>, Model<T, D>)> = None;
    let (mut writes, mut kinds) = (0, [0; 6]);
    for _ in 0..src.sized(2, 24) {
        let k = src.below(9);
        match k {
            0..=3 => {
                if w.v.is_empty() {
                    continue;
                }
                let ids: Vec<usize> = w.v.keys().copied().collect();
                let i = *src.pick(&ids);
                let a = src.below(<T::VP as VA<D>>::ATTRS);
                let v = value::<T, D>(src);
                let n = <T::VP as VA<D>>::attr(a);
                c.log(|| format!("vertex {}: {} = {:?}", i, ["position", "normal", "uv"][a as usize], &v[..n]));
                m.vertex_mut(T::V::new(i)).payload_mut().write(a, v);
                w.v.get_mut(&i).unwrap()[a as usize] = v[..n].to_vec();
                kinds[a as usize] += 1;
            }
            4 => {
                let ids: Vec<usize> = w.e.keys().copied().collect();
                if ids.is_empty() {
                    continue;
                }
                let i = *src.pick(&ids);
                if let Some(x) = <() as Wr<T, D>>::edge(m.edge_mut(T::E::new(i)), src, c) {
                    w.e.insert(i, x);
                    kinds[3] += 1;
                }
            }
            5 => {
                let ids: Vec<usize> = w.f.keys().copied().collect();
                if ids.is_empty() {
                    continue;
                }
                let i = *src.pick(&ids);
                let mut p = w.f[&i];
                if <() as Wr<T, D>>::face(&mut p, src) {
                    c.log(|| format!("face {}: {:?}", i, p));
                    *m.face_mut(T::F::new(i)).payload_mut() = p;
                    w.f.insert(i, p);
                    kinds[4] += 1;
                }
            }
            6 => {
                let mut p = w.m.clone();
                if <() as Wr<T, D>>::mesh(&mut p, src) {
                    let set = src.bool();
                    c.log(|| format!("{}: {:?}", if set { "set_payload" } else { "payload_mut" }, p));
                    if set {
                        m.set_payload(p.clone());
                    } else {
                        *m.payload_mut() = p.clone();
                    }
                    w.m = p;
                    kinds[5] += 1;
                }
            }
            7 => {
                // all elements of a kind, through the mutable iterators
                let v = value::<T, D>(src);
                let mut seen = vec![];
                match src.below(3) {
                    0 => {
                        c.log(|| format!("all vertices: {:?}", v));
                        let a = src.below(<T::VP as VA<D>>::ATTRS);
                        let n = <T::VP as VA<D>>::attr(a);
                        for x in m.vertices_mut() {
                            let i = x.id().index();
                            let mut v = v;
                            v[0] = i as f64;
                            x.payload_mut().write(a, v);
                            w.v.get_mut(&i).unwrap()[a as usize] = v[..n].to_vec();
                            seen.push(i);
                        }
                        ensure!(seen == w.v.keys().copied().collect::<Vec<_>>(), "iterate", "vertices_mut visits {:?} of {:?}", seen, w.v.keys());
                    }
                    1 => {
                        for x in m.edges_mut() {
                            let i = x.id().index();
                            if let Some(p) = <() as Wr<T, D>>::edge(x, src, c) {
                                w.e.insert(i, p);
                            }
                            seen.push(i);
                        }
                        ensure!(seen == w.e.keys().copied().collect::<Vec<_>>(), "iterate", "edges_mut visits {:?} of {:?}", seen, w.e.keys());
                    }
                    _ => {
                        for x in m.faces_mut() {
                            let i = x.id().index();
                            <() as Wr<T, D>>::face(x.payload_mut(), src);
                            w.f.insert(i, *x.payload());
                            seen.push(i);
                        }
                        ensure!(seen == w.f.keys().copied().collect::<Vec<_>>(), "iterate", "faces_mut visits {:?} of {:?}", seen, w.f.keys());
                    }
                }
            }
            _ => {
                // a copy must not follow the original, nor the other way round
                c.log(|| "clone".into());
                let n = m.clone();
                same::<T, D>(&n, &w, "the copy")?;
                if src.bool() {
                    kept = Some((n, w.clone()));
                } else {
                    kept = Some((std::mem::replace(&mut m, n), w.clone()));
                }
                c.label("copied");
                continue;
            }
        }
        writes += 1;
        same::<T, D>(&m, &w, "after writing")?;
    }
    if let Some((n, w)) = kept {
        same::<T, D>(&n, &w, "the copy after writing to the other one")?;
    }
    // fresh payloads
    let v = value::<T, D>(src);
    let p = T::VP::from_pos(<T::Trans as Maps<D>>::ve(std::array::from_fn(|i| v[i.min(3)])));
    let r = p.read();
    ensure!(bits(&r[0]) == bits(&(0..D).map(|i| v[i.min(3)]).collect::<Vec<_>>()), "fresh", "from_pos({:?}) is at {:?}", v, r[0]);
    ensure!(r[1].iter().chain(&r[2]).all(|x| *x == 0.0), "fresh", "from_pos({:?}) has normal {:?} and texture coordinates {:?}", v, r[1], r[2]);
    ensure!(<T::EP as EdgePayload>::allocate().is_empty(), "fresh", "a fresh edge payload isn't empty");
    if writes > 2 && kinds.iter().filter(|k| **k > 0).count() > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// Swapping y and z of all positions.
fn yz<T: X<3> + MeshType3D>(src: &mut Src, c: &mut Ctx) -> Res
where
    (): Wr<T, 3>,
    T::VP: VA<3>,
{
    let mut m = <T as X<3>>::make(src, c)?;
    for v in m.vertices_mut() {
        v.payload_mut().dress(src);
    }
    let w = read::<T, 3>(&m);
    m.flip_yz();
    let mut w2 = w.clone();
    w2.v.values_mut().for_each(|v| v[0].swap(1, 2));
    same::<T, 3>(&m, &w2, "flip_yz")?;
    m.flip_yz();
    same::<T, 3>(&m, &w, "flip_yz twice")?;
    if w.v.values().any(|v| v[0][1] != v[0][2]) {
        c.nontrivial();
    }
    Ok(())
}

pub fn target28<T: X<D>, const D: usize>(n: &'static str, q: u64) -> Target
where
    (): Wr<T, D>,
    T::VP: VA<D>,
{
    target(n, q, 30 * q, history::<T, D>)
}
pub fn yz28<T: X<3> + MeshType3D>(n: &'static str, q: u64) -> Target
where
    (): Wr<T, 3>,
    T::VP: VA<3>,
{
    target(n, q, 30 * q, yz::<T>)
}
pub fn prop28_with(extra: Vec<Target>) -> Property {
    let mut targets = vec![
        target28::<X3, 3>("payloads_3d", 150000),
        target28::<C2, 2>("curved_2d", 100000),
        target28::<C3, 3>("curved_3d", 100000),
        target28::<C2F, 2>("curved_2d_f32", 100000),
        target28::<MeshType3d64PNU, 3>("solids_3d", 40000),
        target28::<MeshTypeNd64PNU<2>, 2>("polygons_2d", 100000),
        target28::<MeshTypeNd64PNU<4>, 4>("polygons_4d", 100000),
        yz28::<MeshType3d64PNU>("flip_yz", 40000),
    ];
    targets.extend(extra);
    Property {
        id: "P28",
        rule: "random curved meshes, polygons and solids; random interleavings of writes to single vertices, edges, faces and the mesh, writes through the mutable iterators, and copies, all attributes compared with the record after every step; non-trivial: more than two writes to at least two kinds of attributes; flip_yz: some position off the diagonal plane",
        assumptions: &["the normal and texture coordinates of the 2D bevy payload are not accessible", "NaN is not written"],
        targets,
        known: vec![],
    }
}
