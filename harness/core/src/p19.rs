//! Transforming whole meshes (P19).
use crate::cm::*;
use crate::maps::*;
use crate::model::*;
use crate::p07::{primitive, KINDS};
use crate::p16::{bend, curved_mesh};
use crate::poly::P3;
use engine::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;

type Me<T> = HalfEdgeMeshImpl<T>;

/// The geometric parts of a payload: points, directions and everything else.
pub type Parts<const D: usize> = (Vec<[f64; D]>, Vec<[f64; D]>, Vec<f64>);

pub trait Geo<const D: usize> {
    fn parts(&self) -> Parts<D> {
        Default::default()
    }
    fn dress(&mut self, _: &mut Src) {}
}
fn small(src: &mut Src) -> f64 {
    src.int(-64, 64) as f64 / 8.0
}
impl<S: ScalarPlus, const D: usize> Geo<D> for VertexPayloadPNU<S, D> {
    fn parts(&self) -> Parts<D> {
        let f = |v: &VecN<S, D>| std::array::from_fn(|i| v[i].to_f64());
        (vec![f(self.pos())], vec![f(self.normal())], vec![self.uv()[0].to_f64(), self.uv()[1].to_f64()])
    }
    fn dress(&mut self, src: &mut Src) {
        self.set_normal(VecN::<S, D>::from_fn(|_, _| crate::poly::sc::<S>(small(src))));
        self.set_uv(VecN::<S, 2>::from_fn(|_, _| crate::poly::sc::<S>(small(src))));
    }
}
impl<const D: usize, T: EuclideanMeshType<D>> Geo<D> for CurvedEdgePayload<D, T>
where
    T::Trans: Maps<D, Vec = T::Vec>,
{
    fn parts(&self) -> Parts<D> {
        let l = match self.curve_type() {
            CurvedEdgeType::Linear => vec![],
            CurvedEdgeType::QuadraticBezier(p) => vec![p],
            CurvedEdgeType::CubicBezier(p, q) => vec![p, q],
        };
        (l.iter().map(|p| <T::Trans as Maps<D>>::co(p)).collect(), vec![], vec![l.len() as f64])
    }
}
impl<const D: usize, T: MeshType> Geo<D> for EmptyEdgePayload<T> {}
impl<const D: usize, T: MeshType> Geo<D> for EmptyFacePayload<T> {}
impl<const D: usize, T: MeshType> Geo<D> for EmptyMeshPayload<T> {}

/// Face and mesh payloads with a position of their own.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct FX(pub [u64; 3], pub u32);
#[derive(Clone, Debug, PartialEq)]
pub struct MX(pub VecN<f64, 3>);
impl Default for MX {
    fn default() -> Self {
        MX(VecN::zeros())
    }
}
impl FacePayload for FX {
    fn allocate() -> Self {
        FX::default()
    }
}
impl DefaultFacePayload for FX {}
impl MeshPayload<X3> for MX {}
impl Transformable<3> for FX {
    type S = f64;
    type Vec = VecN<f64, 3>;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    fn transform(&mut self, t: &Self::Trans) -> &mut Self {
        let p = t.apply(VecN::<f64, 3>::from(self.0.map(f64::from_bits)));
        self.0 = std::array::from_fn(|i| p[i].to_bits());
        self
    }
    fn lerp(&mut self, _: &Self, _: f64) -> &mut Self {
        self
    }
}
impl Transformable<3> for MX {
    type S = f64;
    type Vec = VecN<f64, 3>;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    fn transform(&mut self, t: &Self::Trans) -> &mut Self {
        self.0 = t.apply(self.0);
        self
    }
    fn lerp(&mut self, _: &Self, _: f64) -> &mut Self {
        self
    }
}
impl Geo<3> for FX {
    fn parts(&self) -> Parts<3> {
        (vec![self.0.map(f64::from_bits)], vec![], vec![self.1 as f64])
    }
    fn dress(&mut self, src: &mut Src) {
        self.0 = std::array::from_fn(|_| small(src).to_bits());
        self.1 = src.below(100) as u32;
    }
}
impl Geo<3> for MX {
    fn parts(&self) -> Parts<3> {
        (vec![std::array::from_fn(|i| self.0[i])], vec![], vec![])
    }
    fn dress(&mut self, src: &mut Src) {
        self.0 = VecN::from_fn(|_, _| small(src));
    }
}
/// A mesh type whose vertices, edges, faces and the mesh itself carry geometry.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct X3;
impl MeshType for X3 {
    type E = u16;
    type V = u16;
    type F = u16;
    type EP = CurvedEdgePayload<3, Self>;
    type VP = VertexPayloadPNU<f64, 3>;
    type FP = FX;
    type MP = MX;
    type Mesh = HalfEdgeMeshImpl<Self>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl EuclideanMeshType<3> for X3 {
    type S = f64;
    type Vec = VecN<f64, 3>;
    type Vec2 = VecN<f64, 2>;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    type Poly = Polygon2d<f64>;
}
impl HalfEdgeImplMeshType for X3 {}
impl MeshTypeHalfEdge for X3 {}
impl CurvedEdge<3, X3> for HalfEdgeImpl<X3> {
    fn curve_type(&self) -> CurvedEdgeType<3, X3> {
        self.payload().curve_type()
    }
    fn set_curve_type(&mut self, t: CurvedEdgeType<3, X3>) {
        self.payload_mut().set_curve_type(t);
    }
}
impl CM<3> for X3 {
    const EPS: f64 = 1e-12;
}

#[cfg(feature = "bevy")]
mod b {
    use super::*;
    use procedural_modelling::extensions::bevy::*;
    impl Geo<3> for BevyVertexPayload3d {
        fn parts(&self) -> Parts<3> {
            let f = |v: &bevy::math::Vec3| [v.x as f64, v.y as f64, v.z as f64];
            (vec![f(self.pos())], vec![f(self.normal())], vec![self.uv().x as f64, self.uv().y as f64])
        }
        fn dress(&mut self, src: &mut Src) {
            let mut f = || small(src) as f32;
            self.set_normal(bevy::math::Vec3::new(f(), f(), f()));
            self.set_uv(bevy::math::Vec2::new(f(), f()));
        }
    }
    impl Geo<2> for BevyVertexPayload2d {
        // the texture coordinates are not accessible
        fn parts(&self) -> Parts<2> {
            (vec![[self.pos().x as f64, self.pos().y as f64]], vec![], vec![])
        }
    }
}

/// Everything a mesh type must provide for the checks of this module.
pub trait X<const D: usize>:
    HalfEdgeImplMeshType<Mesh = HalfEdgeMeshImpl<Self>>
    + MeshTypeHalfEdge
    + EuclideanMeshType<D, Trans: Maps<D, Sc = <Self as EuclideanMeshType<D>>::S>>
    + MeshType<
        VP: Geo<D>,
        EP: Geo<D> + Transformable<D, Rot = <Self as EuclideanMeshType<D>>::Rot, Vec = <Self as EuclideanMeshType<D>>::Vec, Trans = <Self as EuclideanMeshType<D>>::Trans, S = <Self as EuclideanMeshType<D>>::S>,
        FP: Geo<D> + Transformable<D, Rot = <Self as EuclideanMeshType<D>>::Rot, Vec = <Self as EuclideanMeshType<D>>::Vec, Trans = <Self as EuclideanMeshType<D>>::Trans, S = <Self as EuclideanMeshType<D>>::S>,
        MP: Geo<D> + Transformable<D, Rot = <Self as EuclideanMeshType<D>>::Rot, Vec = <Self as EuclideanMeshType<D>>::Vec, Trans = <Self as EuclideanMeshType<D>>::Trans, S = <Self as EuclideanMeshType<D>>::S>,
        Edge = HalfEdgeImpl<Self>,
    >
{
    fn make(src: &mut Src, c: &mut Ctx) -> Result<HalfEdgeMeshImpl<Self>, Fail>;
}
macro_rules! curved_x {
    ($t:ty, $d:expr) => {
        impl X<$d> for $t {
            fn make(src: &mut Src, c: &mut Ctx) -> Result<HalfEdgeMeshImpl<Self>, Fail> {
                let s = *src.pick(&[1.0, 64.0]);
                let mut m = curved_mesh::<$t, $d>(src, c, s)?;
                bend::<$t, $d>(src, c, &mut m, s);
                Ok(m)
            }
        }
    };
}
curved_x!(C2, 2);
curved_x!(C3, 3);
curved_x!(C2F, 2);
curved_x!(X3, 3);
#[cfg(feature = "bevy")]
curved_x!(procedural_modelling::extensions::bevy::BevyMeshType2d32, 2);
fn some_solid<T: P3>(src: &mut Src, c: &mut Ctx) -> Result<Me<T>, Fail> {
    let kind = src.usize(0, KINDS - 1);
    let r = match primitive::<T>(src, c, kind, None)? {
        Some((m, _)) if m.num_edges() < 600 => m,
        _ => Me::<T>::cube(T::S::ONE),
    };
    Ok(r)
}
impl X<3> for MeshType3d64PNU {
    fn make(src: &mut Src, c: &mut Ctx) -> Result<Me<Self>, Fail> {
        some_solid(src, c)
    }
}
#[cfg(feature = "bevy")]
impl X<3> for procedural_modelling::extensions::bevy::BevyMeshType3d32 {
    fn make(src: &mut Src, c: &mut Ctx) -> Result<Me<Self>, Fail> {
        some_solid(src, c)
    }
}
fn polygons<const D: usize>(src: &mut Src) -> Me<MeshTypeNd64PNU<D>> {
    let mut m = Me::<MeshTypeNd64PNU<D>>::new();
    for _ in 0..src.few(1, 3, 30) {
        let n = src.few(3, 8, 80);
        let vps: Vec<VertexPayloadPNU<f64, D>> = (0..n).map(|_| VertexPayloadPNU::from_pos(VecN::from_fn(|_, _| small(src)))).collect();
        if src.chance(1, 4) {
            m.insert_path(vps);
        } else {
            m.insert_polygon(vps);
        }
    }
    m
}
impl X<2> for MeshTypeNd64PNU<2> {
    fn make(src: &mut Src, _: &mut Ctx) -> Result<Me<Self>, Fail> {
        Ok(polygons(src))
    }
}
impl X<4> for MeshTypeNd64PNU<4> {
    fn make(src: &mut Src, _: &mut Ctx) -> Result<Me<Self>, Fail> {
        Ok(polygons(src))
    }
}

pub type Links = (Vec<(usize, Option<usize>)>, Vec<[usize; 7]>, Vec<(usize, usize, bool)>);
pub fn links<T: HalfEdgeImplMeshType>(s: &Snap<T>) -> Links {
    (
        s.v.iter().map(|(i, v)| (*i, v.edge)).collect(),
        s.e.iter().map(|(i, h)| [*i, h.twin, h.next, h.prev, h.org, h.face.is_some() as usize, h.face.unwrap_or(0)]).collect(),
        s.f.iter().map(|(i, f)| (*i, f.edge, f.curved)).collect(),
    )
}
fn gather<T: X<D>, const D: usize>(m: &Me<T>, s: &Snap<T>) -> Vec<(String, Parts<D>)> {
    let mut r: Vec<(String, Parts<D>)> = s.v.iter().map(|(i, v)| (format!("vertex {}", i), v.vp.parts())).collect();
    r.extend(s.e.iter().map(|(i, h)| (format!("edge {}", i), h.ep.parts())));
    r.extend(s.f.iter().map(|(i, f)| (format!("face {}", i), f.fp.parts())));
    r.push(("mesh".into(), m.payload().parts()));
    r
}

fn whole<T: X<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res {
    type A<T, const D: usize> = <T as EuclideanMeshType<D>>::Trans;
    let mut m = T::make(src, c)?;
    // sparse ids
    let fs: Vec<T::F> = m.face_ids().collect();
    if fs.len() > 2 && src.chance(1, 3) {
        let f = *src.pick(&fs);
        m.remove_face(f);
        c.label("a face removed");
    }
    for v in m.vertices_mut() {
        v.payload_mut().dress(src);
    }
    for e in m.edges_mut() {
        e.payload_mut().dress(src);
    }
    for f in m.faces_mut() {
        f.payload_mut().dress(src);
    }
    m.payload_mut().dress(src);
    let s0 = snap(&m);
    let g0 = gather::<T, D>(&m, &s0);
    let kind = src.below(if A::<T, D>::ROT { 4 } else { 3 });
    let name = ["translate", "scale", "transform", "rotate"][kind as usize];
    // the non-mutating variant first
    let mut n = m.clone();
    let (r, o, rigid) = match kind {
        0 => {
            let v = rv::<A<T, D>, D>(src);
            c.log(|| format!("translate by {:?}", v));
            let v2 = A::<T, D>::ve(v);
            let o = m.translated(&v2);
            n.translate(&v2);
            (Ref::translation(v), o, true)
        }
        1 => {
            let u = src.bool();
            let v = rs::<A<T, D>, D>(src, u);
            c.log(|| format!("scale by {:?}", v));
            let v2 = A::<T, D>::ve(v);
            let o = m.scaled(&v2);
            n.scale(&v2);
            (Ref::scale(v), o, false)
        }
        2 => {
            let mut l = String::new();
            let k = class::<A<T, D>, D>(src);
            let (a, r) = random_map::<A<T, D>, D>(src, k, 2, &mut l);
            c.log(|| format!("transform with {}", l));
            let o = m.transformed(&a);
            n.transform(&a);
            // only rotations and translations were used
            let rigid = (0..D).all(|i| (0..D).all(|j| {
                let x: f64 = (0..D).map(|k| r.m[k][i] * r.m[k][j]).sum();
                (x - if i == j { 1.0 } else { 0.0 }).abs() < 1e-9
            })) && det(&r.m) > 0.0;
            (r, o, rigid)
        }
        _ => {
            let (q, x) = A::<T, D>::rot(src);
            c.log(|| format!("rotate by {:?}", x));
            let o = m.rotated(&q);
            n.rotate(&q);
            (Ref::rotation(x), o, true)
        }
    };
    let s1 = snap(&m);
    ensure!(s1.same(&s0) && gather::<T, D>(&m, &s1) == g0, "original", "{}d changes the original", name);
    let (so, sn) = (snap(&o), snap(&n));
    ensure!(so.same(&sn) && o.payload() == n.payload(), "variants", "the results of {} and {}d differ", name, name);
    ensure!(links(&so) == links(&s0), "links", "{} changes links: {:?}, expected {:?}", name, links(&so), links(&s0));
    ensure_eq!((o.num_vertices(), o.num_edges(), o.num_faces()), (m.num_vertices(), m.num_edges(), m.num_faces()), "links", "counts after {}", name);
    let g1 = gather::<T, D>(&o, &so);
    let mut dirs = 0;
    for ((l, a), (_, b)) in g0.iter().zip(&g1) {
        ensure_eq!(b.2, a.2, "other", "{} after {}", l, name);
        ensure_eq!(b.0.len(), a.0.len(), "other", "number of points of {} after {}", l, name);
        for (p, q) in a.0.iter().zip(&b.0) {
            let w = r.at(*p);
            let tol = A::<T, D>::EPS * (r.bound(*p) + 1e-30);
            ensure!((0..D).all(|i| (q[i] - w[i]).abs() <= tol), "point", "{}: {} moves the point {:?} to {:?}, expected {:?}", l, name, p, q, w);
        }
        for (p, q) in a.1.iter().zip(&b.1) {
            if kind == 0 {
                ensure!(p == q, "direction", "{}: translating changes the normal {:?} to {:?}", l, p, q);
            }
            if rigid {
                let w = r.vec(*p);
                let tol = A::<T, D>::EPS * (r.bound(*p) + 1e-30);
                ensure!((0..D).all(|i| (q[i] - w[i]).abs() <= tol), "direction", "{}: {} turns the normal {:?} to {:?}, expected {:?}", l, name, p, q, w);
                dirs += 1;
            }
        }
    }
    c.label(name);
    if g0.len() > 10 && (dirs > 0 || kind == 1) {
        c.nontrivial();
    }
    Ok(())
}
fn det<const D: usize>(m: &[[f64; D]; D]) -> f64 {
    let mut m = *m;
    let mut d = 1.0;
    for i in 0..D {
        let p = (i..D).max_by(|a, b| m[*a][i].abs().partial_cmp(&m[*b][i].abs()).unwrap()).unwrap();
        if m[p][i] == 0.0 {
            return 0.0;
        }
        if p != i {
            m.swap(p, i);
            d = -d;
        }
        d *= m[i][i];
        for r in i + 1..D {
            let k = m[r][i] / m[i][i];
            for j in i..D {
                m[r][j] -= k * m[i][j];
            }
        }
    }
    d
}

/// Evaluating curves and transforming commute.
fn commute<T: X<D> + CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    type A<T, const D: usize> = <T as EuclideanMeshType<D>>::Trans;
    let m = <T as X<D>>::make(src, c)?;
    let mut l = String::new();
    let k = class::<A<T, D>, D>(src);
    let (a, r) = random_map::<A<T, D>, D>(src, k, 2, &mut l);
    c.log(|| format!("transform with {}", l));
    let o = m.transformed(&a);
    let ids: Vec<T::E> = m.edge_ids().collect();
    for id in ids {
        let (e, f) = (m.edge(id), o.edge(id));
        let k = e.curve_type();
        for _ in 0..3 {
            let t = crate::poly::sc::<T::S>(src.real(0.0, 1.0));
            let p = A::<T, D>::co(&k.point_at(e, &m, t));
            let q = A::<T, D>::co(&f.curve_type().point_at(f, &o, t));
            let w = r.at(p);
            let size = A::<T, D>::co(&m.vertex(e.origin_id()).pos());
            let mut b = r.bound(size) + r.bound(A::<T, D>::co(&e.target(&m).pos())) + r.bound([0.0; D]);
            for x in e.payload().parts().0 {
                b += r.bound(x);
            }
            ensure!((0..D).all(|i| (q[i] - w[i]).abs() <= 20.0 * A::<T, D>::EPS * (b + 1e-30)), "commute", "edge {} at {}: transformed {:?}, evaluated after transforming {:?}", id, t, w, q);
        }
        if !matches!(k, CurvedEdgeType::Linear) {
            c.nontrivial();
        }
    }
    Ok(())
}

/// Interpolating vertex payloads.
fn blend<T: X<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res {
    type A<T, const D: usize> = <T as EuclideanMeshType<D>>::Trans;
    let mut a = T::VP::from_pos(A::<T, D>::ve(rv::<A<T, D>, D>(src)));
    let mut b = T::VP::from_pos(A::<T, D>::ve(rv::<A<T, D>, D>(src)));
    a.dress(src);
    b.dress(src);
    let t = match src.below(4) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => src.real(-1.0, 2.0),
    };
    let ts = crate::poly::sc::<T::S>(t);
    let t = ts.to_f64();
    let x = a.lerped(&b, ts);
    let mut y = a.clone();
    y.lerp(&b, ts);
    ensure!(x == y, "variants", "the results of lerp and lerped differ");
    let (p, q, g) = (a.parts(), b.parts(), x.parts());
    let flat = |p: &Parts<D>| -> Vec<f64> { p.0.iter().chain(&p.1).flatten().chain(&p.2).copied().collect() };
    let (p, q, g) = (flat(&p), flat(&q), flat(&g));
    c.log(|| format!("{:?} to {:?} at {}", p, q, t));
    for i in 0..p.len() {
        let w = p[i] * (1.0 - t) + q[i] * t;
        ensure!((g[i] - w).abs() <= 4.0 * A::<T, D>::EPS * (p[i].abs() + q[i].abs()) * (1.0 + t.abs()), "blend", "interpolating {:?} and {:?} at {} gives {:?}", p, q, t, g);
    }
    if t != 0.0 && t != 1.0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn targets19<T: X<D>, const D: usize>(n: [&'static str; 2], q: u64) -> Vec<Target> {
    vec![target(n[0], q, 30 * q, whole::<T, D>), target(n[1], 4 * q, 120 * q, blend::<T, D>)]
}
pub fn curved19<T: X<D> + CM<D>, const D: usize>(n: &'static str, q: u64) -> Target
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    target(n, q, 30 * q, commute::<T, D>)
}
pub fn prop19_with(extra: Vec<Target>) -> Property {
    let mut targets = targets19::<C2, 2>(["curved_2d", "blend_2d"], 300000);
    targets.extend(targets19::<C3, 3>(["curved_3d", "blend_3d"], 300000));
    targets.extend(targets19::<C2F, 2>(["curved_2d_f32", "blend_2d_f32"], 200000));
    targets.extend(targets19::<X3, 3>(["payloads_3d", "blend_x3"], 300000));
    targets.extend(targets19::<MeshType3d64PNU, 3>(["solids_3d", "blend_3d_pnu"], 120000));
    targets.extend(targets19::<MeshTypeNd64PNU<2>, 2>(["polygons_2d", "blend_2d_pnu"], 200000));
    targets.extend(targets19::<MeshTypeNd64PNU<4>, 4>(["polygons_4d", "blend_4d_pnu"], 200000));
    targets.push(curved19::<C2, 2>("commute_2d", 300000));
    targets.push(curved19::<C3, 3>("commute_3d", 300000));
    targets.push(curved19::<C2F, 2>("commute_2d_f32", 200000));
    targets.extend(extra);
    Property {
        id: "P19",
        rule: "random curved meshes, polygons and solids with random normals, texture coordinates, face and mesh payloads, one of translate/scale/rotate/transform with a random map in both variants; non-trivial: more than ten elements, with directions to compare or stretched; curves: at least one curved edge; interpolation: parameter other than 0 and 1",
        assumptions: &["normals are only judged under rotations and translations", "interpolation of curved edge payloads is unfinished in the library"],
        targets,
        known: vec![],
    }
}
