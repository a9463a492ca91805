//! Conversions between mesh types and backends (P25).
use crate::cm::*;
use crate::model::*;
use crate::p07::{primitive, KINDS};
use crate::p16::{bend, curved_mesh};
use crate::p19::Geo;
use crate::poly::*;
use engine::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

type Me<T> = HalfEdgeMeshImpl<T>;
/// positions as bit patterns
type Tag = Vec<u64>;
pub fn tag(p: &[f64]) -> Tag {
    p.iter().map(|x| (x + 0.0).to_bits()).collect()
}

/// Names the vertices by position and compares everything else. `Ok(false)`: two vertices coincide.
pub fn compare<A: HalfEdgeImplMeshType, B: HalfEdgeImplMeshType>(a: &Snap<A>, b: &Snap<B>, ta: &dyn Fn(&A::VP) -> Tag, tb: &dyn Fn(&B::VP) -> Tag, flags: bool) -> Result<Option<BTreeMap<usize, usize>>, Fail> {
    if let Err(d) = a.audit() {
        return fail("setup", d);
    }
    ensure_eq!((b.v.len(), b.e.len(), b.f.len()), (a.v.len(), a.e.len(), a.f.len()), "counts", "vertices, half-edges and faces of the converted mesh");
    if let Err(d) = b.audit() {
        return fail("audit", format!("the converted mesh is broken: {}", d));
    }
    let mut names: BTreeMap<Tag, usize> = BTreeMap::new();
    for (i, v) in &a.v {
        if names.insert(ta(&v.vp), *i).is_some() {
            return Ok(None);
        }
    }
    let mut map: BTreeMap<usize, usize> = BTreeMap::new(); // of b to a
    let mut used = BTreeSet::new();
    for (i, v) in &b.v {
        let t = tb(&v.vp);
        let Some(k) = names.get(&t) else {
            let p: Vec<f64> = t.iter().map(|x| f64::from_bits(*x)).collect();
            return fail("position", format!("vertex {} of the converted mesh is at {:?}, no vertex of the original is", i, p));
        };
        ensure!(used.insert(*k), "position", "two vertices of the converted mesh are at the position of vertex {}", k);
        map.insert(*i, *k);
    }
    // faces and holes as cyclic lists of vertices, and what each half-edge sees on both sides
    type Side = (bool, bool, Vec<usize>);
    fn sides<T: HalfEdgeImplMeshType>(s: &Snap<T>, name: &dyn Fn(usize) -> usize, flags: bool) -> (Vec<Side>, Vec<(usize, usize, usize, usize)>) {
        let mut of = BTreeMap::new();
        let mut all: Vec<Side> = vec![];
        let walks = s.walks();
        for w in &walks {
            let f = s.face(w[0]);
            let k: Side = (f.is_some(), flags && f.is_some_and(|f| s.f[&f].curved), canon(&w.iter().map(|e| name(s.org(*e))).collect::<Vec<_>>()));
            for e in w {
                of.insert(*e, k.clone());
            }
            all.push(k);
        }
        all.sort();
        let mut idx: BTreeMap<Side, usize> = BTreeMap::new();
        for k in &all {
            let n = idx.len();
            idx.entry(k.clone()).or_insert(n);
        }
        let mut es: Vec<(usize, usize, usize, usize)> = s.e.keys().map(|e| (name(s.org(*e)), name(s.tgt(*e)), idx[&of[e]], idx[&of[&s.twin(*e)]])).collect();
        es.sort();
        (all, es)
    }
    let (fa, ea) = sides(a, &|v| v, flags);
    let (fb, eb) = sides(b, &|v| map[&v], flags);
    for (x, y) in fa.iter().zip(&fb) {
        ensure!(x == y, "cycles", "the converted mesh has the boundary {:?} where the original has {:?} (face?, curved?, vertices)", y, x);
    }
    ensure_eq!(fb.len(), fa.len(), "cycles", "number of faces and holes");
    for (x, y) in ea.iter().zip(&eb) {
        ensure!(x == y, "twins", "the converted mesh has the half-edge {:?} where the original has {:?} (from, to, side, other side)", y, x);
    }
    Ok(Some(map))
}

/// Sometimes vertices without edges.
fn lonely<T: HalfEdgeImplMeshType<Mesh = HalfEdgeMeshImpl<T>>>(src: &mut Src, c: &mut Ctx, m: &mut Me<T>, vp: impl Fn(f64) -> T::VP) {
    if src.chance(1, 5) {
        for i in 0..src.usize(1, 3) {
            m.add_vertex(vp(i as f64));
        }
        c.label("isolated vertices");
    }
}

/// Normals and texture coordinates of any length.
fn dress<const D: usize>(src: &mut Src, v: &mut VertexPayloadPNU<f64, D>) {
    v.dress(src);
    if src.chance(1, 3) {
        let k = src.scale(-60, 40);
        let (n, u) = (*v.normal() * k, *v.uv() * k);
        v.set_normal(n);
        v.set_uv(u);
    }
}

fn to_nd<const D: usize>(src: &mut Src, c: &mut Ctx) -> Res {
    let s = *src.pick(&[1.0, 64.0]);
    let mut m = curved_mesh::<C2, 2>(src, c, s)?;
    if src.chance(2, 3) {
        bend::<C2, 2>(src, c, &mut m, s);
    }
    let fs: Vec<usize> = m.face_ids().collect();
    if fs.len() > 1 && src.bool() {
        let f = *src.pick(&fs);
        m.remove_face(f);
        c.label("sparse face ids");
    }
    lonely::<C2>(src, c, &mut m, |x| VertexPayloadPNU::from_pos(nalgebra::SVector::<f64, 2>::new(x, -1e6)));
    let dressed = src.bool();
    if dressed {
        c.label("normals and uv");
        for v in m.vertices_mut() {
            dress(src, v.payload_mut());
        }
    }
    let tol = s * *src.pick(&[0.01, 0.1, 1.0]);
    c.log(|| format!("converted to {} dimensions with tolerance {}", D, tol));
    let before = snap(&m);
    let n = m.to_nd::<D>(tol);
    ensure!(before.same(&snap(&m)), "source", "the conversion changes its source");
    let curved = m.has_curved_edges();
    let mut flat = m.clone();
    flat.flatten_curved_edges(tol);
    if flat.num_edges() > 3000 {
        return c.discard();
    }
    let (a, b) = (snap(&flat), snap(&n));
    let pad = |x: [f64; 2]| -> Vec<f64> { (0..D).map(|i| if i < 2 { x[i] } else { 0.0 }).collect() };
    let ta = |v: &VertexPayloadPNU<f64, 2>| tag(&pad([v.pos()[0], v.pos()[1]]));
    let tb = |v: &VertexPayloadPNU<f64, D>| tag(v.pos().as_slice());
    let Some(map) = compare(&a, &b, &ta, &tb, true)? else { return c.discard() };
    for (i, v) in &b.v {
        let o = &a.v[&map[i]].vp;
        ensure!(v.vp.uv() == o.uv(), "uv", "the texture coordinates of a vertex change from {:?} to {:?}", o.uv(), v.vp.uv());
        ensure!(v.vp.normal().as_slice() == pad([o.normal()[0], o.normal()[1]]).as_slice(), "normal", "the normal of a vertex changes from {:?} to {:?}", o.normal(), v.vp.normal());
    }
    ensure_eq!(n.is_open(), m.is_open(), "open", "is_open of the converted mesh");
    ensure!(n.check().is_ok() == flat.check().is_ok(), "check", "check() of the flattened mesh: {:?}, of the converted one: {:?}", flat.check(), n.check());
    c.label(if curved { "curved" } else { "straight" });
    if m.num_faces() > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// A mesh of solids, polygons, paths and holes with distinct positions, sparse ids and curved faces.
pub fn patchwork<T: P3>(src: &mut Src, c: &mut Ctx) -> Result<Me<T>, Fail>
where
    T::VP: HasPosition<3, T::Vec, S = T::S>,
{
    let mut m = Me::<T>::new();
    if src.chance(1, 4) {
        // leave freed slots behind
        let k = src.usize(3, 9);
        m.insert_polygon((0..k).map(|i| T::VP::from_pos(T::Vec::from_xyz(sc(i as f64), sc(0.5), sc(0.0)))));
        m.clear();
        c.label("reused slots");
    }
    let parts = if T::CAPS < 100 { 1 } else { src.usize(1, 3) };
    let mut t = 0.0;
    for _ in 0..parts {
        t += 16.0;
        match src.below(4) {
            0 | 1 => {
                let kind = src.usize(0, KINDS - 1);
                let r = primitive::<T>(src, c, kind, None)?;
                if let Some((p, _)) = r {
                    if m.num_vertices() == 0 && p.num_edges() < 600 && src.bool() {
                        m = p;
                    } else if m.num_edges() < 400 {
                        let h: usize = src.usize(0, KINDS - 1);
                        primitive::<T>(src, c, h, Some(&mut m))?;
                    }
                }
            }
            _ => {
                let k = if T::CAPS < 1000 { src.usize(3, 7) } else { src.few(3, 7, 300) };
                let z = src.real(-1.0, 1.0);
                let vps: Vec<T::VP> = (0..k)
                    .map(|i| {
                        let a = std::f64::consts::TAU * i as f64 / k as f64;
                        T::VP::from_pos(T::Vec::from_xyz(sc(t + a.cos()), sc(a.sin()), sc(z)))
                    })
                    .collect();
                match src.below(4) {
                    0 => {
                        m.insert_path(vps);
                        c.log(|| format!("path of {}", k));
                    }
                    1 => {
                        let e = m.insert_loop(vps);
                        c.log(|| format!("empty loop of {}", k));
                        if src.bool() {
                            let e = if src.bool() { e } else { m.edge(e).twin_id() };
                            m.close_hole(e, Default::default(), true);
                            c.label("curved face");
                        }
                    }
                    2 => {
                        let e = m.insert_polygon(vps);
                        let tr = <T::Trans as TransformTrait<T::S, 3>>::from_translation(T::Vec::from_xyz(sc(0.0), sc(0.0), sc(2.0)));
                        if src.bool() {
                            m.extrude(e, tr);
                        } else {
                            m.extrude_tri(e, tr);
                        }
                        c.log(|| format!("extruded polygon of {}", k));
                    }
                    _ => {
                        m.insert_polygon(vps);
                        c.log(|| format!("polygon of {}", k));
                    }
                }
            }
        }
    }
    for _ in 0..src.usize(0, 2) {
        let fs: Vec<T::F> = m.face_ids().collect();
        if fs.len() > 1 {
            let f = *src.pick(&fs);
            m.remove_face(f);
            c.label("sparse face ids");
        }
    }
    Ok(m)
}

#[cfg(feature = "bevy")]
pub mod bv {
    use super::*;
    use crate::p13::rotation;
    use bevy::asset::RenderAssetUsages;
    use bevy::math::{Quat, Vec2, Vec3};
    use bevy::mesh::{Indices, Mesh as Bevy, PrimitiveTopology, VertexAttributeValues};
    use procedural_modelling::extensions::bevy::*;

    macro_rules! bevy_types {
        ($n:ident, $i:ty, $cap:expr) => {
            #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
            pub struct $n;
            impl MeshType for $n {
                type E = $i;
                type V = $i;
                type F = $i;
                type EP = EmptyEdgePayload<Self>;
                type VP = BevyVertexPayload3d;
                type FP = EmptyFacePayload<Self>;
                type MP = EmptyMeshPayload<Self>;
                type Mesh = HalfEdgeMeshImpl<Self>;
                type Face = HalfEdgeFaceImpl<Self>;
                type Edge = HalfEdgeImpl<Self>;
                type Vertex = HalfEdgeVertexImpl<Self>;
            }
            impl EuclideanMeshType<3> for $n {
                type S = f32;
                type Vec = Vec3;
                type Vec2 = Vec2;
                type Trans = bevy::transform::components::Transform;
                type Rot = Quat;
                type Poly = Polygon2dBevy;
            }
            impl HalfEdgeImplMeshType for $n {}
            impl MeshTypeHalfEdge for $n {}
            impl MeshType3D for $n {}
            impl P3 for $n {
                const TOL: f64 = 2e-5;
                const CAPS: usize = $cap;
            }
        };
    }
    bevy_types!(B16, u16, 9000);
    bevy_types!(B8, u8, 36);

    pub fn from_double(src: &mut Src, c: &mut Ctx) -> Res {
        let mut m = patchwork::<MeshType3d64PNU>(src, c)?;
        lonely::<MeshType3d64PNU>(src, c, &mut m, |x| VertexPayloadPNU::from_pos(nalgebra::SVector::<f64, 3>::new(x, -1e6, 0.0)));
        let full = src.bool();
        let k = src.scale(-3, 10);
        for v in m.vertices_mut() {
            let p = v.payload().pos().map(|x| if full { x * k } else { x });
            v.payload_mut().set_pos(p);
            dress(src, v.payload_mut());
        }
        let a = snap(&m);
        if let Err(d) = a.audit() {
            return fail("setup", d);
        }
        let n = BevyMesh3d::from(&m);
        let b = snap(&n);
        let ta = |v: &VertexPayloadPNU<f64, 3>| tag(&[v.pos()[0] as f32 as f64, v.pos()[1] as f32 as f64, v.pos()[2] as f32 as f64]);
        let tb = |v: &BevyVertexPayload3d| tag(&[v.pos().x as f64, v.pos().y as f64, v.pos().z as f64]);
        let Some(map) = compare(&a, &b, &ta, &tb, true)? else { return c.discard() };
        for (i, v) in &b.v {
            let o = &a.v[&map[i]].vp;
            let w = Vec3::new(o.normal()[0] as f32, o.normal()[1] as f32, o.normal()[2] as f32);
            ensure!(*v.vp.normal() == w, "normal", "the normal {:?} becomes {:?}", o.normal(), v.vp.normal());
            let w = Vec2::new(o.uv()[0] as f32, o.uv()[1] as f32);
            ensure!(*v.vp.uv() == w, "uv", "the texture coordinates {:?} become {:?}", o.uv(), v.vp.uv());
        }
        ensure_eq!(n.is_open(), m.is_open(), "open", "is_open of the converted mesh");
        ensure!(n.check().is_ok() == m.check().is_ok(), "check", "check() of the mesh: {:?}, of the converted one: {:?}", m.check(), n.check());
        if m.num_faces() > 1 {
            c.nontrivial();
        }
        Ok(())
    }

    pub fn to_3d(src: &mut Src, c: &mut Ctx) -> Res {
        let s = *src.pick(&[1.0, 64.0]);
        let mut m = curved_mesh::<BevyMeshType2d32, 2>(src, c, s)?;
        if src.chance(2, 3) {
            bend::<BevyMeshType2d32, 2>(src, c, &mut m, s);
        }
        let fs: Vec<u32> = m.face_ids().collect();
        if fs.len() > 1 && src.bool() {
            m.remove_face(*src.pick(&fs));
            c.label("sparse face ids");
        }
        lonely::<BevyMeshType2d32>(src, c, &mut m, |x| BevyVertexPayload2d::from_pos(Vec2::new(x as f32, -1e6)));
        let tol = (s * *src.pick(&[0.01, 0.1, 1.0])) as f32;
        let before = snap(&m);
        let n = m.to_3d(tol);
        ensure!(before.same(&snap(&m)), "source", "the conversion changes its source");
        let mut flat = m.clone();
        flat.flatten_curved_edges(tol);
        if flat.num_edges() > 3000 {
            return c.discard();
        }
        let (a, b) = (snap(&flat), snap(&n));
        let ta = |v: &BevyVertexPayload2d| tag(&[v.pos().x as f64, v.pos().y as f64, 0.0]);
        let tb = |v: &BevyVertexPayload3d| tag(&[v.pos().x as f64, v.pos().y as f64, v.pos().z as f64]);
        if compare(&a, &b, &ta, &tb, true)?.is_none() {
            return c.discard();
        }
        ensure_eq!(n.is_open(), m.is_open(), "open", "is_open of the converted mesh");
        c.label(if m.has_curved_edges() { "curved" } else { "straight" });
        if m.num_faces() > 0 {
            c.nontrivial();
        }
        Ok(())
    }

    type Corner = ([u32; 3], [u32; 3]);
    fn corner(v: &BevyVertexPayload3d) -> Corner {
        (v.pos().to_array().map(|x| (x + 0.0).to_bits()), v.normal().to_array().map(|x| (x + 0.0).to_bits()))
    }
    fn sorted(mut t: Vec<Vec<Corner>>) -> Vec<Vec<Corner>> {
        t = t.iter().map(|x| canon(x)).collect();
        t.sort();
        t
    }
    /// the triangles of an exported mesh
    fn read(b: &Bevy) -> Result<Vec<Vec<Corner>>, Fail> {
        ensure!(b.primitive_topology() == PrimitiveTopology::TriangleList, "topology", "{:?}", b.primitive_topology());
        let get = |a| match b.attribute(a) {
            Some(VertexAttributeValues::Float32x3(v)) => Ok(v.clone()),
            x => fail("attributes", format!("an attribute is {:?}", x.map(|x| x.len()))),
        };
        let (p, n) = (get(Bevy::ATTRIBUTE_POSITION)?, get(Bevy::ATTRIBUTE_NORMAL)?);
        for (a, v) in b.attributes() {
            ensure!(v.len() == p.len(), "attributes", "attribute {} has {} entries for {} vertices", a.name, v.len(), p.len());
        }
        ensure_eq!(n.len(), p.len(), "attributes", "number of normals");
        let is: Vec<usize> = match b.indices() {
            Some(Indices::U32(i)) => i.iter().map(|x| *x as usize).collect(),
            Some(Indices::U16(i)) => i.iter().map(|x| *x as usize).collect(),
            None => return fail("indices", "no indices"),
        };
        ensure!(is.len() % 3 == 0, "indices", "{} indices", is.len());
        let mut r = vec![];
        for t in is.chunks(3) {
            let mut x = vec![];
            for i in t {
                ensure!(*i < p.len(), "indices", "index {} for {} vertices", i, p.len());
                x.push((p[*i].map(|x| (x + 0.0).to_bits()), n[*i].map(|x| (x + 0.0).to_bits())));
            }
            r.push(x);
        }
        Ok(sorted(r))
    }

    pub fn export<T: P3 + MeshType<VP = BevyVertexPayload3d> + EuclideanMeshType<3, S = f32, Vec = Vec3>>(src: &mut Src, c: &mut Ctx) -> Res {
        let mut m = if src.chance(1, 2) {
            let kind = src.usize(0, KINDS - 1);
            match primitive::<T>(src, c, kind, None)? {
                Some((m, _)) if m.num_edges() < 1500 => m,
                _ => return c.discard(),
            }
        } else {
            patchwork::<T>(src, c)?
        };
        // somewhere in space
        let r = rotation(src);
        let t = Vec3::new(src.real(-3.0, 3.0) as f32, src.real(-3.0, 3.0) as f32, src.real(-3.0, 3.0) as f32);
        let turn = src.bool();
        for v in m.vertices_mut() {
            let p = v.payload().pos().to_array().map(|x| x as f64);
            if turn {
                let q: [f64; 3] = std::array::from_fn(|i| (0..3).map(|j| r[i][j] * p[j]).sum());
                v.payload_mut().set_pos(Vec3::new(q[0] as f32, q[1] as f32, q[2] as f32) + t);
            }
            if src.bool() {
                let k = if src.chance(1, 3) { src.scale(-60, 40) as f32 } else { 1.0 };
                v.payload_mut().set_normal(Vec3::new(src.int(-8, 8) as f32, src.int(-8, 8) as f32, src.int(-8, 8) as f32) * k);
            }
        }
        let algo = || [TriangulationAlgorithm::Auto, TriangulationAlgorithm::EarClipping, TriangulationAlgorithm::Delaunay, TriangulationAlgorithm::Sweep, TriangulationAlgorithm::SweepDelaunay];
        let which = src.usize(0, 4);
        let ex = src.bool();
        let flat = ex && src.bool();
        let a = |ex: bool| algo()[if ex { which } else { 0 }];
        c.log(|| format!("{} vertices, {} faces; extended {}, flat {}, algorithm {}", m.num_vertices(), m.num_faces(), ex, flat, which));
        let want = catch(|| {
            if flat { m.triangulate_and_generate_flat_normals_post(a(ex), &mut Default::default()) } else { m.triangulate(a(ex), &mut Default::default()) }
        });
        let Ok((is, vs)) = want else { return c.discard() }; // not a question of the export
        let nan = |v: &BevyVertexPayload3d| v.normal().is_nan() || v.pos().is_nan();
        if vs.iter().any(nan) {
            return c.discard();
        }
        let want = sorted(is.chunks(3).map(|t| t.iter().map(|i| corner(&vs[i.index()])).collect()).collect());
        let kind = src.below(3);
        let usage = *src.pick(&[RenderAssetUsages::MAIN_WORLD, RenderAssetUsages::default()]);
        let b = match kind {
            0 => {
                if ex { m.to_bevy_ex(usage, a(ex), flat) } else { m.to_bevy(usage) }
            }
            _ => {
                // into a mesh with a past
                c.label("replaced");
                let k = match src.below(3) {
                    0 => m.num_vertices(),
                    1 => want.len() * 3,
                    _ => src.usize(0, 9) * 3,
                };
                let mut b = Bevy::new(PrimitiveTopology::TriangleList, usage);
                b.insert_attribute(Bevy::ATTRIBUTE_POSITION, vec![[9.0f32, 9.0, 9.0]; k]);
                if src.bool() {
                    b.insert_attribute(Bevy::ATTRIBUTE_UV_0, vec![[0.123f32, 0.77]; k]);
                }
                if src.bool() {
                    b.insert_attribute(Bevy::ATTRIBUTE_COLOR, vec![[0.5f32; 4]; k]);
                }
                if src.bool() {
                    b.insert_attribute(Bevy::ATTRIBUTE_NORMAL, vec![[0.0f32, 0.0, 1.0]; k]);
                }
                if src.bool() {
                    b.insert_attribute(Bevy::ATTRIBUTE_TANGENT, vec![[0.0f32, 0.0, 1.0, 1.0]; k]);
                }
                if src.bool() {
                    b.insert_indices(Indices::U16((0..k as u16).collect()));
                }
                if kind == 2 {
                    // twice
                    m.bevy_set(&mut b);
                }
                if ex { m.bevy_set_ex(&mut b, a(ex), flat, &mut Default::default()) } else { m.bevy_set(&mut b) }
                ensure!(b.attribute(Bevy::ATTRIBUTE_COLOR).is_none() && b.attribute(Bevy::ATTRIBUTE_TANGENT).is_none(), "replaced", "old attributes remain");
                let stale = match b.attribute(Bevy::ATTRIBUTE_UV_0) {
                    Some(VertexAttributeValues::Float32x2(v)) => v.contains(&[0.123f32, 0.77]),
                    _ => false,
                };
                ensure!(!stale, "replaced", "old texture coordinates remain");
                b
            }
        };
        ensure!(b.asset_usage == usage, "usage", "the usage is {:?} instead of {:?}", b.asset_usage, usage);
        let got = read(&b)?;
        ensure_eq!(got.len(), want.len(), "triangles", "number of triangles");
        let f = |t: &Vec<Corner>| -> Vec<[f32; 6]> {
            t.iter().map(|(p, n)| { let g = |i: usize| f32::from_bits(if i < 3 { p[i] } else { n[i - 3] }); [g(0), g(1), g(2), g(3), g(4), g(5)] }).collect()
        };
        for (g, w) in got.iter().zip(&want) {
            ensure!(g == w, "triangles", "the export has the triangle {:?}, the triangulation has {:?} (positions and normals)", f(g), f(w));
        }
        if want.len() > 1 {
            c.nontrivial();
        }
        Ok(())
    }

    pub fn targets25() -> Vec<Target> {
        vec![
            target("from_double_bevy", 40000, 1200000, from_double),
            target("to_3d_bevy", 20000, 600000, to_3d),
            target("export_u32", 15000, 600000, export::<BevyMeshType3d32>),
            target("export_u16", 8000, 400000, export::<B16>),
            target("export_u8", 5000, 200000, export::<B8>),
        ]
    }
}

pub fn prop25_with(extra: Vec<Target>) -> Property {
    let mut targets = vec![
        target("to_nd_2", 10000, 400000, to_nd::<2>),
        target("to_nd_3", 20000, 700000, to_nd::<3>),
        target("to_nd_5", 10000, 400000, to_nd::<5>),
    ];
    targets.extend(extra);
    Property {
        id: "P25",
        rule: "the mesh has a face (2D), more than one face (3D), more than one triangle (export)",
        assumptions: &[
            "vertices are identified by position; meshes in which two vertices coincide are skipped",
            "curved meshes are compared with their flattened copies (P16 judges the flattening)",
            "the export is compared with triangulate() as a multiset of triangles of positions and normals (P13 judges the triangulation)",
        ],
        targets,
        known: vec![],
    }
}
