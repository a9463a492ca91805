//! Mesh types of the harness: payloads carry identity markers, indices come in four widths.
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;

pub type V3 = VecN<f64, 3>;
pub type V2 = VecN<f64, 2>;
pub type Aff3 = NdAffine<f64, 3>;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct EMark(pub u32);
impl EdgePayload for EMark {
    fn allocate() -> Self {
        EMark(0)
    }
    fn is_empty(&self) -> bool {
        self.0 == 0
    }
}
impl DefaultEdgePayload for EMark {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct FMark(pub u32);
impl FacePayload for FMark {
    fn allocate() -> Self {
        FMark(0)
    }
}
impl DefaultFacePayload for FMark {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct VMark {
    pub pos: V3,
    pub nrm: V3,
    pub id: u32,
}
impl VMark {
    pub fn new(id: u32, x: f64, y: f64, z: f64) -> Self {
        VMark { pos: V3::new(x, y, z), nrm: V3::new(0.0, 0.0, 0.0), id }
    }
}
impl VertexPayload for VMark {
    fn allocate() -> Self {
        VMark::new(0, 0.0, 0.0, 0.0)
    }
}
impl HasPosition<3, V3> for VMark {
    type S = f64;
    fn pos(&self) -> &V3 {
        &self.pos
    }
    fn from_pos(v: V3) -> Self {
        VMark { pos: v, nrm: V3::new(0.0, 0.0, 0.0), id: 0 }
    }
    fn set_pos(&mut self, v: V3) {
        self.pos = v;
    }
}
impl HasNormal<3, V3> for VMark {
    type S = f64;
    fn normal(&self) -> &V3 {
        &self.nrm
    }
    fn set_normal(&mut self, n: V3) {
        self.nrm = n;
    }
}
impl Transformable<3> for VMark {
    type Trans = Aff3;
    type Rot = NdRotate<f64, 3>;
    type Vec = V3;
    type S = f64;
    fn transform(&mut self, t: &Aff3) -> &mut Self {
        self.pos = t.apply(self.pos);
        self.nrm = t.apply_vec(self.nrm);
        self
    }
    fn lerp(&mut self, o: &Self, t: f64) -> &mut Self {
        self.pos = self.pos * (1.0 - t) + o.pos * t;
        self.nrm = self.nrm * (1.0 - t) + o.nrm * t;
        self.id = 0;
        self
    }
}
macro_rules! noop_transformable {
    ($t:ty) => {
        impl Transformable<3> for $t {
            type Trans = Aff3;
            type Rot = NdRotate<f64, 3>;
            type Vec = V3;
            type S = f64;
            fn transform(&mut self, _: &Aff3) -> &mut Self {
                self
            }
            fn lerp(&mut self, _: &Self, _: f64) -> &mut Self {
                self
            }
        }
    };
}
noop_transformable!(EMark);
noop_transformable!(FMark);

/// All the capabilities the checks use.
pub trait HT:
    HalfEdgeImplMeshType
    + MeshTypeHalfEdge
    + MeshType<EP = EMark, FP = FMark, VP = VMark, MP = EmptyMeshPayload<Self>>
    + EuclideanMeshType<3, S = f64, Vec = V3, Vec2 = V2, Trans = Aff3, Rot = NdRotate<f64, 3>, Poly = Polygon2d<f64>>
    + MeshType3D
{
    /// how many half-edges (and vertices, faces) fit
    const CAP: usize;
}

macro_rules! def_mt {
    ($n:ident, $i:ty, $cap:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
        pub struct $n;
        impl MeshType for $n {
            type E = $i;
            type V = $i;
            type F = $i;
            type EP = EMark;
            type VP = VMark;
            type FP = FMark;
            type MP = EmptyMeshPayload<Self>;
            type Mesh = HalfEdgeMeshImpl<Self>;
            type Face = HalfEdgeFaceImpl<Self>;
            type Edge = HalfEdgeImpl<Self>;
            type Vertex = HalfEdgeVertexImpl<Self>;
        }
        impl EuclideanMeshType<3> for $n {
            type S = f64;
            type Vec = V3;
            type Vec2 = V2;
            type Trans = Aff3;
            type Rot = NdRotate<f64, 3>;
            type Poly = Polygon2d<f64>;
        }
        impl HalfEdgeImplMeshType for $n {}
        impl MeshTypeHalfEdge for $n {}
        impl MeshType3D for $n {}
        impl HT for $n {
            const CAP: usize = $cap;
        }
    };
}
def_mt!(M8, u8, 250);
def_mt!(M16, u16, 60000);
def_mt!(M32, u32, 1 << 30);
def_mt!(M64, usize, 1 << 30);
pub type Mesh<T> = HalfEdgeMeshImpl<T>;

/// A single-precision nalgebra mesh.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct MF32;
impl MeshType for MF32 {
    type E = u32;
    type V = u32;
    type F = u32;
    type EP = EmptyEdgePayload<Self>;
    type VP = VertexPayloadPNU<f32, 3>;
    type FP = EmptyFacePayload<Self>;
    type MP = EmptyMeshPayload<Self>;
    type Mesh = HalfEdgeMeshImpl<Self>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl EuclideanMeshType<3> for MF32 {
    type S = f32;
    type Vec = VecN<f32, 3>;
    type Vec2 = VecN<f32, 2>;
    type Trans = NdAffine<f32, 3>;
    type Rot = NdRotate<f32, 3>;
    type Poly = Polygon2d<f32>;
}
impl HalfEdgeImplMeshType for MF32 {}
impl MeshTypeHalfEdge for MF32 {}
impl MeshType3D for MF32 {}
