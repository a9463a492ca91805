//! Curved mesh types of several dimensions and scalars, and plain Bezier arithmetic.
use crate::poly::{add, dot, len, mul, sc, sub, D3};
use engine::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;

pub trait CM<const D: usize>:
    HalfEdgeImplMeshType<Mesh = HalfEdgeMeshImpl<Self>>
    + MeshTypeHalfEdge
    + EuclideanMeshType<D>
    + MeshType<Edge = HalfEdgeImpl<Self>, EP = CurvedEdgePayload<D, Self>, FP: DefaultFacePayload>
where
    HalfEdgeImpl<Self>: CurvedEdge<D, Self>,
{
    /// relative tolerance
    const EPS: f64;
}

pub type C2 = MeshType2d64PNUCurved;
impl CM<2> for C2 {
    const EPS: f64 = 1e-12;
}

macro_rules! def_cm {
    ($n:ident, $s:ty, $d:expr, $i:ty, $eps:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
        pub struct $n;
        impl MeshType for $n {
            type E = $i;
            type V = $i;
            type F = $i;
            type EP = CurvedEdgePayload<$d, Self>;
            type VP = VertexPayloadPNU<$s, $d>;
            type FP = EmptyFacePayload<Self>;
            type MP = EmptyMeshPayload<Self>;
            type Mesh = HalfEdgeMeshImpl<Self>;
            type Face = HalfEdgeFaceImpl<Self>;
            type Edge = HalfEdgeImpl<Self>;
            type Vertex = HalfEdgeVertexImpl<Self>;
        }
        impl EuclideanMeshType<$d> for $n {
            type S = $s;
            type Vec = VecN<$s, $d>;
            type Vec2 = VecN<$s, 2>;
            type Trans = NdAffine<$s, $d>;
            type Rot = NdRotate<$s, $d>;
            type Poly = Polygon2d<$s>;
        }
        impl HalfEdgeImplMeshType for $n {}
        impl MeshTypeHalfEdge for $n {}
        impl CurvedEdge<$d, $n> for HalfEdgeImpl<$n> {
            fn curve_type(&self) -> CurvedEdgeType<$d, $n> {
                self.payload().curve_type()
            }
            fn set_curve_type(&mut self, t: CurvedEdgeType<$d, $n>) {
                self.payload_mut().set_curve_type(t);
            }
        }
        impl CM<$d> for $n {
            const EPS: f64 = $eps;
        }
    };
}
def_cm!(C3, f64, 3, u32, 1e-12);
def_cm!(C2F, f32, 2, u16, 2e-6);

#[cfg(feature = "bevy")]
impl CM<2> for procedural_modelling::extensions::bevy::BevyMeshType2d32 {
    const EPS: f64 = 2e-6;
}

/// coordinates of a vector of up to three dimensions
pub fn co<S: Scalar, const D: usize, V: Vector<S, D>>(v: &V) -> D3 {
    [v.x().to_f64(), if D > 1 { v.y().to_f64() } else { 0.0 }, if D > 2 { v.z().to_f64() } else { 0.0 }]
}
pub fn ve<S: Scalar, const D: usize, V: Vector<S, D>>(p: D3) -> V {
    V::from_xyz(sc::<S>(p[0]), sc::<S>(p[1]), sc::<S>(p[2]))
}

/// A Bezier curve of degree one to three.
#[derive(Clone, Debug, PartialEq)]
pub struct Bez(pub Vec<D3>);
impl Bez {
    pub fn at(&self, t: f64) -> D3 {
        // repeated linear interpolation
        let mut l = self.0.clone();
        while l.len() > 1 {
            l = (0..l.len() - 1).map(|i| add(mul(l[i], 1.0 - t), mul(l[i + 1], t))).collect();
        }
        l[0]
    }
    pub fn rev(&self) -> Bez {
        Bez(self.0.iter().rev().copied().collect())
    }
    pub fn size(&self) -> f64 {
        self.0.iter().map(|p| len(*p)).fold(0.0, f64::max)
    }
    /// Finds the parameter nearest to `q` among those in [lo, 1]: all local minima, refined.
    pub fn params(&self, q: D3, tol: f64) -> Vec<f64> {
        let n = 512;
        let d = |t: f64| {
            let x = sub(self.at(t), q);
            dot(x, x)
        };
        let v: Vec<f64> = (0..=n).map(|i| d(i as f64 / n as f64)).collect();
        let mut r = vec![];
        for i in 0..=n {
            let a = if i > 0 { v[i - 1] } else { f64::INFINITY };
            let b = if i < n { v[i + 1] } else { f64::INFINITY };
            if v[i] <= a && v[i] <= b {
                // a finer grid around it (sharp turns), then a search around each of its minima
                let (lo, hi) = ((i as f64 - 1.0).max(0.0) / n as f64, (i as f64 + 1.0).min(n as f64) / n as f64);
                let g = 32;
                let w: Vec<f64> = (0..=g).map(|j| d(lo + (hi - lo) * j as f64 / g as f64)).collect();
                for j in 0..=g {
                    if j > 0 && w[j - 1] < w[j] || j < g && w[j + 1] < w[j] {
                        continue;
                    }
                    let at = |j: f64| (lo + (hi - lo) * j / g as f64).clamp(0.0, 1.0);
                    let (mut lo, mut hi) = (at(j as f64 - 1.0), at(j as f64 + 1.0));
                    let m = at(j as f64);
                    for _ in 0..50 {
                        let (x, y) = (lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618);
                        if d(x) < d(y) { hi = y } else { lo = x }
                    }
                    let mut t = (lo + hi) / 2.0;
                    if d(m) <= d(t) {
                        t = m;
                    }
                    if d(t).sqrt() <= tol {
                        r.push(t);
                    }
                }
            }
        }
        r
    }
}
pub fn seg_dist(p: D3, a: D3, b: D3) -> f64 {
    let d = sub(b, a);
    let l = dot(d, d);
    let t = if l > 0.0 { (dot(sub(p, a), d) / l).clamp(0.0, 1.0) } else { 0.0 };
    len(sub(p, add(a, mul(d, t))))
}

/// A random point within [-s, s], in D dimensions and exactly representable.
pub fn point<S: Scalar, const D: usize>(src: &mut Src, s: f64) -> D3 {
    let grid = src.bool();
    let mut p = [0.0; 3];
    for x in p.iter_mut().take(D) {
        *x = if grid { src.int(-8, 8) as f64 * s / 8.0 } else { src.real(-s, s) };
        *x = sc::<S>(*x).to_f64();
    }
    p
}
/// Random control points of a curve from a to b.
pub fn curve<S: Scalar, const D: usize>(src: &mut Src, c: &mut Ctx, a: D3, b: D3, s: f64) -> Bez {
    let q = |p: D3| p.map(|x| sc::<S>(x).to_f64());
    let cubic = src.bool();
    let k = src.below(8);
    let mut l = vec![a];
    match k {
        0 => {
            c.label("control points on the chord");
            for i in 0..(1 + cubic as usize) {
                let t = (i as f64 + 1.0) / (2.0 + cubic as usize as f64);
                l.push(q(add(mul(a, 1.0 - t), mul(b, t))));
            }
        }
        1 => {
            c.label("control points at the ends");
            l.push(a);
            if cubic {
                l.push(b);
            }
        }
        2 | 3 if cubic => {
            c.label("symmetric S");
            let d = point::<S, D>(src, s);
            l.push(q(add(a, d)));
            l.push(q(sub(b, d)));
        }
        4 if cubic => {
            c.label("loop");
            l.push(q(add(b, mul(sub(b, a), src.real(0.0, 3.0)))));
            l.push(q(sub(a, mul(sub(b, a), src.real(0.0, 3.0)))));
            let w = point::<S, D>(src, s);
            l[1] = q(add(l[1], w));
        }
        _ => {
            for _ in 0..(1 + cubic as usize) {
                l.push(point::<S, D>(src, 2.0 * s));
            }
        }
    }
    l.push(b);
    Bez(l)
}
pub fn kind<T: CM<D>, const D: usize>(b: &Bez) -> CurvedEdgeType<D, T>
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    match b.0.len() {
        3 => CurvedEdgeType::QuadraticBezier(ve(b.0[1])),
        4 => CurvedEdgeType::CubicBezier(ve(b.0[1]), ve(b.0[2])),
        _ => CurvedEdgeType::Linear,
    }
}
/// The curve of a half-edge.
pub fn bez<T: CM<D>, const D: usize>(m: &HalfEdgeMeshImpl<T>, e: T::E) -> Bez
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let h = m.edge(e);
    let a = co(&h.origin(m).pos());
    let b = co(&h.target(m).pos());
    match h.curve_type() {
        CurvedEdgeType::Linear => Bez(vec![a, b]),
        CurvedEdgeType::QuadraticBezier(p) => Bez(vec![a, co(&p), b]),
        CurvedEdgeType::CubicBezier(p, q) => Bez(vec![a, co(&p), co(&q), b]),
    }
}
