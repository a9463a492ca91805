//! Affine maps of all backends next to a plain reference.
use crate::mt::*;
use engine::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;

/// A plain affine map with bounds for the magnitudes of the intermediate results.
#[derive(Clone, Debug)]
pub struct Ref<const D: usize> {
    pub m: [[f64; D]; D],
    pub t: [f64; D],
    /// bounds of the magnitudes of the entries
    pub mb: [[f64; D]; D],
    pub tb: [f64; D],
    pub steps: f64,
    pub rot: bool,
    pub stretch: bool,
}
impl<const D: usize> Ref<D> {
    pub fn linear(m: [[f64; D]; D]) -> Self {
        Ref { m, t: [0.0; D], mb: m.map(|r| r.map(f64::abs)), tb: [0.0; D], steps: 1.0, rot: false, stretch: false }
    }
    pub fn id() -> Self {
        let mut m = [[0.0; D]; D];
        for i in 0..D {
            m[i][i] = 1.0;
        }
        Self::linear(m)
    }
    pub fn scale(v: [f64; D]) -> Self {
        let mut r = Self::id();
        for i in 0..D {
            r.m[i][i] = v[i];
            r.mb[i][i] = v[i].abs();
        }
        r.stretch = v.iter().any(|x| *x != v[0]);
        r
    }
    pub fn translation(v: [f64; D]) -> Self {
        let mut r = Self::id();
        r.t = v;
        r.tb = v.map(f64::abs);
        r
    }
    pub fn rotation(m: [[f64; D]; D]) -> Self {
        let mut r = Self::linear(m);
        r.mb = r.mb.map(|r| r.map(|x| x + 0.1));
        r.rot = true;
        r
    }
    pub fn vec(&self, v: [f64; D]) -> [f64; D] {
        std::array::from_fn(|i| (0..D).map(|j| self.m[i][j] * v[j]).sum())
    }
    pub fn at(&self, v: [f64; D]) -> [f64; D] {
        let w = self.vec(v);
        std::array::from_fn(|i| w[i] + self.t[i])
    }
    /// magnitude of the largest intermediate value
    pub fn bound(&self, v: [f64; D]) -> f64 {
        (0..D).map(|i| (0..D).map(|j| self.mb[i][j] * v[j].abs()).sum::<f64>() + self.tb[i]).fold(0.0, f64::max) * self.steps
    }
    /// first self, then o
    pub fn then(&self, o: &Self) -> Self {
        let mut r = Self::id();
        for i in 0..D {
            for j in 0..D {
                r.m[i][j] = (0..D).map(|k| o.m[i][k] * self.m[k][j]).sum();
                r.mb[i][j] = (0..D).map(|k| o.mb[i][k] * self.mb[k][j]).sum();
            }
            r.t[i] = (0..D).map(|k| o.m[i][k] * self.t[k]).sum::<f64>() + o.t[i];
            r.tb[i] = (0..D).map(|k| o.mb[i][k] * self.tb[k]).sum::<f64>() + o.tb[i];
        }
        r.steps = self.steps + o.steps;
        r.rot = self.rot || o.rot;
        r.stretch = self.stretch || o.stretch;
        r
    }
}

/// What a check needs to know about a type of transformations.
pub trait Maps<const D: usize>: TransformTrait<Self::Sc, D> {
    type Sc: Scalar;
    /// relative accuracy
    const EPS: f64;
    /// accuracy of rotation arcs
    const ARC: f64;
    /// whether rotations and non-uniform scales may be combined
    const SHEAR: bool;
    const ROT: bool;
    const UNIT_ARCS: bool;
    fn ve(v: [f64; D]) -> Self::Vec;
    fn co(v: &Self::Vec) -> [f64; D];
    fn rot(src: &mut Src) -> (Self::Rot, [[f64; D]; D]);
    fn round(v: [f64; D]) -> [f64; D] {
        Self::co(&Self::ve(v))
    }
}
/// A random orthogonal matrix of determinant one.
pub fn givens<const D: usize>(src: &mut Src) -> [[f64; D]; D] {
    let mut m = Ref::<D>::id().m;
    for _ in 0..src.usize(1, D) {
        let i = src.below(D as u64) as usize;
        let j = (i + 1 + src.below(D as u64 - 1) as usize) % D;
        let (s, c) = src.angle().sin_cos();
        for r in m.iter_mut() {
            let (a, b) = (r[i], r[j]);
            r[i] = c * a - s * b;
            r[j] = s * a + c * b;
        }
    }
    m
}
/// Rodrigues' formula
pub fn axis_matrix(k: [f64; 3], a: f64) -> [[f64; 3]; 3] {
    let (s, c) = a.sin_cos();
    let x = [[0.0, -k[2], k[1]], [k[2], 0.0, -k[0]], [-k[1], k[0], 0.0]];
    std::array::from_fn(|i| std::array::from_fn(|j| if i == j { c } else { 0.0 } + s * x[i][j] + (1.0 - c) * k[i] * k[j]))
}
pub fn unit<const D: usize>(src: &mut Src) -> [f64; D] {
    loop {
        let grid = src.bool();
        let v: [f64; D] = std::array::from_fn(|_| if grid { src.int(-2, 2) as f64 } else { src.real(-1.0, 1.0) });
        let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l > 0.1 {
            return v.map(|x| x / l);
        }
        if src.rec.len() > 5000 {
            let mut e = [0.0; D];
            e[0] = 1.0;
            return e;
        }
    }
}
pub fn resize<const A: usize, const B: usize>(m: [[f64; A]; A]) -> [[f64; B]; B] {
    std::array::from_fn(|i| std::array::from_fn(|j| m[i][j]))
}
macro_rules! nd_maps {
    ($s:ty, $d:expr, $eps:expr, $arc:expr) => {
        impl Maps<$d> for NdAffine<$s, $d> {
            type Sc = $s;
            const EPS: f64 = $eps;
            const ARC: f64 = $arc;
            const SHEAR: bool = true;
            const ROT: bool = true;
            const UNIT_ARCS: bool = false;
            fn ve(v: [f64; $d]) -> VecN<$s, $d> {
                VecN::<$s, $d>::from(v.map(|x| x as $s))
            }
            fn co(v: &VecN<$s, $d>) -> [f64; $d] {
                std::array::from_fn(|i| v[i] as f64)
            }
            fn rot(src: &mut Src) -> (NdRotate<$s, $d>, [[f64; $d]; $d]) {
                let given = src.chance(1, 3) || $d > 3;
                if !given && $d == 2 {
                    let a = src.angle() as $s;
                    let (s, c) = (a as f64).sin_cos();
                    return (NdRotate::from_angle(a), resize::<2, $d>([[c, -s], [s, c]]));
                }
                if !given && $d == 3 {
                    let k = unit::<3>(src);
                    let a = src.angle() as $s;
                    let v = nalgebra::Unit::new_normalize(VecN::<$s, 3>::from(k.map(|x| x as $s)));
                    return (NdRotate::from_axis_angle(v, a), resize::<3, $d>(axis_matrix(k, a as f64)));
                }
                let m = givens::<$d>(src);
                (NdRotate::new(nalgebra::SMatrix::<$s, $d, $d>::from_fn(|i, j| m[i][j] as $s)), m)
            }
        }
    };
}
nd_maps!(f64, 2, 1e-14, 1e-6);
nd_maps!(f64, 3, 1e-14, 1e-6);
nd_maps!(f64, 4, 1e-14, 1e-6);
nd_maps!(f64, 5, 1e-14, 1e-6);
nd_maps!(f32, 2, 2e-6, 2e-3);
nd_maps!(f32, 3, 2e-6, 2e-3);
nd_maps!(f32, 4, 2e-6, 2e-3);

#[cfg(feature = "bevy")]
mod b {
    use super::*;
    use bevy::math::{Affine2, Quat, Vec2, Vec3, Vec4};
    use bevy::transform::components::Transform;
    type M5 = <Vec4 as Transformable<4>>::Trans;
    type R5 = <Vec4 as Transformable<4>>::Rot;
    /// The type itself can't be named outside of the crate.
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Mat5(pub M5);
    impl TransformTrait<f32, 4> for Mat5 {
        type Vec = Vec4;
        type Rot = R5;
        fn identity() -> Self {
            Mat5(M5::identity())
        }
        fn from_rotation(r: R5) -> Self {
            Mat5(M5::from_rotation(r))
        }
        fn from_rotation_arc(a: Vec4, b: Vec4) -> Self {
            Mat5(M5::from_rotation_arc(a, b))
        }
        fn from_translation(v: Vec4) -> Self {
            Mat5(M5::from_translation(v))
        }
        fn from_scale(v: Vec4) -> Self {
            Mat5(M5::from_scale(v))
        }
        fn with_scale(&self, v: Vec4) -> Self {
            Mat5(self.0.with_scale(v))
        }
        fn with_translation(&self, v: Vec4) -> Self {
            Mat5(self.0.with_translation(v))
        }
        fn apply(&self, v: Vec4) -> Vec4 {
            self.0.apply(v)
        }
        fn apply_vec(&self, v: Vec4) -> Vec4 {
            self.0.apply_vec(v)
        }
        fn chain(&self, o: &Self) -> Self {
            Mat5(self.0.chain(&o.0))
        }
    }
    impl Maps<2> for Affine2 {
        type Sc = f32;
        const EPS: f64 = 2e-6;
        const ARC: f64 = 2e-3;
        const SHEAR: bool = true;
        const ROT: bool = true;
        const UNIT_ARCS: bool = false;
        fn ve(v: [f64; 2]) -> Vec2 {
            Vec2::new(v[0] as f32, v[1] as f32)
        }
        fn co(v: &Vec2) -> [f64; 2] {
            [v.x as f64, v.y as f64]
        }
        fn rot(src: &mut Src) -> (f32, [[f64; 2]; 2]) {
            let a = src.angle() as f32;
            let (s, c) = (a as f64).sin_cos();
            (a, [[c, -s], [s, c]])
        }
    }
    impl Maps<3> for Transform {
        type Sc = f32;
        const EPS: f64 = 4e-6;
        const ARC: f64 = 2e-3;
        const SHEAR: bool = false;
        const ROT: bool = true;
        const UNIT_ARCS: bool = true;
        fn ve(v: [f64; 3]) -> Vec3 {
            Vec3::new(v[0] as f32, v[1] as f32, v[2] as f32)
        }
        fn co(v: &Vec3) -> [f64; 3] {
            [v.x as f64, v.y as f64, v.z as f64]
        }
        fn rot(src: &mut Src) -> (Quat, [[f64; 3]; 3]) {
            let k = unit::<3>(src);
            let a = src.angle() as f32;
            (<Quat as Quarternion>::from_axis_angle(Self::ve(k), a), axis_matrix(k, a as f64))
        }
    }
    impl Maps<4> for Mat5 {
        type Sc = f32;
        const EPS: f64 = 2e-6;
        const ARC: f64 = 2e-3;
        const SHEAR: bool = true;
        const ROT: bool = false;
        const UNIT_ARCS: bool = false;
        fn ve(v: [f64; 4]) -> Vec4 {
            Vec4::new(v[0] as f32, v[1] as f32, v[2] as f32, v[3] as f32)
        }
        fn co(v: &Vec4) -> [f64; 4] {
            [v.x as f64, v.y as f64, v.z as f64, v.w as f64]
        }
        fn rot(_: &mut Src) -> (<Self as TransformTrait<f32, 4>>::Rot, [[f64; 4]; 4]) {
            unreachable!()
        }
    }
}
#[cfg(feature = "bevy")]
pub use b::Mat5;

/// A random vector, exactly representable.
pub fn rv<A: Maps<D>, const D: usize>(src: &mut Src) -> [f64; D] {
    let k = src.below(3);
    let s = [1.0, 10.0, 1000.0][src.below(3) as usize];
    A::round(std::array::from_fn(|_| match k {
        0 => src.int(-4, 4) as f64,
        1 => src.int(-64, 64) as f64 / 16.0,
        _ => src.real(-s, s),
    }))
}
/// A random scale without zeros.
pub fn rs<A: Maps<D>, const D: usize>(src: &mut Src, uniform: bool) -> [f64; D] {
    let k = src.below(3);
    let one = |src: &mut Src| {
        let x = match k {
            0 => src.int(1, 4) as f64,
            1 => src.int(1, 32) as f64 / 16.0,
            _ => src.real(0.1, 5.0),
        };
        if src.chance(1, 4) { -x } else { x }
    };
    if uniform {
        let x = one(src);
        A::round([x; D])
    } else {
        A::round(std::array::from_fn(|_| one(src)))
    }
}
/// A random map, built step by step.
/// `class`: 0 = without stretching, 1 = without rotation, 2 = anything
pub fn random_map<A: Maps<D>, const D: usize>(src: &mut Src, class: u64, depth: usize, log: &mut String) -> (A, Ref<D>) {
    use std::fmt::Write;
    let stretch = class > 0;
    let k = if depth > 0 && src.chance(2, 3) { 5 + src.below(3) } else { src.below(5) };
    match k {
        0 => {
            log.push_str("identity");
            (if src.bool() { A::identity() } else { A::default() }, Ref::id())
        }
        1 => {
            let v = rv::<A, D>(src);
            write!(log, "from_translation{:?}", v).unwrap();
            (A::from_translation(A::ve(v)), Ref::translation(v))
        }
        2 => {
            let v = rs::<A, D>(src, !stretch);
            write!(log, "from_scale{:?}", v).unwrap();
            (A::from_scale(A::ve(v)), Ref::scale(v))
        }
        3 | 4 => {
            if class == 1 || !A::ROT {
                let v = rv::<A, D>(src);
                write!(log, "from_translation{:?}", v).unwrap();
                return (A::from_translation(A::ve(v)), Ref::translation(v));
            }
            let (r, m) = A::rot(src);
            write!(log, "from_rotation{:?}", m).unwrap();
            (A::from_rotation(r), Ref::rotation(m))
        }
        5 => {
            let (a, r) = random_map::<A, D>(src, class, depth - 1, log);
            let v = rv::<A, D>(src);
            write!(log, ".with_translation{:?}", v).unwrap();
            (a.with_translation(A::ve(v)), r.then(&Ref::translation(v)))
        }
        6 => {
            let (a, r) = random_map::<A, D>(src, class, depth - 1, log);
            let v = rs::<A, D>(src, !stretch);
            write!(log, ".with_scale{:?}", v).unwrap();
            (a.with_scale(A::ve(v)), r.then(&Ref::scale(v)))
        }
        _ => {
            let (a, r) = random_map::<A, D>(src, class, depth - 1, log);
            log.push_str(".chain(");
            let (b, s) = random_map::<A, D>(src, class, depth - 1, log);
            log.push(')');
            (a.chain(&b), r.then(&s))
        }
    }
}
pub fn class<A: Maps<D>, const D: usize>(src: &mut Src) -> u64 {
    if A::SHEAR {
        [0, 1, 2, 2][src.below(4) as usize]
    } else {
        src.below(2)
    }
}
#[allow(dead_code)]
type Unused = M64;
