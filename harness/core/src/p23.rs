//! Laws of scalars, vectors and quaternions of all backends (P23).
use engine::*;
use nalgebra::SVector;
use procedural_modelling::prelude::*;

/// A vector type with access by coordinates.
pub trait Ar<const D: usize>: Vector<Self::T, D> {
    type T: Scalar;
    /// unit roundoff
    const U: f64;
    /// exponents of the generated coordinates
    const RANGE: i64;
    fn s(x: f64) -> Self::T;
    fn mk(c: [f64; D]) -> Self;
    fn co(&self) -> [f64; D];
}
impl<const D: usize> Ar<D> for SVector<f64, D> {
    type T = f64;
    const U: f64 = f64::EPSILON / 2.0;
    const RANGE: i64 = 40;
    fn s(x: f64) -> f64 {
        x
    }
    fn mk(c: [f64; D]) -> Self {
        Self::from(c)
    }
    fn co(&self) -> [f64; D] {
        std::array::from_fn(|i| self[i])
    }
}
impl<const D: usize> Ar<D> for SVector<f32, D> {
    type T = f32;
    const U: f64 = f32::EPSILON as f64 / 2.0;
    const RANGE: i64 = 14;
    fn s(x: f64) -> f32 {
        x as f32
    }
    fn mk(c: [f64; D]) -> Self {
        Self::from(c.map(|x| x as f32))
    }
    fn co(&self) -> [f64; D] {
        std::array::from_fn(|i| self[i] as f64)
    }
}
#[cfg(feature = "bevy")]
mod bv {
    use super::Ar;
    use bevy::math::{Vec2, Vec3, Vec4};
    macro_rules! bevy_vec {
        ($t:ty, $d:literal) => {
            impl Ar<$d> for $t {
                type T = f32;
                const U: f64 = f32::EPSILON as f64 / 2.0;
                const RANGE: i64 = 14;
                fn s(x: f64) -> f32 {
                    x as f32
                }
                fn mk(c: [f64; $d]) -> Self {
                    <$t>::from_array(c.map(|x| x as f32))
                }
                fn co(&self) -> [f64; $d] {
                    <$t>::to_array(self).map(|x| x as f64)
                }
            }
        };
    }
    bevy_vec!(Vec2, 2);
    bevy_vec!(Vec3, 3);
    bevy_vec!(Vec4, 4);
}

/// Σ a b to about twice the working precision, and Σ |a b|
pub fn xdot(p: impl IntoIterator<Item = (f64, f64)>) -> (f64, f64) {
    let (mut s, mut c, mut m) = (0.0f64, 0.0f64, 0.0f64);
    for (a, b) in p {
        let v = a * b;
        let e = a.mul_add(b, -v);
        let t = s + v;
        let z = t - s;
        c += (s - (t - z)) + (v - z);
        s = t;
        c += e;
        m += v.abs();
    }
    (s + c, m)
}
fn norm<const D: usize>(a: &[f64; D]) -> f64 {
    xdot(a.iter().map(|x| (*x, *x))).0.sqrt()
}
fn near(got: f64, want: f64, tol: f64) -> bool {
    (got - want).abs() <= tol
}
/// one coordinate
fn num<V: Ar<D>, const D: usize>(src: &mut Src) -> f64 {
    let x = match src.below(6) {
        0 => src.int(-3, 3) as f64,
        1 => src.grid(-64, 64, 8),
        2 => 0.0,
        _ => {
            let k = src.scale(-V::RANGE, V::RANGE);
            src.real(-1.0, 1.0) * k
        }
    };
    V::s(x).to_f64()
}
pub fn coords<V: Ar<D>, const D: usize>(src: &mut Src) -> [f64; D] {
    let mut r = [0.0; D];
    match src.below(4) {
        0 => {
            for x in r.iter_mut() {
                *x = src.int(-8, 8) as f64;
            }
        }
        1 => {
            // one magnitude for all of them
            let k = src.scale(-V::RANGE, V::RANGE);
            for x in r.iter_mut() {
                *x = V::s(src.real(-1.0, 1.0) * k).to_f64();
            }
        }
        _ => {
            for x in r.iter_mut() {
                *x = num::<V, D>(src);
            }
        }
    }
    r
}
/// a second vector, often related to the first
fn other<V: Ar<D>, const D: usize>(src: &mut Src, a: &[f64; D]) -> [f64; D] {
    match src.below(6) {
        0 => {
            let k = *src.pick(&[1.0, -1.0, 2.0, -0.5]);
            a.map(|x| x * k)
        }
        1 => {
            // almost the same
            let k = src.scale(-V::RANGE, -2);
            let b = coords::<V, D>(src);
            let (n, m) = (norm(a), norm(&b).max(1e-30));
            std::array::from_fn(|i| V::s(a[i] + b[i] / m * n * k).to_f64())
        }
        2 => {
            // perpendicular in the first plane
            let mut b = [0.0; D];
            if D > 1 {
                b[0] = -a[1];
                b[1] = a[0];
            }
            b
        }
        _ => coords::<V, D>(src),
    }
}

macro_rules! close {
    ($v:ty, $got:expr, $want:expr, $tol:expr, $what:expr, $($arg:tt)*) => {{
        let (g, w, t): (f64, f64, f64) = ($got.to_f64(), $want, $tol);
        ensure!(near(g, w, t), $what, "{} of {} is {:?}, expected {:?} up to {:e}", $what, format!($($arg)*), g, w, t);
    }};
}

pub fn vector<V: Ar<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res {
    let u = V::U;
    let d = D as f64 + 4.0;
    let a = coords::<V, D>(src);
    let b = other::<V, D>(src, &a);
    c.log(|| format!("a = {:?}, b = {:?}", a, b));
    let (x, y) = (V::mk(a), V::mk(b));
    ensure!(x.co() == a && y.co() == b, "harness", "the coordinates were not kept");
    let same = |g: V, w: [f64; D], what: &'static str| -> Res {
        ensure!(g.co() == w, what, "{} gives {:?}, expected {:?}", what, g.co(), w);
        Ok(())
    };
    // coordinates and constructors
    let at = |i: usize| if i < D { a[i] } else { 0.0 };
    let got = [x.x().to_f64(), x.y().to_f64(), x.z().to_f64(), x.w().to_f64()];
    ensure!(got == [at(0), at(1), at(2), at(3)], "coordinates", "x, y, z, w of {:?} are {:?}", a, got);
    let first = |k: usize| -> [f64; D] { std::array::from_fn(|i| if i < k { a[i] } else { 0.0 }) };
    let s = |i: usize| V::s(at(i));
    same(V::from_x(s(0)), first(1), "from_x")?;
    same(V::from_xy(s(0), s(1)), first(2), "from_xy")?;
    same(V::from_xyz(s(0), s(1), s(2)), first(3), "from_xyz")?;
    same(V::splat(s(0)), [a[0]; D], "splat")?;
    same(<V as Vector<V::T, D>>::zero(), [0.0; D], "Vector::zero")?;
    same(<V as HasZero>::zero(), [0.0; D], "HasZero::zero")?;
    ensure!(HasZero::is_zero(&x) == (a == [0.0; D]), "is_zero", "is_zero of {:?} is {}", a, HasZero::is_zero(&x));
    let one: [f64; D] = {
        let k = src.usize(0, D - 1);
        std::array::from_fn(|i| if i == k { 1e-3 } else { 0.0 })
    };
    ensure!(!HasZero::is_zero(&V::mk(one)), "is_zero", "{:?} is taken for zero", one);
    // operators
    let r = |x: f64| V::s(x).to_f64();
    same(x + y, std::array::from_fn(|i| r(a[i] + b[i])), "the sum")?;
    same(x - y, std::array::from_fn(|i| r(a[i] - b[i])), "the difference")?;
    same(-x, a.map(|x| -x), "the negative")?;
    same(x * V::s(b[0]), a.map(|x| r(x * b[0])), "the product with a scalar")?;
    let mut z = x;
    z += y;
    same(z, std::array::from_fn(|i| r(a[i] + b[i])), "the sum in place")?;
    let mut z = x;
    z -= y;
    same(z, std::array::from_fn(|i| r(a[i] - b[i])), "the difference in place")?;
    if b[0] != 0.0 {
        let g = (x / V::s(b[0])).co();
        for i in 0..D {
            let w = a[i] / b[0];
            ensure!(near(g[i], w, 4.0 * u * w.abs() + 1e-40), "quotient", "{:?} / {} is {:?}", a, b[0], g);
        }
    }
    // products and lengths
    let (w, m) = xdot((0..D).map(|i| (a[i], b[i])));
    close!(V, x.dot(&y), w, d * u * m + 1e-300, "dot", "{:?} and {:?}", a, b);
    ensure!(x.dot(&y).to_f64() == y.dot(&x).to_f64() || near(x.dot(&y).to_f64(), y.dot(&x).to_f64(), d * u * m), "dot", "the dot product is not symmetric for {:?} and {:?}", a, b);
    let (l2, _) = xdot(a.iter().map(|x| (*x, *x)));
    close!(V, x.length_squared(), l2, d * u * l2, "length_squared", "{:?}", a);
    close!(V, x.length(), l2.sqrt(), d * u * l2.sqrt(), "length", "{:?}", a);
    let df: [f64; D] = std::array::from_fn(|i| a[i] - b[i]);
    let (d2, _) = xdot(df.iter().map(|x| (*x, *x)));
    close!(V, x.distance_squared(&y), d2, 2.0 * d * u * d2, "distance_squared", "{:?} and {:?}", a, b);
    close!(V, x.distance(&y), d2.sqrt(), 2.0 * d * u * d2.sqrt(), "distance", "{:?} and {:?}", a, b);
    ensure!(x.distance(&x).to_f64() == 0.0, "distance", "the distance of {:?} to itself is {:?}", a, x.distance(&x));
    // normalisation
    let la = l2.sqrt();
    if la > 0.0 {
        let g = x.normalize().co();
        for i in 0..D {
            ensure!(near(g[i], a[i] / la, 2.0 * d * u), "normalize", "{:?} is normalised to {:?}", a, g);
        }
    }
    // angles
    let lb = norm(&b);
    let low = (2.0f64).powi(-V::RANGE as i32);
    if la > low && lb > low && w.is_finite() {
        let g = x.angle_between(y).to_f64();
        if D == 2 {
            let (det, _) = xdot([(a[0], b[1]), (-a[1], b[0])]);
            let t = det.atan2(w);
            let e = (g - t).abs();
            let e = e.min((e - std::f64::consts::TAU).abs());
            ensure!(e <= 16.0 * u && g.abs() <= std::f64::consts::PI + 4.0 * u, "angle_between", "the angle from {:?} to {:?} is {}, expected {}", a, b, g, t);
        } else {
            let t = (w / la / lb).clamp(-1.0, 1.0);
            ensure!(g >= 0.0 && g <= std::f64::consts::PI + 4.0 * u && near(g.cos(), t, 8.0 * d * u), "angle_between", "the angle between {:?} and {:?} is {}, its cosine is {}, expected {}", a, b, g, g.cos(), t);
            if D == 1 {
                c.label("1d");
            }
        }
        if g > 0.1 && g < 3.0 {
            c.nontrivial();
        }
    }
    for (p, q) in [(x, V::splat(V::T::ZERO)), (V::splat(V::T::ZERO), x)] {
        let g = p.angle_between(q).to_f64();
        ensure!(g == 0.0, "angle_between", "the angle between {:?} and {:?} is {}, expected 0", p, q, g);
    }
    // approximate equality, coordinate by coordinate
    let e = *src.pick(&[0.5, 0.125, 2.0, 1024.0]);
    let k = src.usize(0, D - 1);
    let t = *src.pick(&[0.0, 0.5, -0.5, 0.9, -0.9, 1.125, -1.125, 2.0, -2.0, 64.0, -64.0]);
    let p: [f64; D] = std::array::from_fn(|_| src.int(-8, 8) as f64);
    let mut q = p;
    q[k] = r(q[k] + t * e);
    let g = V::mk(p).is_about(&V::mk(q), V::s(e));
    ensure!(g == (t.abs() < 1.0), "is_about", "is {:?} about {:?} up to {}? answered {}", p, q, e, g);
    Ok(())
}

/// Sums and means.
pub fn sums<V: Ar<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res {
    let u = V::U;
    let small = 0.5 * u;
    let n = match src.below(8) {
        0 => src.usize(0, 2),
        1 | 2 => src.sized(200, 4000),
        _ => src.sized(3, 120),
    };
    let kind = src.below(5);
    let mut v: Vec<[f64; D]> = Vec::with_capacity(n);
    if n > 150 || kind == 0 {
        // one large number and many that vanish next to it
        let k = src.scale(-3, 3);
        let at = src.usize(0, n.max(1) - 1);
        let f = *src.pick(&[0.5, 0.75, 0.99, 0.25]);
        let back = src.bool();
        for i in 0..n {
            let x = if i == at {
                k
            } else if back && i == n - 1 {
                -k
            } else {
                k * 2.0 * small * 2.0 * f
            };
            v.push([V::s(x).to_f64(); D]);
        }
        if back {
            c.label("cancels");
        }
        c.label("absorbed");
    } else {
        for _ in 0..n {
            v.push(coords::<V, D>(src));
        }
        if kind == 1 {
            // take everything back in another order, leaving little
            let o = src.perm(n);
            for i in o {
                let x = v[i].map(|x| -x);
                v.push(x);
            }
            let z = coords::<V, D>(src).map(|x| V::s(x * small).to_f64());
            let at = src.usize(0, v.len());
            v.insert(at, z);
            c.label("cancels");
        }
    }
    let n = v.len();
    c.log(|| if n < 12 { format!("{:?}", v) } else { format!("{} vectors starting with {:?}", n, &v[..3]) });
    if n > 4 {
        c.nontrivial();
    }
    let vs: Vec<V> = v.iter().map(|x| V::mk(*x)).collect();
    let got = [V::stable_sum(vs.iter().copied()).co(), VectorIteratorExt::stable_sum(vs.iter().copied()).co()];
    let mean = (n > 0).then(|| [V::stable_mean(vs.iter().copied()).co(), VectorIteratorExt::stable_mean(vs.iter().copied()).co()]);
    for i in 0..D {
        let (w, m) = xdot(v.iter().map(|x| (x[i], 1.0)));
        // Kahan: relative to the sum of the magnitudes
        let tol = (4.0 * u + 16.0 * (n as f64) * u * u) * m;
        for g in got {
            ensure!(near(g[i], w, tol), "vector-sum", "coordinate {} of the sum of {} vectors is {:?}, expected {:?}; the magnitudes sum up to {}", i, n, g[i], w, m);
        }
        if let Some(mean) = mean {
            for g in mean {
                let k = n as f64;
                ensure!(near(g[i], w / k, (tol + 4.0 * u * w.abs()) / k), "vector-mean", "coordinate {} of the mean of {} vectors is {:?}, expected {:?}", i, n, g[i], w / k);
            }
        }
        // Neumaier: relative to the sum itself
        let sc: Vec<V::T> = v.iter().map(|x| V::s(x[i])).collect();
        let tol = 2.0 * u * w.abs() + 4.0 * (n as f64 * u) * (n as f64 * u).max(u) * m;
        let (a, b) = (<V::T as Scalar>::stable_sum(sc.iter().copied()).to_f64(), ScalarIteratorExt::stable_sum(sc.iter().copied()).to_f64());
        for g in [a, b] {
            ensure!(near(g, w, tol), "scalar-sum", "the sum of {} scalars is {:?}, expected {:?} up to {:e}", n, g, w, tol);
        }
        if n > 0 {
            let (a, b) = (<V::T as Scalar>::stable_mean(sc.iter().copied()).to_f64(), ScalarIteratorExt::stable_mean(sc.iter().copied()).to_f64());
            for g in [a, b] {
                let k = n as f64;
                ensure!(near(g, w / k, (tol + 4.0 * u * w.abs()) / k), "scalar-mean", "the mean of {} scalars is {:?}, expected {:?}", n, g, w / k);
            }
        }
    }
    Ok(())
}

/// Interpolating, moving and scaling a vector.
pub fn moves<V, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    V: Ar<D> + Transformable<D, S = <V as Ar<D>>::T, Vec = V>,
{
    let u = V::U;
    let a = coords::<V, D>(src);
    let b = other::<V, D>(src, &a);
    let t = V::s(*src.pick(&[0.0, 1.0, 0.5, 0.25, 2.0, -1.0])).to_f64();
    let t = if src.bool() { V::s(src.real(-2.0, 3.0)).to_f64() } else { t };
    c.log(|| format!("{:?} to {:?} at {}", a, b, t));
    if a != b && t != 0.0 {
        c.nontrivial();
    }
    let (x, y) = (V::mk(a), V::mk(b));
    let mut g = x;
    g.lerp(&y, V::s(t));
    let g = g.co();
    let g2 = x.lerped(&y, V::s(t)).co();
    for i in 0..D {
        let w = a[i] + (b[i] - a[i]) * t;
        let tol = 6.0 * u * (a[i].abs() + b[i].abs()) * (1.0 + t.abs());
        ensure!(near(g[i], w, tol) && near(g2[i], w, tol), "vector-lerp", "{:?} to {:?} at {} gives {:?} and {:?}", a, b, t, g, g2);
    }
    let g = x.translated(&y).co();
    let tol = 8.0 * u;
    for i in 0..D {
        ensure!(near(g[i], a[i] + b[i], tol * (a[i].abs() + b[i].abs())), "vector-translate", "{:?} moved by {:?} gives {:?}", a, b, g);
    }
    let g = x.scaled(&y).co();
    for i in 0..D {
        ensure!(near(g[i], a[i] * b[i], tol * (a[i] * b[i]).abs()), "vector-scale", "{:?} scaled by {:?} gives {:?}", a, b, g);
    }
    Ok(())
}

pub fn flat<V: Ar<2> + Vector2D<S = <V as Ar<2>>::T>>(src: &mut Src, c: &mut Ctx) -> Res {
    let u = V::U;
    let a = coords::<V, 2>(src);
    let b = other::<V, 2>(src, &a);
    let e = other::<V, 2>(src, &b);
    c.log(|| format!("{:?} {:?} {:?}", a, b, e));
    let (x, y, z) = (V::mk(a), V::mk(b), V::mk(e));
    ensure!(Vector2D::xy(&x).co() == a && Vector2D::yx(&x).co() == [a[1], a[0]], "swizzle", "the swizzles of {:?} are {:?} and {:?}", a, Vector2D::xy(&x), Vector2D::yx(&x));
    ensure!(<V as Vector2D>::new(V::s(a[0]), V::s(a[1])).co() == a, "new", "new({:?})", a);
    ensure!(x.vec2::<V>().co() == a, "vec2", "vec2 of {:?}", a);
    let (w, m) = xdot([(a[0], b[1]), (-a[1], b[0])]);
    close!(V, Vector2D::perp_dot(&x, &y), w, 4.0 * u * m, "perp_dot", "{:?} and {:?}", a, b);
    if w.abs() > 1e-3 * m {
        c.nontrivial();
    }
    let q = |v: [f64; 2], w: [f64; 2]| [v[0] - w[0], v[1] - w[1]];
    // (a - e) x (b - e)
    let (p, r) = (q(a, e), q(b, e));
    let (w, m) = xdot([(p[0], r[1]), (-p[1], r[0])]);
    close!(V, V::barycentric_sign(x, y, z), w, 8.0 * u * m, "barycentric_sign", "{:?} {:?} {:?}", a, b, e);
    // the angle at a from b to e
    let (p, r) = (q(b, a), q(e, a));
    let low = (2.0f64).powi(-V::RANGE as i32);
    if norm(&p) > low && norm(&r) > low {
        let g = x.angle_tri(y, z).to_f64();
        let t = xdot([(p[0], r[1]), (-p[1], r[0])]).0.atan2(xdot([(p[0], r[0]), (p[1], r[1])]).0);
        let d = (g - t).abs();
        let d = d.min((d - std::f64::consts::TAU).abs());
        ensure!(d <= 24.0 * u, "angle_tri", "the angle at {:?} from {:?} to {:?} is {}, expected {}", a, b, e, g, t);
    }
    Ok(())
}

/// unit vectors, rounded
fn unit3<V: Ar<3>>(src: &mut Src) -> [f64; 3] {
    for _ in 0..20 {
        let v: [f64; 3] = match src.below(3) {
            0 => std::array::from_fn(|_| src.int(-2, 2) as f64),
            _ => std::array::from_fn(|_| src.real(-1.0, 1.0)),
        };
        let l = norm(&v);
        if l > 0.01 {
            return v.map(|x| V::s(x / l).to_f64());
        }
    }
    [1.0, 0.0, 0.0]
}
fn x3(a: [f64; 3], b: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let f = |i: usize| {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        xdot([(a[j], b[k]), (-a[k], b[j])])
    };
    ([f(0).0, f(1).0, f(2).0], [f(0).1, f(1).1, f(2).1])
}

pub fn space<V: Ar<3> + Vector3D<S = <V as Ar<3>>::T>>(src: &mut Src, c: &mut Ctx) -> Res
where
    V::Spherical: Ar<3, T = <V as Ar<3>>::T>,
{
    let u = V::U;
    let a = coords::<V, 3>(src);
    let b = other::<V, 3>(src, &a);
    let e = coords::<V, 3>(src);
    c.log(|| format!("{:?} {:?} {:?}", a, b, e));
    let (x, y, z) = (V::mk(a), V::mk(b), V::mk(e));
    let s = a.map(|t| V::s(t));
    ensure!(<V as Vector3D>::new(s[0], s[1], s[2]).co() == a, "new", "new({:?})", a);
    let t = Vector3D::tuple(&x);
    ensure!([t.0, t.1, t.2] == s && Vector3D::to_array(&x) == s, "tuple", "tuple and array of {:?}: {:?} {:?}", a, t, Vector3D::to_array(&x));
    let sw = [
        ("xyz", Vector3D::xyz(&x), [0, 1, 2]),
        ("xzy", Vector3D::xzy(&x), [0, 2, 1]),
        ("yxz", Vector3D::yxz(&x), [1, 0, 2]),
        ("yzx", Vector3D::yzx(&x), [1, 2, 0]),
        ("zxy", Vector3D::zxy(&x), [2, 0, 1]),
        ("zyx", Vector3D::zyx(&x), [2, 1, 0]),
    ];
    for (n, g, o) in sw {
        ensure!(g.co() == o.map(|i| a[i]), "swizzle", "{} of {:?} is {:?}", n, a, g);
    }
    let (w, m) = x3(a, b);
    let g = Vector3D::cross(&x, &y).co();
    for i in 0..3 {
        ensure!(near(g[i], w[i], 4.0 * u * m[i]), "cross", "{:?} x {:?} is {:?}, expected {:?}", a, b, g, w);
    }
    if m.iter().any(|x| *x > 0.0) {
        c.nontrivial();
    }
    // normal of a corner: (a - b) x (e - b)
    let q = |v: [f64; 3], w: [f64; 3]| -> [f64; 3] { std::array::from_fn(|i| v[i] - w[i]) };
    let (w, m) = x3(q(a, b), q(e, b));
    let g = Vector3D::normal(&x, y, z).co();
    for i in 0..3 {
        ensure!(near(g[i], w[i], 10.0 * u * m[i]), "corner-normal", "the normal at {:?} from {:?} to {:?} is {:?}, expected {:?}", a, b, e, g, w);
    }
    // spherical coordinates
    let r = norm(&a);
    let sp = x.spherical();
    let (gr, gp, gt) = (sp.r().to_f64(), sp.phi().to_f64(), sp.theta().to_f64());
    let pi = std::f64::consts::PI;
    if r == 0.0 {
        ensure!(gr == 0.0 && gt == 0.0, "spherical", "the zero vector has the spherical coordinates {} {} {}", gr, gp, gt);
    } else {
        ensure!(near(gr, r, 10.0 * u * r), "spherical", "the radius of {:?} is {}", a, gr);
        let phi = a[1].atan2(a[0]);
        ensure!(near(gp, phi, 8.0 * u), "spherical", "the azimuth of {:?} is {}, expected {}", a, gp, phi);
        ensure!(gt >= 0.0 && gt <= pi + 4.0 * u && near(gt.cos(), a[2] / r, 16.0 * u), "spherical", "the polar angle of {:?} is {}, expected {}", a, gt, (a[2] / r).acos());
        // and back; the angle near a pole has half of the digits
        let g = sp.cartesian().co();
        for i in 0..3 {
            let tol = if i == 2 { 32.0 * u * r } else { r * (32.0 * u + (64.0 * u).sqrt().min(64.0 * u / gt.sin().abs().max(1e-30))) };
            ensure!(near(g[i], a[i], tol), "spherical-back", "{:?} comes back as {:?}", a, g);
        }
    }
    // cartesian on its own
    let k = src.scale(-6, 6);
    let (r, p, t) = (V::s(src.real(0.0, 1.0) * k).to_f64(), V::s(src.real(-7.0, 7.0)).to_f64(), V::s(src.real(-1.0, 4.0)).to_f64());
    let sp = <V::Spherical as Spherical3d>::new(V::s(r), V::s(p), V::s(t));
    ensure!([sp.r().to_f64(), sp.phi().to_f64(), sp.theta().to_f64()] == [r, p, t], "spherical-new", "{:?} keeps {} {} {}", sp, r, p, t);
    let w = [r * t.sin() * p.cos(), r * t.sin() * p.sin(), r * t.cos()];
    let g = sp.cartesian().co();
    ensure!((0..3).all(|i| near(g[i], w[i], 16.0 * u * r)), "cartesian", "({}, {}, {}) is {:?}, expected {:?}", r, p, t, g, w);
    Ok(())
}

pub fn slerp<V: Ar<3> + Vector3D<S = <V as Ar<3>>::T>>(src: &mut Src, c: &mut Ctx) -> Res {
    let u = V::U;
    let a = unit3::<V>(src);
    let n = |v: [f64; 3]| {
        let l = norm(&v);
        v.map(|x| V::s(x / l).to_f64())
    };
    let b = match src.below(3) {
        0 => {
            // close by
            let k = src.scale(if u < 1e-10 { -30 } else { -14 }, -1);
            let d = unit3::<V>(src);
            let v: [f64; 3] = std::array::from_fn(|i| a[i] + d[i] * k);
            if norm(&v) < 0.1 {
                return c.discard();
            }
            n(v)
        }
        1 => unit3::<V>(src),
        _ => {
            let d = unit3::<V>(src);
            let k = src.real(0.0, 2.0);
            let v: [f64; 3] = std::array::from_fn(|i| a[i] + d[i] * k);
            if norm(&v) < 0.1 {
                return c.discard();
            }
            n(v)
        }
    };
    let t = if src.chance(1, 3) { *src.pick(&[0.0, 1.0, 0.5, 0.25]) } else { V::s(src.real(0.0, 1.0)).to_f64() };
    let (w, _) = x3(a, b);
    let (sin, cos) = (norm(&w), xdot((0..3).map(|i| (a[i], b[i]))).0);
    let th = sin.atan2(cos);
    c.log(|| format!("{:?} to {:?} at {}, angle {}", a, b, t, th));
    if th > 3.0 {
        return c.discard(); // the way round is arbitrary
    }
    let (p, q) = if th < 1e-12 { (1.0 - t, t) } else { (((1.0 - t) * th).sin() / th.sin(), (t * th).sin() / th.sin()) };
    let g = V::mk(a).slerp(&V::mk(b), V::s(t)).co();
    let tol = 40.0 * u / th.sin().max(if th < 1.5 { 1.0 } else { 0.0 });
    for i in 0..3 {
        let w = p * a[i] + q * b[i];
        ensure!(near(g[i], w, tol), "slerp", "{:?} to {:?} at {} gives {:?}, expected {} for coordinate {}", a, b, t, g, w, i);
    }
    c.label(if th < 1e-3 { "tiny angle" } else { "angle" });
    if t > 0.0 && th > 1e-12 {
        c.nontrivial();
    }
    Ok(())
}

/// The area vector of a closed outline.
pub fn newell<V: Ar<3> + Vector3D<S = <V as Ar<3>>::T>>(src: &mut Src, c: &mut Ctx) -> Res {
    let u = V::U;
    let n = src.sized(3, 24);
    let v: Vec<[f64; 3]> = if src.bool() { (0..n).map(|_| std::array::from_fn(|_| src.int(-16, 16) as f64)).collect() } else { (0..n).map(|_| std::array::from_fn(|_| V::s(src.real(-1.0, 1.0)).to_f64())).collect() };
    c.log(|| format!("{:?}", v));
    let vs: Vec<V> = v.iter().map(|x| V::mk(*x)).collect();
    let g = Vector3DIteratorExt::normal(vs.iter().copied()).co();
    let mut w = [0.0; 3];
    let mut m = 0.0;
    for i in 0..n {
        let (x, k) = x3(v[i], v[(i + 1) % n]);
        for j in 0..3 {
            w[j] += x[j] / 2.0;
            m += k[j];
        }
    }
    ensure!((0..3).all(|i| near(g[i], w[i], 32.0 * u * m)), "area-vector", "the area vector of {:?} is {:?}, expected {:?}", v, g, w);
    if norm(&w) > 1e-3 * m {
        c.nontrivial();
    }
    Ok(())
}

pub fn hyper<V: Ar<4> + Vector4D<S = <V as Ar<4>>::T>>(src: &mut Src, c: &mut Ctx) -> Res {
    let a = coords::<V, 4>(src);
    let s = a.map(|x| V::s(x));
    c.log(|| format!("{:?}", a));
    c.nontrivial();
    let x = <V as Vector4D>::new(s[0], s[1], s[2], s[3]);
    ensure!(x.co() == a && Vector4D::xyzw(&x).co() == a, "new", "new and xyzw of {:?}: {:?} {:?}", a, x, Vector4D::xyzw(&x));
    let t = Vector4D::tuple(&x);
    ensure!([t.0, t.1, t.2, t.3] == s && Vector4D::to_array(&x) == s, "tuple", "tuple and array of {:?}: {:?} {:?}", a, t, Vector4D::to_array(&x));
    Ok(())
}

/// A scalar next to the floating point numbers of the language.
pub fn scalar<V: Ar<3>>(src: &mut Src, c: &mut Ctx) -> Res {
    let u = V::U;
    let s = V::s;
    let mut one = |src: &mut Src| num::<V, 3>(src);
    let (a, b) = (one(src), one(src));
    let b = match src.below(4) {
        0 => a,
        1 => -a,
        _ => b,
    };
    c.log(|| format!("{:?} {:?}", a, b));
    let (x, y) = (s(a), s(b));
    ensure!(x.to_f64() == a, "to_f64", "{:?} is {:?}", a, x.to_f64());
    ensure!(Scalar::is_positive(x) == (a > 0.0) && Scalar::is_negative(x) == (a < 0.0), "sign", "{:?} is positive: {}, negative: {}", a, Scalar::is_positive(x), Scalar::is_negative(x));
    let z = s(-0.0);
    ensure!(!Scalar::is_positive(z) && !Scalar::is_negative(z) && !Scalar::is_positive(V::T::ZERO) && !Scalar::is_negative(V::T::ZERO), "sign", "zero has a sign");
    ensure!(Scalar::abs(x).to_f64() == a.abs(), "abs", "abs({:?}) = {:?}", a, Scalar::abs(x));
    ensure!(Scalar::max(&x, y).to_f64() == a.max(b) && Scalar::min(&x, y).to_f64() == a.min(b), "min-max", "max and min of {:?} and {:?} are {:?} and {:?}", a, b, Scalar::max(&x, y), Scalar::min(&x, y));
    ensure!(Scalar::is_finite(x) && !Scalar::is_nan(x), "finite", "{:?}", a);
    for (v, f, n) in [(V::T::INFINITY, false, false), (V::T::NEG_INFINITY, false, false), (V::T::INFINITY - V::T::INFINITY, false, true)] {
        ensure!(Scalar::is_finite(v) == f && Scalar::is_nan(v) == n, "finite", "{:?}: finite {}, nan {}", v, Scalar::is_finite(v), Scalar::is_nan(v));
    }
    ensure!(V::T::INFINITY.to_f64() == f64::INFINITY && V::T::NEG_INFINITY.to_f64() == f64::NEG_INFINITY, "constants", "the infinities");
    for (v, w) in [
        (V::T::PI, std::f64::consts::PI),
        (V::T::EPS, 2.0 * u),
        (V::T::ZERO, 0.0),
        (V::T::ONE, 1.0),
        (V::T::TWO, 2.0),
        (V::T::THREE, 3.0),
        (V::T::FOUR, 4.0),
        (V::T::FIVE, 5.0),
        (V::T::TEN, 10.0),
        (V::T::HALF, 0.5),
        (V::T::PHI, 1.618033988749894848),
    ] {
        ensure!(v.to_f64() == s(w).to_f64(), "constants", "{:?} instead of {:?}", v, w);
    }
    let k = src.usize(0, 1 << 20);
    ensure!(V::T::from_usize(k).to_f64() == k as f64, "from_usize", "{} becomes {:?}", k, V::T::from_usize(k));
    // functions
    let ang = s(src.real(-7.0, 7.0)).to_f64();
    let p = s(ang);
    for (n, g, w) in [("sin", Scalar::sin(&p), ang.sin()), ("cos", Scalar::cos(&p), ang.cos())] {
        ensure!(near(g.to_f64(), w, 4.0 * u), "trigonometry", "{}({}) = {:?}, expected {}", n, ang, g, w);
    }
    let t = ang.tan();
    ensure!(near(Scalar::tan(&p).to_f64(), t, 8.0 * u * (1.0 + t * t)), "trigonometry", "tan({}) = {:?}, expected {}", ang, Scalar::tan(&p), t);
    if t != 0.0 {
        let w = 1.0 / t;
        ensure!(near(Scalar::cot(&p).to_f64(), w, 16.0 * u * (1.0 + w * w)), "trigonometry", "cot({}) = {:?}, expected {}", ang, Scalar::cot(&p), w);
    }
    let q = s(src.real(-1.0, 1.0)).to_f64();
    ensure!(near(Scalar::acos(s(q)).to_f64(), q.acos(), 8.0 * u), "trigonometry", "acos({}) = {:?}", q, Scalar::acos(s(q)));
    ensure!(near(Scalar::sqrt(s(a.abs())).to_f64(), a.abs().sqrt(), 2.0 * u * a.abs().sqrt()), "sqrt", "sqrt({}) = {:?}", a.abs(), Scalar::sqrt(s(a.abs())));
    ensure!(near(Scalar::atan2(&x, y).to_f64(), a.atan2(b), 8.0 * u), "trigonometry", "atan2({}, {}) = {:?}, expected {}", a, b, Scalar::atan2(&x, y), a.atan2(b));
    // interpolation, determinant, clamping
    let t = if src.bool() { *src.pick(&[0.0, 1.0, 0.5, -1.0]) } else { s(src.real(-2.0, 3.0)).to_f64() };
    let w = a + (b - a) * t;
    ensure!(near(Scalar::lerp(&x, y, s(t)).to_f64(), w, 6.0 * u * (a.abs() + b.abs()) * (1.0 + t.abs())), "lerp", "lerp({}, {}, {}) = {:?}, expected {}", a, b, t, Scalar::lerp(&x, y, s(t)), w);
    let m: [f64; 9] = if src.bool() { std::array::from_fn(|_| src.int(-9, 9) as f64) } else { std::array::from_fn(|_| s(src.real(-1.0, 1.0)).to_f64()) };
    let (mut w, mut z) = (0.0, 0.0);
    for (i, j, k, g) in [(0, 4, 8, 1.0), (1, 5, 6, 1.0), (2, 3, 7, 1.0), (2, 4, 6, -1.0), (1, 3, 8, -1.0), (0, 5, 7, -1.0)] {
        w += g * m[i] * m[j] * m[k];
        z += (m[i] * m[j] * m[k]).abs();
    }
    let n = m.map(|x| s(x));
    let g = V::T::det3(n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8]);
    ensure!(near(g.to_f64(), w, 16.0 * u * z), "det3", "the determinant of {:?} is {:?}, expected {}", m, g, w);
    let (lo, hi) = (one(src), one(src));
    let (lo, hi) = (lo.min(hi), lo.max(hi));
    let g = Scalar::clamp(x, s(lo), s(hi)).to_f64();
    ensure!(g == a.max(lo).min(hi), "clamp", "{} clamped to {} .. {} is {}", a, lo, hi, g);
    if lo < hi && a != b {
        c.nontrivial();
    }
    // approximate equality
    let e = *src.pick(&[0.5, 2.0, 1024.0]);
    let t = *src.pick(&[0.0, 0.5, -0.5, 0.9, -0.9, 1.125, -1.125, 2.0, -2.0, 64.0, -64.0]);
    let p = src.int(-8, 8) as f64;
    let q = s(p + t * e).to_f64();
    ensure!(Scalar::is_about(&s(p), s(q), s(e)) == (t.abs() < 1.0), "is_about", "is {} about {} up to {}? answered {}", p, q, e, Scalar::is_about(&s(p), s(q), s(e)));
    // ordering
    use procedural_modelling::math::OrderedFloats;
    let g = OrderedFloats::new(x).cmp(&OrderedFloats::new(y));
    ensure!(Some(g) == a.partial_cmp(&b), "ordering", "{} compared to {} is {:?}", a, b, g);
    Ok(())
}

#[cfg(feature = "bevy")]
pub fn quaternion(src: &mut Src, c: &mut Ctx) -> Res {
    use bevy::math::{Quat, Vec3, Vec4};
    // v rotated by the quaternion (x, y, z, w), in double precision
    fn turn(q: Vec4, v: [f64; 3]) -> [f64; 3] {
        let (p, w) = ([q.x as f64, q.y as f64, q.z as f64], q.w as f64);
        let t = x3(p, v).0.map(|x| 2.0 * x);
        let s = x3(p, t).0;
        std::array::from_fn(|i| v[i] + w * t[i] + s[i])
    }
    let id: Vec4 = <Quat as Quarternion>::identity().vec4();
    ensure!(id == Vec4::new(0.0, 0.0, 0.0, 1.0), "identity", "the identity is {:?}", id);
    let axis = unit3::<Vec3>(src);
    let ang = src.real(-6.2, 6.2) as f32 as f64;
    let v: [f64; 3] = std::array::from_fn(|_| src.real(-2.0, 2.0));
    c.log(|| format!("axis {:?}, angle {}, vector {:?}", axis, ang, v));
    let q = <Quat as Quarternion>::from_axis_angle(Vec3::mk(axis), ang as f32);
    let g = turn(q.vec4(), v);
    // Rodrigues
    let rodrigues = |k: [f64; 3], a: f64| -> [f64; 3] {
        let (x, d) = (x3(k, v).0, xdot((0..3).map(|i| (k[i], v[i]))).0);
        std::array::from_fn(|i| v[i] * a.cos() + x[i] * a.sin() + k[i] * d * (1.0 - a.cos()))
    };
    let w = rodrigues(axis, ang);
    ensure!((0..3).all(|i| near(g[i], w[i], 1e-5)), "axis-angle", "turning {:?} about {:?} by {} gives {:?}, expected {:?}", v, axis, ang, g, w);
    if ang.abs() > 0.1 {
        c.nontrivial();
        let (k, a) = q.axis_angle();
        let w2 = rodrigues(k.co(), a as f64);
        ensure!((0..3).all(|i| near(w2[i], w[i], 1e-4)), "axis-angle-back", "axis {:?} and angle {} come back as {:?} and {}", axis, ang, k, a);
    }
    let to = unit3::<Vec3>(src);
    let d = xdot((0..3).map(|i| (axis[i], to[i]))).0;
    if d > -0.99 {
        let q = <Quat as Quarternion>::from_rotation_arc(Vec3::mk(axis), Vec3::mk(to));
        let g = turn(q.vec4(), axis);
        ensure!((0..3).all(|i| near(g[i], to[i], 2e-5)), "arc", "the rotation from {:?} to {:?} takes it to {:?}", axis, to, g);
        // the shortest one keeps what is perpendicular to both
        let n = x3(axis, to).0;
        let g = turn(q.vec4(), n);
        ensure!((0..3).all(|i| near(g[i], n[i], 2e-5)), "arc", "the rotation from {:?} to {:?} moves the axis", axis, to);
    }
    Ok(())
}

pub fn targets23() -> Vec<Target> {
    vec![
        target("vec1_f64", 100000, 3000000, vector::<SVector<f64, 1>, 1>),
        target("vec2_f64", 300000, 8000000, vector::<SVector<f64, 2>, 2>),
        target("vec3_f64", 300000, 8000000, vector::<SVector<f64, 3>, 3>),
        target("vec4_f64", 200000, 6000000, vector::<SVector<f64, 4>, 4>),
        target("vec6_f64", 100000, 4000000, vector::<SVector<f64, 6>, 6>),
        target("vec2_f32", 200000, 6000000, vector::<SVector<f32, 2>, 2>),
        target("vec3_f32", 200000, 6000000, vector::<SVector<f32, 3>, 3>),
        target("sums_f64", 30000, 700000, sums::<SVector<f64, 2>, 2>),
        target("sums_f32", 30000, 700000, sums::<SVector<f32, 3>, 3>),
        target("moves_f64", 300000, 6000000, moves::<SVector<f64, 3>, 3>),
        target("moves_f32", 200000, 6000000, moves::<SVector<f32, 2>, 2>),
        target("flat_f64", 300000, 8000000, flat::<SVector<f64, 2>>),
        target("flat_f32", 200000, 6000000, flat::<SVector<f32, 2>>),
        target("space_f64", 300000, 8000000, space::<SVector<f64, 3>>),
        target("space_f32", 200000, 6000000, space::<SVector<f32, 3>>),
        target("slerp_f64", 300000, 8000000, slerp::<SVector<f64, 3>>),
        target("slerp_f32", 200000, 6000000, slerp::<SVector<f32, 3>>),
        target("newell_f64", 100000, 3000000, newell::<SVector<f64, 3>>),
        target("newell_f32", 100000, 3000000, newell::<SVector<f32, 3>>),
        target("hyper_f64", 60000, 600000, hyper::<SVector<f64, 4>>),
        target("scalar_f64", 400000, 8000000, scalar::<SVector<f64, 3>>),
        target("scalar_f32", 300000, 8000000, scalar::<SVector<f32, 3>>),
    ]
}
#[cfg(feature = "bevy")]
pub fn bevy23() -> Vec<Target> {
    use bevy::math::{Vec2, Vec3, Vec4};
    vec![
        target("vec2_bevy", 200000, 6000000, vector::<Vec2, 2>),
        target("vec3_bevy", 200000, 6000000, vector::<Vec3, 3>),
        target("vec4_bevy", 200000, 6000000, vector::<Vec4, 4>),
        target("sums2_bevy", 20000, 500000, sums::<Vec2, 2>),
        target("sums3_bevy", 20000, 500000, sums::<Vec3, 3>),
        target("sums4_bevy", 10000, 500000, sums::<Vec4, 4>),
        target("moves2_bevy", 200000, 4000000, moves::<Vec2, 2>),
        target("moves3_bevy", 200000, 4000000, moves::<Vec3, 3>),
        target("moves4_bevy", 200000, 4000000, moves::<Vec4, 4>),
        target("flat_bevy", 200000, 6000000, flat::<Vec2>),
        target("space_bevy", 200000, 6000000, space::<Vec3>),
        target("slerp_bevy", 200000, 6000000, slerp::<Vec3>),
        target("newell_bevy", 100000, 3000000, newell::<Vec3>),
        target("hyper_bevy", 60000, 600000, hyper::<Vec4>),
        target("quaternion_bevy", 200000, 6000000, quaternion),
    ]
}
pub fn prop23_with(extra: Vec<Target>) -> Property {
    let mut targets = targets23();
    targets.extend(extra);
    Property {
        id: "P23",
        rule: "the vectors are neither equal nor parallel (angles), a product does not vanish, a sum has more than four terms, an interpolation moves",
        assumptions: &[
            "the reference is double-double arithmetic and the error bounds are a small multiple of the unit roundoff times the magnitudes of the terms",
            "coordinates stay within 2^±40 (f64) and 2^±14 (f32), so that no product overflows or underflows",
            "normalising the zero vector is left open: the documentation says panic, the backends return zero or NaN",
            "spherical interpolation is judged for unit vectors up to an angle of 3",
        ],
        targets,
        known: vec![],
    }
}
