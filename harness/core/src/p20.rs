//! Affine laws of the transformations of all backends (P20).
use crate::maps::*;
use engine::*;
use procedural_modelling::prelude::*;

pub fn compare<A: Maps<D>, const D: usize>(src: &mut Src, a: &A, r: &Ref<D>, what: &str) -> Res {
    for i in 0..4 {
        let mut p = rv::<A, D>(src);
        if i == 0 {
            p = [0.0; D];
        }
        let (g, w) = (A::co(&a.apply(A::ve(p))), r.at(p));
        let tol = A::EPS * (r.bound(p) + 1e-30);
        ensure!((0..D).all(|i| (g[i] - w[i]).abs() <= tol), "point", "{}: the point {:?} is mapped to {:?}, expected {:?}", what, p, g, w);
        let (g, w) = (A::co(&a.apply_vec(A::ve(p))), r.vec(p));
        ensure!((0..D).all(|i| (g[i] - w[i]).abs() <= tol), "direction", "{}: the direction {:?} is mapped to {:?}, expected {:?}", what, p, g, w);
    }
    Ok(())
}

pub fn laws<A: Maps<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res {
    let k = class::<A, D>(src);
    let mut s = String::new();
    let (a, r) = random_map::<A, D>(src, k, 3, &mut s);
    c.log(|| s.clone());
    compare::<A, D>(src, &a, &r, "the map")?;
    if r.steps > 2.0 && (r.rot || r.stretch) && r.t != [0.0; D] {
        c.nontrivial();
    }
    // identities
    compare::<A, D>(src, &a.chain(&A::identity()), &r, "chained with the identity")?;
    compare::<A, D>(src, &A::identity().chain(&a), &r, "the identity chained with the map")?;
    // associativity, through the map itself
    let mut s = String::new();
    let (b, rb) = random_map::<A, D>(src, k, 1, &mut s);
    s.push_str(" and ");
    let (d, rd) = random_map::<A, D>(src, k, 1, &mut s);
    c.log(|| format!("then {}", s));
    let all = r.then(&rb).then(&rd);
    compare::<A, D>(src, &a.chain(&b).chain(&d), &all, "(a, b), c")?;
    compare::<A, D>(src, &a.chain(&b.chain(&d)), &all, "a, (b, c)")?;
    let p = rv::<A, D>(src);
    let (x, y) = (A::co(&a.chain(&b).apply(A::ve(p))), A::co(&b.apply(a.apply(A::ve(p)))));
    let tol = 2.0 * A::EPS * (r.then(&rb).bound(p) + 1e-30);
    ensure!((0..D).all(|i| (x[i] - y[i]).abs() <= tol), "order", "chaining maps {:?} to {:?}, applying the left map first gives {:?}", p, x, y);
    Ok(())
}

fn rotations<A: Maps<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res {
    let len = |v: [f64; D]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    let (q, m) = A::rot(src);
    let a = A::from_rotation(q);
    c.log(|| format!("rotation {:?}", m));
    compare::<A, D>(src, &a, &Ref::rotation(m), "the rotation")?;
    let p = rv::<A, D>(src);
    let l = len(A::co(&a.apply(A::ve(p))));
    ensure!((l - len(p)).abs() <= 4.0 * A::EPS * len(p), "length", "rotating changes the length of {:?} from {} to {}", p, len(p), l);
    c.nontrivial();
    Ok(())
}

fn arcs<A: Maps<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res {
    let len = |v: [f64; D]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    let u = unit::<D>(src);
    let k = src.below(8);
    let mut w = match k {
        0 => u,
        1 => u.map(|x| -x),
        2 | 3 => {
            // nearly parallel or opposite
            let n = unit::<D>(src);
            let e = 10f64.powi(-(src.usize(1, 12) as i32));
            let s = if k == 2 { 1.0 } else { -1.0 };
            std::array::from_fn(|i| s * u[i] + e * n[i])
        }
        _ => unit::<D>(src),
    };
    c.label(["parallel", "opposite", "nearly parallel", "nearly opposite", "", "", "", ""][k as usize]);
    let l = len(w);
    w = w.map(|x| x / l);
    let (su, sw) = if A::UNIT_ARCS { (1.0, 1.0) } else { (src.scale(-3, 3), src.scale(-3, 3)) };
    let from = A::round(u.map(|x| x * su));
    let to = A::round(w.map(|x| x * sw));
    c.log(|| format!("arc from {:?} to {:?}", from, to));
    let a = A::from_rotation_arc(A::ve(from), A::ve(to));
    let g = A::co(&a.apply(A::ve(from)));
    let lf = len(from) / len(to);
    let want = to.map(|x| x * lf);
    let tol = A::ARC * len(from);
    ensure!((0..D).all(|i| (g[i] - want[i]).abs() <= tol), "arc", "the arc maps {:?} to {:?}, expected {:?}", from, g, want);
    // it is a rotation
    let p = rv::<A, D>(src);
    let q = rv::<A, D>(src);
    let (gp, gq) = (A::co(&a.apply(A::ve(p))), A::co(&a.apply(A::ve(q))));
    ensure!((len(gp) - len(p)).abs() <= A::ARC * len(p), "length", "the arc changes the length of {:?} to {:?}", p, gp);
    let dot = |a: [f64; D], b: [f64; D]| (0..D).map(|i| a[i] * b[i]).sum::<f64>();
    ensure!((dot(gp, gq) - dot(p, q)).abs() <= 4.0 * A::ARC * len(p) * len(q), "angle", "the arc changes the angle between {:?} and {:?}", p, q);
    let e: Vec<[f64; D]> = (0..D)
        .map(|i| {
            let mut e = [0.0; D];
            e[i] = 1.0;
            A::co(&a.apply_vec(A::ve(e)))
        })
        .collect();
    let det = if D == 2 { e[0][0] * e[1][1] - e[0][1] * e[1][0] } else { e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[1][0] * (e[0][1] * e[2][2] - e[0][2] * e[2][1]) + e[2][0] * (e[0][1] * e[1][2] - e[0][2] * e[1][1]) };
    ensure!((det - 1.0).abs() < 10.0 * A::ARC, "reflection", "the arc from {:?} to {:?} has determinant {}", from, to, det);
    if k > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// The operations of vectors as payloads are the maps.
fn vectors<A: Maps<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    A::Vec: Transformable<D, Trans = A, Rot = A::Rot, Vec = A::Vec, S = A::Sc>,
{
    let p = rv::<A, D>(src);
    let same = |g: A::Vec, w: [f64; D], b: f64, what: &str| {
        let g = A::co(&g);
        ensure!((0..D).all(|i| (g[i] - w[i]).abs() <= A::EPS * (b + 1e-30)), "vector", "{} of {:?} gives {:?}, expected {:?}", what, p, g, w);
        Ok(())
    };
    let v = A::ve(p);
    let both = |f: &dyn Fn(&mut A::Vec), g: &dyn Fn(&A::Vec) -> A::Vec| {
        let mut x = v;
        f(&mut x);
        let y = g(&v);
        (x, y, A::co(&x) == A::co(&y))
    };
    let k = class::<A, D>(src);
    let mut s = String::new();
    let (a, r) = random_map::<A, D>(src, k, 2, &mut s);
    c.log(|| format!("{:?} under {}", p, s));
    let (x, y, eq) = both(&|x| drop(x.transform(&a)), &|x| x.transformed(&a));
    ensure!(eq, "variant", "transform gives {:?}, transformed {:?}", A::co(&x), A::co(&y));
    same(x, r.at(p), r.bound(p), "transform")?;
    let t = rv::<A, D>(src);
    let (x, y, eq) = both(&|x| drop(x.translate(&A::ve(t))), &|x| x.translated(&A::ve(t)));
    ensure!(eq, "variant", "translate gives {:?}, translated {:?}", A::co(&x), A::co(&y));
    let rt = Ref::translation(t);
    same(x, rt.at(p), rt.bound(p), "translate")?;
    let t = rs::<A, D>(src, false);
    let (x, y, eq) = both(&|x| drop(Transformable::scale(x, &A::ve(t))), &|x| x.scaled(&A::ve(t)));
    ensure!(eq, "variant", "scale gives {:?}, scaled {:?}", A::co(&x), A::co(&y));
    let rt = Ref::scale(t);
    same(x, rt.at(p), rt.bound(p), "scale")?;
    if A::ROT {
        let (q, m) = A::rot(src);
        let (x, y, eq) = both(&|x| drop(Transformable::rotate(x, &q)), &|x| x.rotated(&q));
        ensure!(eq, "variant", "rotate gives {:?}, rotated {:?}", A::co(&x), A::co(&y));
        let rt = Ref::rotation(m);
        same(x, rt.at(p), rt.bound(p), "rotate")?;
    }
    // linear interpolation
    let q = rv::<A, D>(src);
    let t = match src.below(4) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => src.real(-1.0, 2.0),
    };
    let ts = <A::Sc as Scalar>::from_usize(1) * crate::poly::sc::<A::Sc>(t);
    let t = ts.to_f64();
    let (x, y, eq) = both(&|x| drop(Transformable::lerp(x, &A::ve(q), ts)), &|x| x.lerped(&A::ve(q), ts));
    ensure!(eq, "variant", "lerp gives {:?}, lerped {:?}", A::co(&x), A::co(&y));
    let w: [f64; D] = std::array::from_fn(|i| p[i] * (1.0 - t) + q[i] * t);
    let b = (0..D).map(|i| (p[i].abs() + q[i].abs()) * (1.0 + t.abs())).fold(0.0, f64::max);
    same(x, w, 2.0 * b, &format!("interpolation at {} towards {:?}", t, q))?;
    c.nontrivial();
    Ok(())
}

/// Affine maps from a matrix and a translation, and their approximate equality.
fn affine<const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    procedural_modelling::extensions::nalgebra::NdAffine<f64, D>: Maps<D, Vec = nalgebra::SVector<f64, D>>,
{
    use procedural_modelling::extensions::nalgebra::NdAffine;
    type A<const D: usize> = NdAffine<f64, D>;
    let grid = src.bool();
    let mut x = |src: &mut Src| if grid { src.int(-4, 4) as f64 } else { src.real(-4.0, 4.0) };
    let mut r = Ref::<D>::id();
    for i in 0..D {
        r.t[i] = x(src);
        r.tb[i] = r.t[i].abs();
        for j in 0..D {
            r.m[i][j] = x(src);
            r.mb[i][j] = r.m[i][j].abs();
        }
    }
    let make = |r: &Ref<D>| A::<D>::new(nalgebra::SMatrix::from_fn(|i, j| r.m[i][j]), nalgebra::SVector::from_fn(|i, _| r.t[i]));
    let a = make(&r);
    c.log(|| format!("matrix {:?}, translation {:?}", r.m, r.t));
    compare::<A<D>, D>(src, &a, &r, "the map of the matrix")?;
    let eps = *src.pick(&[1e-6, 0.125, 1.0]);
    let mut q = Ref { m: r.m, t: r.t, ..Ref::id() };
    // a few entries differ
    let k = *src.pick(&[0.5, 0.9, 1.1, 2.0, 100.0]);
    for _ in 0..src.usize(0, 2) {
        let (i, j, neg) = (src.below(D as u64) as usize, src.below(D as u64 + 1) as usize, src.bool());
        let e = if j < D { &mut q.m[i][j] } else { &mut q.t[i] };
        *e += if neg { -k } else { k } * eps;
        c.log(|| format!("entry {}, {} differs by {}", i, j, k * eps));
    }
    let d = (0..D).flat_map(|i| (0..=D).map(move |j| (i, j))).map(|(i, j)| if j < D { (r.m[i][j] - q.m[i][j]).abs() } else { (r.t[i] - q.t[i]).abs() }).fold(0.0, f64::max);
    if (d - eps).abs() < 0.05 * eps {
        return c.discard();
    }
    let b = make(&q);
    ensure_eq!(a.is_about(&b, eps), d < eps, "about", "is_about within {} of maps whose entries differ by up to {}", eps, d);
    ensure_eq!(b.is_about(&a, eps), d < eps, "about", "is_about within {} of maps whose entries differ by up to {} (swapped)", eps, d);
    if d > 0.0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn targets20<A: Maps<D>, const D: usize>(n: [&'static str; 4], q: u64) -> Vec<Target>
where
    A::Vec: Transformable<D, Trans = A, Rot = A::Rot, Vec = A::Vec, S = A::Sc>,
{
    let mut r = vec![target(n[0], q, 30 * q, laws::<A, D>), target(n[1], q / 2, 15 * q, vectors::<A, D>)];
    if A::ROT {
        r.push(target(n[2], q / 2, 15 * q, rotations::<A, D>));
    }
    if D < 4 {
        r.push(target(n[3], q / 2, 15 * q, arcs::<A, D>));
    }
    r
}

pub fn prop20_with(extra: Vec<Target>) -> Property {
    use procedural_modelling::extensions::nalgebra::NdAffine;
    let mut targets = targets20::<NdAffine<f64, 2>, 2>(["laws_2d", "vectors_2d", "rotations_2d", "arcs_2d"], 800000);
    targets.extend(targets20::<NdAffine<f64, 3>, 3>(["laws_3d", "vectors_3d", "rotations_3d", "arcs_3d"], 800000));
    targets.extend(targets20::<NdAffine<f64, 4>, 4>(["laws_4d", "vectors_4d", "rotations_4d", ""], 400000));
    targets.extend(targets20::<NdAffine<f64, 5>, 5>(["laws_5d", "vectors_5d", "rotations_5d", ""], 400000));
    targets.extend(targets20::<NdAffine<f32, 2>, 2>(["laws_2d_f32", "vectors_2d_f32", "rotations_2d_f32", "arcs_2d_f32"], 400000));
    targets.extend(targets20::<NdAffine<f32, 3>, 3>(["laws_3d_f32", "vectors_3d_f32", "rotations_3d_f32", "arcs_3d_f32"], 400000));
    targets.extend(targets20::<NdAffine<f32, 4>, 4>(["laws_4d_f32", "vectors_4d_f32", "rotations_4d_f32", ""], 400000));
    targets.push(target("affine_2d", 100000, 3000000, affine::<2>));
    targets.push(target("affine_3d", 100000, 3000000, affine::<3>));
    targets.push(target("affine_4d", 50000, 1500000, affine::<4>));
    targets.extend(extra);
    Property {
        id: "P20",
        rule: "random expressions of constructors, with_*, and chain next to a plain matrix; random rotations, and arcs between arbitrary, equal, opposite and nearly (anti)parallel directions; non-trivial: several steps with a translation and a rotation or stretch; arcs between different, not exactly opposite directions",
        assumptions: &["the bevy Transform cannot represent shears, so rotations and non-uniform scales are not mixed there", "bevy's rotation arcs expect unit vectors"],
        targets,
        known: vec![],
    }
}
