//! P07 (topology and orientation of closed primitives) and P08 (their geometry).
use crate::model::*;
use crate::mt::*;
use crate::poly::*;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeMap;
use std::f64::consts::PI;

pub struct Expect {
    pub name: String,
    pub v: usize,
    pub sizes: BTreeMap<usize, usize>,
    pub convex: bool,
    pub flat: bool,
    /// all edges have this length
    pub edge: Option<f64>,
    /// all vertices at this distance from the origin
    pub radius: Option<f64>,
    pub points: Option<Vec<D3>>,
    pub volume: Option<f64>,
    /// vertex positions that must appear as a face boundary
    pub faces: Vec<Vec<D3>>,
}
impl Expect {
    fn new(name: impl Into<String>, v: usize, sizes: &[(usize, usize)]) -> Self {
        let mut m = BTreeMap::new();
        for (k, n) in sizes {
            if *n > 0 {
                *m.entry(*k).or_insert(0) += n;
            }
        }
        Expect { name: name.into(), v, sizes: m, convex: true, flat: false, edge: None, radius: None, points: None, volume: None, faces: vec![] }
    }
    fn edge(mut self, l: f64) -> Self {
        self.edge = Some(l);
        self
    }
    fn radius(mut self, l: f64) -> Self {
        self.radius = Some(l);
        self
    }
    fn volume(mut self, l: f64) -> Self {
        self.volume = Some(l);
        self
    }
    fn points(mut self, p: Vec<D3>) -> Self {
        self.points = Some(p);
        self
    }
    fn face(mut self, p: Vec<D3>) -> Self {
        self.faces.push(p);
        self
    }
    fn loose(mut self) -> Self {
        self.convex = false;
        self
    }
}

fn f32r(x: f64) -> f64 {
    x as f32 as f64
}
/// a parameter exactly representable in single precision
fn par(src: &mut Src) -> f64 {
    let lim = 6;
    f32r(src.scale(-lim, lim))
}
fn circle(r: f64, n: usize, shift: f64, y: f64) -> Vec<D3> {
    (0..n)
        .map(|i| {
            let a = PI * (2.0 * i as f64 + shift) / n as f64;
            [r * a.cos(), y, -r * a.sin()]
        })
        .collect()
}
fn ngon_area(r: f64, n: usize) -> f64 {
    0.5 * n as f64 * r * r * (2.0 * PI / n as f64).sin()
}
pub fn vpt<T: P3>(p: D3) -> T::VP {
    T::VP::from_pos(T::Vec::new(sc::<T::S>(p[0]), sc::<T::S>(p[1]), sc::<T::S>(p[2])))
}
fn sides(src: &mut Src) -> usize {
    match src.below(256) {
        0..=1 => src.usize(41, 500),
        // round numbers and powers of two
        2..=3 => *src.pick(&[16, 24, 32, 36, 48, 50, 60, 64, 72, 90, 96, 100, 120, 128, 144, 160, 180, 192, 200, 240, 256, 300, 360, 400, 500]),
        4..=31 => src.usize(3, 40),
        _ => src.usize(3, 9),
    }
}

/// a random planar star-shaped polygon, counter-clockwise in the plane spanned by (u, v)
fn star(src: &mut Src, n: usize) -> Vec<[f64; 2]> {
    (0..n)
        .map(|i| {
            let a = 2.0 * PI * (i as f64 + src.real(-0.3, 0.3)) / n as f64;
            let r = src.real(0.5, 2.0);
            [r * a.cos(), r * a.sin()]
        })
        .collect()
}
fn frame(src: &mut Src) -> (D3, D3, D3) {
    // axis aligned with integer entries, or random orthonormal
    if src.bool() {
        let p = src.perm(3);
        let mut m = [[0.0; 3]; 3];
        for i in 0..3 {
            m[i][p[i]] = if src.bool() { -1.0 } else { 1.0 };
        }
        if dot(m[2], cross(m[0], m[1])) < 0.0 {
            m[2] = mul(m[2], -1.0);
        }
        (m[0], m[1], m[2])
    } else {
        let u = loop {
            let u = [src.real(-1.0, 1.0), src.real(-1.0, 1.0), src.real(-1.0, 1.0)];
            if len(u) > 0.3 {
                break mul(u, 1.0 / len(u));
            }
            if src.rec.len() > 3000 {
                break [1.0, 0.0, 0.0];
            }
        };
        let a = if u[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
        let v = cross(u, a);
        let v = mul(v, 1.0 / len(v));
        (u, v, cross(u, v))
    }
}
fn area2(p: &[[f64; 2]]) -> f64 {
    (0..p.len())
        .map(|i| {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            (a[0] * b[1] - a[1] * b[0]) / 2.0
        })
        .sum()
}

pub const KINDS: usize = 23;
pub const KIND_NAMES: [&str; KINDS] = [
    "regular_tetrahedron", "cuboid", "cube", "regular_hexahedron", "regular_octahedron", "dodecahedron", "regular_icosahedron",
    "regular_prism", "uniform_prism", "regular_antiprism", "uniform_antiprism", "regular_pyramid", "cone", "regular_frustum",
    "uv_sphere", "geodesic", "icosphere", "prism", "antiprism", "antiprism_iter", "pyramid", "frustum", "dihedron",
];

/// Generates one primitive of the given kind.
pub fn primitive<T: P3>(src: &mut Src, c: &mut Ctx, kind: usize, into: Option<&mut HalfEdgeMeshImpl<T>>) -> Result<Option<(HalfEdgeMeshImpl<T>, Expect)>, Fail> {
    type Mesh<T> = HalfEdgeMeshImpl<T>;
    let s = |x: f64| sc::<T::S>(x);
    let q = |x: f64| sc::<T::S>(x).to_f64();
    macro_rules! make {
        ($ins:ident, $new:ident, $($a:expr),*) => {
            match into {
                Some(m) => { let e = m.$ins($($a),*); ensure!(m.edges().any(|x| x.id() == e), "ret", "{} returns the dead edge {}", stringify!($ins), e); Mesh::<T>::new() }
                None => Mesh::<T>::$new($($a),*),
            }
        };
    }
    let max_v = if into.is_some() { T::CAPS / 3 } else { T::CAPS };
    let inserting = into.is_some();
    if inserting && kind < 17 {
        return Ok(None);
    }
    let r = par(src);
    let h = par(src);
    let n = sides(src);
    c.log(|| format!("{} r={} h={} n={}", KIND_NAMES[kind], r, h, n));
    // half-edges needed must fit the index type
    if 8 * n > max_v && kind >= 7 {
        return Ok(None);
    }
    Ok(Some(match kind {
        0 => (Mesh::<T>::regular_tetrahedron(s(r)), Expect::new("", 4, &[(3, 4)]).edge(r).radius(r * 6f64.sqrt() / 4.0).volume(r.powi(3) / (6.0 * 2f64.sqrt()))),
        1 => {
            let d = [r, h, par(src)];
            let mut pts = vec![];
            for i in 0..8 {
                pts.push([d[0] / 2.0 * if i & 1 > 0 { 1.0 } else { -1.0 }, d[1] / 2.0 * if i & 2 > 0 { 1.0 } else { -1.0 }, d[2] / 2.0 * if i & 4 > 0 { 1.0 } else { -1.0 }]);
            }
            (Mesh::<T>::cuboid(T::Vec::new(s(d[0]), s(d[1]), s(d[2]))), Expect::new("", 8, &[(4, 6)]).points(pts).volume(d[0] * d[1] * d[2]))
        }
        2 => (Mesh::<T>::cube(s(r)), Expect::new("", 8, &[(4, 6)]).edge(r).radius(r * 3f64.sqrt() / 2.0).volume(r * r * r)),
        3 => (Mesh::<T>::regular_hexahedron(s(r)), Expect::new("", 8, &[(4, 6)]).edge(r).radius(r * 3f64.sqrt() / 2.0).volume(r * r * r)),
        4 => (Mesh::<T>::regular_octahedron(s(r)), Expect::new("", 6, &[(3, 8)]).edge(r * 2f64.sqrt()).radius(r).volume(4.0 / 3.0 * r * r * r)),
        5 => {
            let a = r * 4.0 / (3f64.sqrt() * (1.0 + 5f64.sqrt()));
            (Mesh::<T>::dodecahedron(s(r)), Expect::new("", 20, &[(5, 12)]).radius(r).edge(a).volume((15.0 + 7.0 * 5f64.sqrt()) / 4.0 * a.powi(3)))
        }
        6 => {
            let rad = r * (10.0 + 2.0 * 5f64.sqrt()).sqrt() / 4.0;
            (Mesh::<T>::regular_icosahedron(s(r)), Expect::new("", 12, &[(3, 20)]).edge(r).radius(rad).volume(5.0 / 12.0 * (3.0 + 5f64.sqrt()) * r.powi(3)))
        }
        7 | 8 => {
            let side = 2.0 * r * (PI / n as f64).sin();
            let (m, h) = if kind == 7 { (Mesh::<T>::regular_prism(s(r), s(h), n), h) } else { (Mesh::<T>::uniform_prism(s(r), n), side) };
            let (b, t) = (circle(r, n, 0.0, 0.0), circle(r, n, 0.0, h));
            let mut e = Expect::new("", 2 * n, &[(n, 2), (4, n)]).points([b.clone(), t.clone()].concat()).face(b).face(t).volume(ngon_area(r, n) * h);
            if kind == 8 {
                e = e.edge(side);
            }
            (m, e)
        }
        9 | 10 => {
            let side = 2.0 * r * (PI / n as f64).sin();
            let hu = side * (1.0 - 1.0 / (2.0 * (PI / (2.0 * n as f64)).cos()).powi(2)).sqrt();
            let (m, h) = if kind == 9 { (Mesh::<T>::regular_antiprism(s(r), s(h), n), h) } else { (Mesh::<T>::uniform_antiprism(s(r), n), hu) };
            let (b, t) = (circle(r, n, 0.0, 0.0), circle(r, n, 1.0, h));
            let mut e = Expect::new("", 2 * n, &[(n, 2), (3, 2 * n)]).points([b.clone(), t.clone()].concat()).face(b).face(t);
            if kind == 10 {
                e = e.edge(side);
            }
            (m, e)
        }
        11 | 12 => {
            let m = if kind == 11 { Mesh::<T>::regular_pyramid(s(r), s(h), n) } else { Mesh::<T>::cone(s(r), s(h), n) };
            let b = circle(r, n, 0.0, 0.0);
            let mut pts = b.clone();
            pts.push([0.0, h, 0.0]);
            (m, Expect::new("", n + 1, &[(n, 1), (3, n)]).points(pts).face(b).volume(ngon_area(r, n) * h / 3.0))
        }
        13 => {
            let r2 = par(src);
            let (b, t) = (circle(r, n, 0.0, 0.0), circle(r2, n, 0.0, h));
            let k = ngon_area(1.0, n);
            (
                Mesh::<T>::regular_frustum(s(r), s(r2), s(h), n, false),
                Expect::new("", 2 * n, &[(n, 2), (4, n)]).points([b.clone(), t.clone()].concat()).face(b).face(t).volume(h / 3.0 * k * (r * r + r * r2 + r2 * r2)),
            )
        }
        14 => {
            let rings = if src.chance(1, 100) { src.usize(13, 300) } else { src.sized(2, 12) };
            let m = n;
            if m * (rings + 1) * 4 > max_v || m * rings > 4000 {
                return Ok(None);
            }
            c.log(|| format!("rings={}", rings));
            let mut e = Expect::new("", m * (rings - 1) + 2, &[(3, 2 * m), (4, m * (rings - 2))]).radius(r);
            let mut pts = vec![[0.0, r, 0.0], [0.0, -r, 0.0]];
            for i in 1..rings {
                let phi = PI * i as f64 / rings as f64;
                for j in 0..m {
                    let th = -PI * (2 * j + 4) as f64 / m as f64;
                    pts.push([r * phi.sin() * th.cos(), r * phi.cos(), r * phi.sin() * th.sin()]);
                }
            }
            e = e.points(pts);
            (Mesh::<T>::uv_sphere(s(r), rings, m), e)
        }
        15 | 16 => {
            let deep = src.chance(1, 500);
            let b = 1usize << if deep { src.usize(5, 6) } else { src.sized(0, 4) };
            let which = if kind == 16 { 3 } else { src.usize(0, 2) };
            let f0 = [4, 8, 20, 20][which];
            let e0 = [6, 12, 30, 30][which];
            let v0 = [4, 6, 12, 12][which];
            if 2 * e0 * b * b > max_v {
                return Ok(None);
            }
            c.log(|| format!("b={} which={}", b, which));
            let m = match which {
                0 => Mesh::<T>::geodesic_tetrahedron(s(r), b),
                1 => Mesh::<T>::geodesic_octahedron(s(r), b),
                2 => Mesh::<T>::geodesic_icosahedron(s(r), b),
                _ => Mesh::<T>::icosphere(s(r), b),
            };
            let v = v0 + e0 * (b - 1) + f0 * (b - 1) * b.saturating_sub(2) / 2;
            let e = Expect::new(["geodesic_tetrahedron", "geodesic_octahedron", "geodesic_icosahedron", "icosphere"][which], v, &[(3, f0 * b * b)]).radius(r);
            (m, if b > 1 { e.loose() } else { e })
        }
        17 | 18 => {
            let p = star(src, n);
            let (u, v, w) = frame(src);
            let o = [src.int(-3, 3) as f64, src.int(-3, 3) as f64, src.int(-3, 3) as f64];
            let pt = |x: [f64; 2]| {
                let y = add(o, add(mul(u, x[0]), mul(v, x[1])));
                [q(y[0]), q(y[1]), q(y[2])]
            };
            // single precision rounding makes it slightly non-planar; the geometric tolerance covers that
            let base: Vec<D3> = p.iter().map(|x| pt(*x)).collect();
            let a = area2(&p);
            let vps: Vec<T::VP> = base.iter().map(|p| vpt::<T>(*p)).collect();
            let top = |b: &[D3]| -> Vec<D3> { b.iter().map(|p| add(*p, mul(w, h))).collect() };
            if kind == 17 {
                let t = top(&base);
                let m = make!(insert_prism, prism, vps, s(h));
                let mut e = Expect::new("", 2 * n, &[(n, 2), (4, n)]).points([base.clone(), t.clone()].concat()).face(base).face(t).volume(a * h).loose();
                e.flat = true;
                (m, e)
            } else {
                let mid: Vec<D3> = (0..n).map(|i| mul(add(base[i], base[(i + 1) % n]), 0.5)).collect();
                let t = top(&mid);
                let m = make!(insert_antiprism, antiprism, vps, s(h));
                let mut e = Expect::new("", 2 * n, &[(n, 2), (3, 2 * n)]).points([base.clone(), t.clone()].concat()).face(base).face(t).loose();
                e.flat = true;
                (m, e)
            }
        }
        19 => {
            let (b, t) = (circle(r, n, 0.0, 0.0), circle(r, n, 1.0, h));
            let (b, t): (Vec<D3>, Vec<D3>) = (b.iter().map(|p| p.map(q)).collect(), t.iter().map(|p| p.map(q)).collect());
            let m = make!(insert_antiprism_iter, antiprism_iter, b.iter().map(|p| vpt::<T>(*p)), t.iter().map(|p| vpt::<T>(*p)));
            let mut e = Expect::new("", 2 * n, &[(n, 2), (3, 2 * n)]).points([b.clone(), t.clone()].concat()).face(b).face(t).loose();
            e.flat = true;
            (m, e)
        }
        20 => {
            let b: Vec<D3> = circle(r, n, 0.0, 0.0).iter().map(|p| p.map(q)).collect();
            let apex = [q(src.real(-1.0, 1.0) * r), h, q(src.real(-1.0, 1.0) * r)];
            let m = make!(insert_pyramid, pyramid, b.iter().map(|p| vpt::<T>(*p)), vpt::<T>(apex));
            let mut pts = b.clone();
            pts.push(apex);
            let mut e = Expect::new("", n + 1, &[(n, 1), (3, n)]).points(pts).face(b).volume(ngon_area(r, n) * h / 3.0).loose();
            e.flat = true;
            (m, e)
        }
        21 => {
            let r2 = par(src);
            let (b, t): (Vec<D3>, Vec<D3>) = (circle(r, n, 0.0, 0.0).iter().map(|p| p.map(q)).collect(), circle(r2, n, 0.0, h).iter().map(|p| p.map(q)).collect());
            let m = make!(insert_frustum, frustum, b.iter().map(|p| vpt::<T>(*p)), t.iter().map(|p| vpt::<T>(*p)), false);
            let k = ngon_area(1.0, n);
            let mut e = Expect::new("", 2 * n, &[(n, 2), (4, n)]).points([b.clone(), t.clone()].concat()).face(b).face(t).volume(h / 3.0 * k * (r * r + r * r2 + r2 * r2)).loose();
            e.flat = true;
            (m, e)
        }
        _ => {
            let b: Vec<D3> = circle(r, n, 0.0, h).iter().map(|p| p.map(q)).collect();
            let m = make!(insert_dihedron, dihedron, b.iter().map(|p| vpt::<T>(*p)));
            let mut e = Expect::new("", n, &[(n, 2)]).points(b.clone()).face(b).loose();
            e.flat = true;
            e.volume = Some(0.0);
            (m, e)
        }
    }))
}

pub fn p07_one<T: P3>(src: &mut Src, c: &mut Ctx) -> Res {
    let kind = src.usize(0, KINDS - 1);
    let Some((m, e)) = primitive::<T>(src, c, kind, None)? else { return c.discard() };
    let name = if e.name.is_empty() { KIND_NAMES[kind].to_string() } else { e.name.clone() };
    let s = solid(&m)?;
    let chk = m.check();
    ensure!(chk.is_ok(), "check", "{}: {}", name, chk.unwrap_err());
    ensure!(s.holes.is_empty() && !m.is_open(), "open", "{} has {} holes", name, s.holes.len());
    ensure_eq!(s.pos.len(), e.v, "count", "vertices of {}", name);
    ensure_eq!(s.sizes(), e.sizes, "count", "(face size, count) of {}", name);
    ensure_eq!((m.num_vertices(), m.num_faces()), (s.pos.len(), s.faces.len()), "count", "num_vertices, num_faces of {}", name);
    ensure_eq!(s.euler(), 2, "euler", "Euler characteristic of {}", name);
    ensure!(s.connected(), "connected", "{} is not connected", name);
    ensure!(m.has_consecutive_vertex_ids() && s.ids.iter().enumerate().all(|(i, v)| i == *v), "ids", "vertex ids of {} are {:?}", name, s.ids);
    ensure!(!m.faces().any(|f| f.may_be_curved()), "curved", "a face of {} is marked as curved", name);
    if kind != 22 {
        let sc3 = s.scale().powi(3);
        let v = s.volume();
        ensure!(v > 0.0, "orientation", "the signed volume of {} is {} (size {})", name, v, sc3);
        if e.convex {
            let o = s.centroid();
            for f in &s.faces {
                let d = dot(s.normal(f), sub(s.face_centroid(f), o));
                ensure!(d > 0.0, "orientation", "face {:?} of {} does not point outward ({})", f, name, d);
            }
            if let Err(x) = s.convex(20.0 * T::TOL) {
                return fail("convex", format!("{}: {}", name, x));
            }
        } else if kind == 15 || kind == 16 {
            for f in &s.faces {
                let d = dot(s.normal(f), s.face_centroid(f));
                ensure!(d > 0.0, "orientation", "face {:?} of {} does not point outward ({})", f, name, d);
            }
        }
        // the mesh's own face normals agree
        if kind < 17 {
            let o = s.centroid();
            for f in m.faces().take(40) {
                let n = d3(&Face3d::normal(f, &m));
                let p = f.vertices(&m).fold([0.0; 3], |a, v| add(a, d3(&v.pos())));
                let p = mul(p, 1.0 / f.num_vertices(&m) as f64);
                ensure!(dot(n, sub(p, o)) > 0.0, "orientation", "face {} of {} has the inward normal {:?}", f.id(), name, n);
            }
        }
    }
    c.label(KIND_NAMES[kind]);
    c.nontrivial();
    Ok(())
}

fn p07_inserted<T: HT + P3>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut m = HalfEdgeMeshImpl::<T>::new();
    let mut before = snap(&m);
    let k = src.usize(2, 4);
    let mut done = 0;
    let (mut v, mut f) = (0, 0);
    for _ in 0..k {
        let kind = src.usize(17, KINDS - 1);
        if <T as P3>::CAPS < 1000 && before.e.len() > 100 {
            break;
        }
        let Some((_, e)) = primitive::<T>(src, c, kind, Some(&mut m))? else { continue };
        let s = snap(&m);
        if let Err(d) = s.audit() {
            return fail("audit", format!("after inserting {}: {}", KIND_NAMES[kind], d));
        }
        v += e.v;
        f += e.sizes.values().sum::<usize>();
        done += 1;
        ensure_eq!((s.v.len(), s.f.len()), (v, f), "count", "vertices and faces after inserting {} as number {}", KIND_NAMES[kind], done);
        ensure_eq!(s.euler(), 2 * done, "euler", "Euler characteristic after inserting {} solids", done);
        for (i, x) in &before.v {
            ensure!(s.v.get(i) == Some(x), "untouched", "inserting {} changed vertex {} from {:?} to {:?}", KIND_NAMES[kind], i, x, s.v.get(i));
        }
        for (i, x) in &before.e {
            ensure!(s.e.get(i) == Some(x), "untouched", "inserting {} changed edge {} from {:?} to {:?}", KIND_NAMES[kind], i, x, s.e.get(i));
        }
        for (i, x) in &before.f {
            ensure!(s.f.get(i) == Some(x), "untouched", "inserting {} changed face {} from {:?} to {:?}", KIND_NAMES[kind], i, x, s.f.get(i));
        }
        ensure!(!m.is_open() && m.check().is_ok(), "open", "mesh open or inconsistent after inserting {}: {:?}", KIND_NAMES[kind], m.check());
        let nv: Vec<usize> = s.v.keys().filter(|i| !before.v.contains_key(i)).copied().collect();
        let comp = s.components();
        ensure!(nv.iter().all(|x| comp[x] == comp[&nv[0]]) && nv.len() == e.v, "connected", "the inserted {} is not one new component", KIND_NAMES[kind]);
        before = s;
    }
    if done >= 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn p08_one<T: P3>(src: &mut Src, c: &mut Ctx) -> Res {
    let kind = src.usize(0, KINDS - 1);
    let Some((m, e)) = primitive::<T>(src, c, kind, None)? else { return c.discard() };
    let name = if e.name.is_empty() { KIND_NAMES[kind].to_string() } else { e.name.clone() };
    let s = solid(&m)?;
    let size = s.scale();
    let tol = T::TOL * 10.0 * size;
    if let Some(l) = e.edge {
        for (a, b) in s.edges() {
            let d = len(sub(s.pos[a], s.pos[b]));
            ensure!((d - l).abs() <= tol, "edge-length", "{}: the edge between vertices {} and {} has length {}, expected {}", name, a, b, d, l);
        }
    }
    if let Some(r) = e.radius {
        for (i, p) in s.pos.iter().enumerate() {
            ensure!((len(*p) - r).abs() <= tol, "radius", "{}: vertex {} at {:?} has distance {} from the centre, expected {}", name, i, p, len(*p), r);
        }
        let o = len(s.centroid());
        ensure!(o <= tol, "centre", "{}: the centroid is {} away from the origin", name, o);
    }
    if let Some(p) = &e.points {
        if let Err(x) = same_points(&s.pos, p, tol) {
            return fail("points", format!("{}: {}", name, x));
        }
    }
    if let Some(v) = e.volume {
        let w = s.volume();
        ensure!((v - w).abs() <= T::TOL * 100.0 * size.powi(3), "volume", "{}: volume {}, expected {}", name, w, v);
    }
    for want in &e.faces {
        // one face consists of exactly these points
        let ok = s.faces.iter().any(|f| f.len() == want.len() && same_points(&f.iter().map(|i| s.pos[*i]).collect::<Vec<_>>(), want, tol).is_ok());
        ensure!(ok, "cap", "{}: there is no face with the corners {:?}", name, want);
    }
    // lateral faces of prisms and frustums join corresponding edges
    if matches!(kind, 7 | 8 | 13 | 17 | 21) {
        let n = e.v / 2;
        for f in s.faces.iter().filter(|f| f.len() == 4) {
            let near = |f: &[D3], i: &usize| {
                let d = |k: usize| len(sub(s.pos[*i], f[k]));
                (0..f.len()).min_by(|a, b| d(*a).total_cmp(&d(*b))).filter(|k| d(*k) <= tol)
            };
            let gap = |f: &[D3]| (0..n).map(|k| len(sub(f[k], f[(k + 1) % n]))).fold(f64::MAX, f64::min);
            if gap(&e.faces[0]) < 3.0 * tol || gap(&e.faces[1]) < 3.0 * tol {
                break;
            }
            let base = |i: &usize| near(&e.faces[0], i);
            let top = |i: &usize| near(&e.faces[1], i);
            let mut b: Vec<usize> = f.iter().filter_map(base).collect();
            let mut t: Vec<usize> = f.iter().filter_map(top).collect();
            if b.len() == 4 || t.len() == 4 {
                continue; // a cap
            }
            b.sort();
            t.sort();
            ensure!(b.len() == 2 && b == t && (b[1] - b[0] == 1 || (b[0] == 0 && b[1] == n - 1)), "side", "{}: the side {:?} joins base corners {:?} to top corners {:?}", name, f, b, t);
        }
    }
    c.label(KIND_NAMES[kind]);
    c.nontrivial();
    Ok(())
}

/// regular polygons and stars in the plane (2D and 3D meshes)
pub fn p08_flat<T: P3>(src: &mut Src, c: &mut Ctx) -> Res {
    let n = if src.chance(1, 6) { src.usize(3, 200) } else { src.usize(3, 12) };
    if 2 * n > T::CAPS {
        return c.discard();
    }
    let (r1, r2) = (par(src), par(src));
    let regular = src.bool();
    let r2 = if regular { r1 } else { r2 };
    c.log(|| format!("n={} radii {} {}", n, r1, r2));
    let m = if regular {
        HalfEdgeMeshImpl::<T>::regular_polygon::<3>(sc::<T::S>(r1), n)
    } else {
        HalfEdgeMeshImpl::<T>::regular_star::<3>(sc::<T::S>(r1), sc::<T::S>(r2), n)
    };
    let s = solid(&m)?;
    flat_checks(&s, n, r1, r2, m.check(), T::TOL.max(2e-6))?;
    // closed forms
    let side = regular_polygon_sidelength::<T::S>(sc(r1), n).to_f64();
    let area = regular_polygon_area::<T::S>(sc(r1), n).to_f64();
    let (es, ea) = (2.0 * r1 * (PI / n as f64).sin(), ngon_area(r1, n));
    ensure!((side - es).abs() <= 4.0 * T::TOL * r1, "sidelength", "regular_polygon_sidelength({}, {}) = {}, expected {}", r1, n, side, es);
    ensure!((area - ea).abs() <= 8.0 * T::TOL * r1 * r1, "area", "regular_polygon_area({}, {}) = {}, expected {}", r1, n, area, ea);
    let a = icosahedron_r2a::<T::S>(sc(r1)).to_f64();
    let k = (10.0 + 2.0 * 5f64.sqrt()).sqrt() / 4.0;
    ensure!((a * k - r1).abs() <= 8.0 * T::TOL * r1, "icosahedron", "icosahedron_r2a({}) = {}", r1, a);
    let b = icosahedron_a2r::<T::S>(sc(r1)).to_f64();
    ensure!((r1 * k - b).abs() <= 8.0 * T::TOL * r1, "icosahedron", "icosahedron_a2r({}) = {}", r1, b);
    c.label(if regular { "regular" } else { "star" });
    c.nontrivial();
    Ok(())
}

pub fn flat_checks(s: &Solid, n: usize, r1: f64, r2: f64, chk: Result<(), impl std::fmt::Display>, rel: f64) -> Res {
    let size = r1.max(r2);
    let tol = rel * size;
    ensure_eq!((s.pos.len(), s.faces.len(), s.holes.len()), (n, 1, 1), "count", "vertices, faces, holes of the polygon");
    if let Err(x) = chk {
        return fail("check", format!("{}", x));
    }
    let f = &s.faces[0];
    let rad: Vec<f64> = f.iter().map(|i| len(s.pos[*i])).collect();
    let inner = rad.iter().filter(|r| (*r - r1).abs() <= tol).count();
    let outer = rad.iter().filter(|r| (*r - r2).abs() <= tol).count();
    if (r1 - r2).abs() > 4.0 * tol {
        ensure_eq!((inner, outer), ((n + 1) / 2, n / 2), "radius", "corners at the inner and outer radius ({:?})", rad);
        let mut runs = 0;
        for i in 0..n {
            if ((rad[i] - r1).abs() <= tol) == ((rad[(i + 1) % n] - r1).abs() <= tol) {
                runs += 1;
            }
        }
        ensure_eq!(runs, n % 2, "radius", "neighbouring corners with equal radius ({:?})", rad);
    } else {
        ensure!(rad.iter().all(|r| (r - r1).abs() <= tol + (r1 - r2).abs()), "radius", "corners have radii {:?}, expected {}", rad, r1);
    }
    for i in 0..n {
        let (a, b) = (s.pos[f[i]], s.pos[f[(i + 1) % n]]);
        ensure!(a[2].abs() <= tol, "plane", "corner {:?} is not in the xy plane", a);
        let d = (a[0] * b[1] - a[1] * b[0]).atan2(a[0] * b[0] + a[1] * b[1]);
        ensure!((d - 2.0 * PI / n as f64).abs() <= 4.0 * rel, "angle", "angle from corner {} to the next is {}, expected {}", i, d, 2.0 * PI / n as f64);
    }
    Ok(())
}

fn p08_flat2(src: &mut Src, c: &mut Ctx) -> Res {
    use procedural_modelling::extensions::nalgebra::*;
    let n = if src.chance(1, 6) { src.usize(3, 200) } else { src.usize(3, 12) };
    let (r1, r2) = (par(src), par(src));
    let curved = src.bool();
    c.log(|| format!("n={} radii {} {}", n, r1, r2));
    macro_rules! go {
        ($t:ty) => {{
            let m = if src.bool() { <$t>::regular_star::<2>(r1, r2, n) } else {
                let mut m = <$t>::new();
                let e = m.insert_regular_star::<2>(r1, r2, n);
                ensure!(m.edge(e).is_boundary_self(), "ret", "insert_regular_star returns the inner edge {}", e);
                m
            };
            let idx: std::collections::HashMap<_, _> = m.vertices().enumerate().map(|(i, v)| (v.id(), i)).collect();
            let f: Vec<usize> = m.faces().next().unwrap().vertices(&m).map(|v| idx[&v.id()]).collect();
            let p = m.vertices().map(|v| [v.pos().x, v.pos().y, 0.0]).collect::<Vec<_>>();
            let s = Solid { ids: vec![], pos: p, faces: vec![f], holes: vec![vec![]], face_ids: vec![], half_edges: 2 * n };
            flat_checks(&s, n, r1, r2, m.check(), 2e-6)?;
            let a: f64 = (0..n).map(|i| { let (a, b) = (s.pos[s.faces[0][i]], s.pos[s.faces[0][(i + 1) % n]]); a[0] * b[1] - a[1] * b[0] }).sum::<f64>() / 2.0;
            if r1 == r2 {
                ensure!((a - regular_polygon_area(r1, n)).abs() <= 1e-5 * r1 * r1, "area", "the polygon has area {}, regular_polygon_area says {}", a, regular_polygon_area(r1, n));
            }
        }};
    }
    if curved {
        go!(Mesh2d64Curved)
    } else {
        go!(Mesh2d64)
    }
    c.nontrivial();
    Ok(())
}

/// zigzag and random star outlines
fn p08_outlines(src: &mut Src, c: &mut Ctx) -> Res {
    use crate::mt::V2;
    if src.bool() {
        let n = 2 * src.usize(2, 30);
        c.log(|| format!("zigzag {}", n));
        let p: Vec<[f64; 2]> = generate_zigzag::<V2>(n).map(|v| [v.x, v.y]).collect();
        ensure_eq!(p.len(), n, "zigzag", "corners of the zigzag");
        ensure!(area2(&p) > 0.0, "zigzag", "the zigzag with {} corners is not counter-clockwise", n);
        for i in 0..n {
            for j in i + 1..n {
                let (a, b, x, y) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
                let o = |a: [f64; 2], b: [f64; 2], c: [f64; 2]| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
                let cross = o(a, b, x) * o(a, b, y) < -1e-9 && o(x, y, a) * o(x, y, b) < -1e-9;
                ensure!(!cross, "zigzag", "edges {} and {} of the zigzag with {} corners cross", i, j, n);
            }
        }
    } else {
        let lo = src.usize(3, 20);
        let hi = lo + src.usize(0, 10);
        let r1 = f32r(src.scale(-3, 3));
        let r2 = r1 * (1 + src.usize(1, 4)) as f64;
        c.log(|| format!("random_star {} {} {} {}", lo, hi, r1, r2));
        let p: Vec<[f64; 2]> = random_star::<V2>(lo, hi, r1 as f32, r2 as f32).map(|v| [v.x, v.y]).collect();
        let n = p.len();
        ensure!(n >= lo && n <= hi, "random_star", "{} corners, requested {} to {}", n, lo, hi);
        for i in 0..n {
            let r = p[i][0].hypot(p[i][1]);
            ensure!(r >= r1 * (1.0 - 1e-5) && r <= r2 * (1.0 + 1e-5), "random_star", "corner {} has radius {}, requested {} to {}", i, r, r1, r2);
            let (a, b) = (p[i], p[(i + 1) % n]);
            let d = (a[0] * b[1] - a[1] * b[0]).atan2(a[0] * b[0] + a[1] * b[1]);
            ensure!((d.abs() - 2.0 * PI / n as f64).abs() <= 1e-4, "random_star", "angle from corner {} to the next is {}, expected {}", i, d, 2.0 * PI / n as f64);
        }
    }
    c.nontrivial();
    Ok(())
}

pub fn prop07_with(extra: Vec<Target>) -> Property {
    use procedural_modelling::extensions::nalgebra::MeshType3d64PNU;
    let mut targets = vec![
        target("solids_usize", 200000, 1440000, p07_one::<M64>),
        target("solids_u32", 100000, 480000, p07_one::<M32>),
        target("solids_u16", 100000, 480000, p07_one::<M16>),
        target("solids_u8", 60000, 360000, p07_one::<M8>),
        target("solids_nd64", 200000, 1440000, p07_one::<MeshType3d64PNU>),
        target("solids_f32", 200000, 1440000, p07_one::<MF32>),
        target("inserted_usize", 60000, 720000, p07_inserted::<M64>),
        target("inserted_u8", 60000, 720000, p07_inserted::<M8>),
    ];
    targets.extend(extra);
    Property {
        id: "P07",
        rule: "random closed primitives with random sizes, side counts and base polygons, alone or inserted after others; non-trivial: a primitive was generated and fits the index type",
        assumptions: &["heights, radii and side lengths are positive, base polygons are counter-clockwise seen from the top", "smooth=true frustums and cylinder are unimplemented and excluded"],
        targets,
        known: vec![],
    }
}
pub fn prop08_with(extra: Vec<Target>) -> Property {
    use procedural_modelling::extensions::nalgebra::MeshType3d64PNU;
    let mut targets = vec![
        target("solids_usize", 200000, 1440000, p08_one::<M64>),
        target("solids_u8", 40000, 240000, p08_one::<M8>),
        target("solids_nd64", 200000, 1440000, p08_one::<MeshType3d64PNU>),
        target("solids_f32", 200000, 1440000, p08_one::<MF32>),
        target("flat_nd64", 60000, 360000, p08_flat::<MeshType3d64PNU>),
        target("flat_f32", 60000, 360000, p08_flat::<MF32>),
        target("flat_2d", 60000, 360000, p08_flat2),
        target("outlines", 4000, 40000, p08_outlines),
    ];
    targets.extend(extra);
    Property {
        id: "P08",
        rule: "random primitives, regular polygons, stars and outlines with random parameters; non-trivial: a primitive was generated and measured",
        assumptions: &["heights, radii and side lengths are positive", "regular polygons and stars are computed from single precision angles; they are compared with a relative tolerance of 2e-6"],
        targets,
        known: vec![],
    }
}
