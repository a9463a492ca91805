//! Triangulation of whole meshes (P13) and of single faces in space (parts of P12 and P14).
use crate::geo::*;
use crate::model::*;
use crate::mt::*;
use engine::*;
use procedural_modelling::prelude::*;

pub type I3 = [i64; 3];

/// A mesh whose vertices have integer positions before it is placed in space.
pub struct World<T: HT> {
    pub m: Mesh<T>,
    pub ints: Vec<I3>,
}
pub struct FaceW {
    pub id: usize,
    /// vertex ids in walk order
    pub vs: Vec<usize>,
    /// an affine picture of the face, counter-clockwise
    pub p: Vec<P>,
}

impl<T: HT> World<T> {
    fn vp(&mut self, q: I3) -> VMark {
        self.ints.push(q);
        VMark::new(self.ints.len() as u32, q[0] as f64, q[1] as f64, q[2] as f64)
    }
    /// the integer position of a vertex (by its mark)
    pub fn at(&self, v: usize) -> I3 {
        self.ints[self.m.vertex(T::V::new(v)).payload().id as usize - 1]
    }
    pub fn faces(&self) -> Result<Vec<FaceW>, Fail> {
        let s = snap(&self.m);
        if let Err(d) = s.audit() {
            return fail("setup", d);
        }
        let mut r = vec![];
        for f in s.f.keys() {
            let vs: Vec<usize> = s.face_walk(*f).iter().map(|e| s.org(*e)).collect();
            let q: Vec<I3> = vs.iter().map(|v| self.at(*v)).collect();
            let Some(p) = flatten(&q) else { return fail("setup", format!("face {} is not planar: {:?}", f, q)) };
            r.push(FaceW { id: *f, vs, p });
        }
        Ok(r)
    }
    pub fn place(&mut self, f: &dyn Fn(I3) -> V3) {
        let ids: Vec<T::V> = self.m.vertex_ids().collect();
        for v in ids {
            let q = self.at(v.index());
            self.m.vertex_mut(v).payload_mut().pos = f(q);
        }
    }
}

/// Twice the area vector.
pub fn newell(q: &[I3]) -> [i128; 3] {
    let mut n = [0i128; 3];
    for i in 0..q.len() {
        let (a, b) = (q[i], q[(i + 1) % q.len()]);
        for k in 0..3 {
            let (x, y) = ((k + 1) % 3, (k + 2) % 3);
            n[k] += a[x] as i128 * b[y] as i128 - a[y] as i128 * b[x] as i128;
        }
    }
    n
}
/// An orientation preserving parallel projection of a planar polygon; `None` if it is not planar.
pub fn flatten(q: &[I3]) -> Option<Vec<P>> {
    let n = newell(q);
    let d = |a: I3| (0..3).map(|k| n[k] * (a[k] - q[0][k]) as i128).sum::<i128>();
    if n == [0; 3] || q.iter().any(|a| d(*a) != 0) {
        return None;
    }
    let k = (0..3).max_by_key(|k| n[*k].abs()).unwrap();
    let (x, y) = ((k + 1) % 3, (k + 2) % 3);
    Some(q.iter().map(|a| if n[k] > 0 { [a[x], a[y]] } else { [a[y], a[x]] }).collect())
}

/// Puts one or several parts into a mesh.
pub fn world<T: HT>(src: &mut Src, c: &mut Ctx, max_n: usize, general: bool, convex: bool, parts: usize) -> Result<Option<World<T>>, Fail> {
    let mut w = World::<T> { m: Mesh::<T>::new(), ints: vec![] };
    // large faces now and then
    let max_n = if max_n >= 14 && T::CAP >= 1000 && src.chance(1, 40) { 4 * max_n } else { max_n };
    for part in 0..parts {
        let all: Vec<usize> = if convex {
            vec![1]
        } else if general {
            vec![0, 0, 1, 2, 3]
        } else {
            (0..KINDS.len()).collect()
        };
        let g = if general { 100 } else { *src.pick(&[3i64, 8, 30]) };
        let mut p = polygon(src, c, max_n, g, &all);
        if !general && !convex && src.chance(1, 3) {
            p = add_collinear(src, &p);
        }
        if (general && !general_position(&p)) || (convex && !is_convex(&p)) {
            return Ok(None);
        }
        let n = p.len();
        let z = 10 * part as i64;
        let vps: Vec<VMark> = p.iter().map(|q| w.vp([q[0], q[1], z])).collect();
        let kind = *src.pick(&[0usize, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 4]);
        match kind {
            1 => {
                let h = *src.pick(&[1i64, 3, -2]);
                c.log(|| format!("prism of height {} over {:?}", h, p));
                let mut e = w.m.insert_polygon(vps);
                // the copies carry the marks of their originals: give them their own
                e = w.m.extrude(e, Aff3::from_translation(V3::new(0.0, 0.0, h as f64)));
                let _ = e;
                let ids: Vec<T::V> = w.m.vertex_ids().collect();
                let mut seen = std::collections::BTreeSet::new();
                for v in ids {
                    let pl = *w.m.vertex(v).payload();
                    if !seen.insert(pl.id) {
                        let q = w.ints[pl.id as usize - 1];
                        w.ints.push([q[0], q[1], q[2] + h]);
                        w.m.vertex_mut(v).payload_mut().id = w.ints.len() as u32;
                    }
                }
            }
            2 => {
                c.log(|| format!("polygon {:?} with a divided back", p));
                w.m.insert_polygon(vps.clone());
                let mut cuts = 0;
                for _ in 0..src.usize(1, 4) {
                    // the hole parts on the back, as lists of corners
                    let s = snap(&w.m);
                    let mark: std::collections::BTreeMap<u32, usize> = vps.iter().enumerate().map(|(i, v)| (v.id, i)).collect();
                    let hs: Vec<Vec<usize>> = s.holes().into_iter().filter(|h| h.iter().all(|e| mark.contains_key(&s.v[&s.org(*e)].vp.id))).collect();
                    if hs.is_empty() {
                        break;
                    }
                    let h = src.pick(&hs).clone();
                    let k = h.len();
                    if k < 4 {
                        continue;
                    }
                    let (a, b) = (src.below(k as u64) as usize, src.below(k as u64) as usize);
                    // corner at the target of edge h[a]
                    let co = |a: usize| mark[&s.v[&s.org(h[(a + 1) % k])].vp.id];
                    let (i, j) = (co(a), co(b));
                    let gap = (a + k - b) % k;
                    if gap < 2 || gap > k - 2 || !diagonal(&p, i, j) {
                        continue;
                    }
                    w.m.insert_edge(T::E::new(h[a]), EMark(0), T::E::new(h[b]), EMark(0));
                    cuts += 1;
                }
                let s = snap(&w.m);
                for h in s.holes() {
                    if h.iter().all(|e| vps.iter().any(|v| v.id == s.v[&s.org(*e)].vp.id)) && src.chance(9, 10) {
                        w.m.close_hole(T::E::new(h[0]), FMark(0), false);
                    }
                }
                c.log(|| format!("{} cuts", cuts));
                if cuts > 0 && n > 4 {
                    c.label("diagonal is an edge of another face");
                }
            }
            3 => {
                c.log(|| format!("dihedron {:?}", p));
                w.m.insert_dihedron(vps);
            }
            4 if is_convex(&p) => {
                c.log(|| format!("pyramid over {:?}", p));
                let e = w.m.insert_polygon(vps);
                let apex = w.vp([src.int(-5, 5), src.int(-5, 5), z + *src.pick(&[4i64, -7])]);
                w.m.fill_hole_apex(e, apex);
            }
            _ => {
                c.log(|| format!("polygon {:?}", p));
                w.m.insert_polygon(vps);
            }
        }
    }
    Ok(Some(w))
}

/// Places the mesh; returns false if coordinates may be rounded.
pub fn put<T: HT>(src: &mut Src, c: &mut Ctx, w: &mut World<T>, exact: bool) -> bool {
    let k = src.below(if exact { 3 } else { 6 });
    match k {
        0 => {
            w.place(&|q| V3::new(q[0] as f64, q[1] as f64, q[2] as f64));
            true
        }
        1 | 2 => {
            // signed permutations with determinant one, power of two scale
            let pm = *src.pick(&[[0usize, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]]);
            let odd = pm == [0, 2, 1] || pm == [2, 1, 0] || pm == [1, 0, 2];
            let (a, b) = (src.bool(), src.bool());
            let neg = (a as usize + b as usize + odd as usize) % 2 == 1;
            let sg = [if a { -1.0 } else { 1.0 }, if b { -1.0 } else { 1.0 }, if neg { -1.0 } else { 1.0 }];
            let s = if k == 2 { 2f64.powi(src.int(-6, 8) as i32) } else { 1.0 };
            c.log(|| format!("axes {:?} {:?} scaled by {}", pm, sg, s));
            w.place(&|q| V3::new(q[pm[0]] as f64 * sg[0] * s, q[pm[1]] as f64 * sg[1] * s, q[pm[2]] as f64 * sg[2] * s));
            true
        }
        3 => {
            // nearly aligned with an axis
            let a = 10f64.powf(-src.real(0.0, 17.0));
            let axis = src.usize(0, 2);
            let base = *src.pick(&[0.0, std::f64::consts::PI, std::f64::consts::FRAC_PI_2]);
            c.log(|| format!("turned by {} + {:e} about axis {}", base, a, axis));
            let (sn, cs) = match base {
                0.0 => (a.sin(), a.cos()),
                x if x > 3.0 => (-a.sin(), -a.cos()),
                _ => (a.cos(), -a.sin()),
            };
            let (x, y) = ((axis + 1) % 3, (axis + 2) % 3);
            w.place(&|q| {
                let mut r = [q[0] as f64, q[1] as f64, q[2] as f64];
                let (u, v) = (r[x], r[y]);
                r[x] = u * cs - v * sn;
                r[y] = u * sn + v * cs;
                V3::new(r[0], r[1], r[2])
            });
            c.label("nearly aligned");
            false
        }
        _ => {
            let m = rotation(src);
            let s = 2f64.powf(src.real(-5.0, 7.0));
            let t = V3::new(src.real(-50.0, 50.0), src.real(-50.0, 50.0), src.real(-50.0, 50.0)) * s;
            c.log(|| format!("rotated by {:?}, scaled by {}, moved by {:?}", m, s, t));
            w.place(&|q| {
                let r = |k: usize| (0..3).map(|j| m[k][j] * q[j] as f64).sum::<f64>() * s;
                V3::new(r(0), r(1), r(2)) + t
            });
            c.label("rotated");
            false
        }
    }
}
/// A random rotation matrix.
pub fn rotation(src: &mut Src) -> [[f64; 3]; 3] {
    let mut q = [0.0; 4];
    loop {
        for x in &mut q {
            *x = src.real(-1.0, 1.0);
        }
        let l = q.iter().map(|x| x * x).sum::<f64>();
        if l > 1e-3 {
            for x in &mut q {
                *x /= l.sqrt();
            }
            break;
        }
        q = [1.0, 0.0, 0.0, 0.0];
        break;
    }
    let [w, x, y, z] = q;
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - z * w), 2.0 * (x * z + y * w)],
        [2.0 * (x * y + z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - x * w)],
        [2.0 * (x * z - y * w), 2.0 * (y * z + x * w), 1.0 - 2.0 * (x * x + y * y)],
    ]
}

/// Judges one block of triangles of a face.
pub fn block(f: &FaceW, tris: &[[usize; 3]], strict: bool, ear: bool) -> Res {
    let mut l = vec![];
    for t in tris {
        let mut k = [0; 3];
        for i in 0..3 {
            match f.vs.iter().position(|v| *v == t[i]) {
                Some(x) => k[i] = x,
                None => return fail("foreign", format!("vertex {} does not belong to face {} with vertices {:?}", t[i], f.id, f.vs)),
            }
        }
        l.push(k);
    }
    if ear && f.vs.len() > 4 && l.first().map(|t| orient(f.p[t[0]], f.p[t[1]], f.p[t[2]])).unwrap_or(0) <= 0 {
        // recorded finding: ear clipping emits all triangles clockwise
        for t in &mut l {
            t.swap(1, 2);
        }
    }
    partition(&f.p, &l, strict)
}
fn chunks<V: IndexType>(l: &[V]) -> Vec<[usize; 3]> {
    l.chunks(3).map(|c| [c[0].index(), c[1].index(), c[2].index()]).collect()
}

pub const ALGOS: [TriangulationAlgorithm; 8] = [
    TriangulationAlgorithm::Auto,
    TriangulationAlgorithm::Fan,
    TriangulationAlgorithm::EarClipping,
    TriangulationAlgorithm::Sweep,
    TriangulationAlgorithm::SweepDynamic,
    TriangulationAlgorithm::SweepDelaunay,
    TriangulationAlgorithm::Delaunay,
    TriangulationAlgorithm::MinWeight,
];

fn sparse<T: HT>(src: &mut Src, c: &mut Ctx, w: &mut World<T>) {
    if src.bool() {
        return;
    }
    let fs: Vec<T::F> = w.m.face_ids().collect();
    for f in fs {
        if w.m.num_faces() > 1 && src.chance(1, 4) {
            c.log(|| format!("remove face {:?}", f));
            c.label("sparse face ids");
            w.m.remove_face(f);
        }
    }
}

fn whole<T: HT>(src: &mut Src, c: &mut Ctx, exact: bool, convex: bool) -> Res {
    let tiny = T::CAP < 1000;
    let parts = src.usize(1, if tiny { 2 } else { 3 });
    let Some(mut w) = world::<T>(src, c, if tiny { 8 } else { 16 }, !exact, convex, parts)? else { return c.discard() };
    sparse(src, c, &mut w);
    put(src, c, &mut w, exact);
    let faces = w.faces()?;
    let before = snap(&w.m);
    let can_fan = faces.iter().all(|f| is_convex(&f.p));
    let small = faces.iter().all(|f| f.vs.len() <= 18);
    for a in ALGOS {
        if a == TriangulationAlgorithm::Fan && !can_fan || a == TriangulationAlgorithm::MinWeight && !small {
            continue;
        }
        let mut meta = TesselationMeta::default();
        let (ix, vs) = match catch(|| w.m.triangulate(a, &mut meta)) {
            Ok(r) => r,
            Err(p) => return fail("panic", format!("triangulate({:?}) panics: {}", a, p)),
        };
        // vertices: every payload once, in the order of the ids
        let want: Vec<VMark> = before.v.values().map(|v| v.vp).collect();
        ensure_eq!(vs, want, "vertices", "exported vertices of {:?}", a);
        let pos: Vec<usize> = before.v.keys().copied().collect();
        for i in &ix {
            ensure!(i.index() < vs.len(), "range", "{:?}: index {:?} of {} vertices", a, i, vs.len());
        }
        ensure!(ix.len() % 3 == 0, "count", "{:?}: {} indices", a, ix.len());
        let tris: Vec<[usize; 3]> = chunks(&ix).iter().map(|t| [pos[t[0]], pos[t[1]], pos[t[2]]]).collect();
        let total: usize = faces.iter().map(|f| f.vs.len() - 2).sum();
        ensure_eq!(tris.len(), total, "count", "{:?}: number of triangles", a);
        let mut left: Vec<&FaceW> = faces.iter().collect();
        let mut k = 0;
        while k < tris.len() {
            let mut hit = None;
            let mut why = None;
            for (i, f) in left.iter().enumerate() {
                let e = k + f.vs.len() - 2;
                if e > tris.len() {
                    continue;
                }
                match block(f, &tris[k..e], !exact, a == TriangulationAlgorithm::EarClipping) {
                    Ok(()) => {
                        hit = Some(i);
                        break;
                    }
                    Err(x) if why.is_none() => why = Some(x),
                    _ => {}
                }
            }
            match hit {
                Some(i) => k += left.remove(i).vs.len() - 2,
                None => {
                    let f = left.first().unwrap();
                    let x = why.unwrap();
                    return fail(&x.sig, format!("{:?}: no face matches the triangles from {} on ({:?}); face {} {:?} does not because: {}", a, k, &tris[k..(k + f.vs.len() - 2).min(tris.len())], f.id, f.vs, x.msg));
                }
            }
        }
    }
    let after = snap(&w.m);
    if let Err(d) = before.diff(&after) {
        return fail("touched", format!("triangulating changed the mesh: {}", d));
    }
    if faces.iter().any(|f| f.vs.len() > 4) {
        c.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FaceAlgo {
    Delaunay,
    Fan,
    Ear,
    EarRandom,
    Sweep,
    SweepDynamic,
    SweepDelaunay,
    MinWeight,
    Small,
    Face(TriangulationAlgorithm),
}
pub fn run_face<T: HT>(w: &World<T>, f: usize, a: FaceAlgo, before: &[T::V]) -> Result<Vec<[usize; 3]>, Fail> {
    let mut out = before.to_vec();
    let face = w.m.face(T::F::new(f));
    let m = &w.m;
    let mut handled = true;
    let r = catch(|| {
        let mut meta = TesselationMeta::<T::V>::default();
        let mut t = Triangulation::new(&mut out);
        match a {
            FaceAlgo::Delaunay => delaunay_triangulation::<T>(face, m, &mut t),
            FaceAlgo::Fan => fan_triangulation::<T>(face, m, &mut t),
            FaceAlgo::Ear => ear_clipping::<T>(face, m, &mut t, false),
            FaceAlgo::EarRandom => ear_clipping::<T>(face, m, &mut t, true),
            FaceAlgo::Sweep => sweep_line::<T, LinearMonoTriangulator<T::V, V2>>(face, m, &mut t, &mut meta),
            FaceAlgo::SweepDynamic => sweep_line::<T, DynamicMonoTriangulator<T::V, V2, T::Poly>>(face, m, &mut t, &mut meta),
            FaceAlgo::SweepDelaunay => sweep_line::<T, DelaunayMonoTriangulator<T::V, V2>>(face, m, &mut t, &mut meta),
            FaceAlgo::MinWeight => minweight_dynamic::<T>(face, m, &mut t),
            FaceAlgo::Small => handled = try_min_weight_small::<T>(face, m, &mut t),
            FaceAlgo::Face(x) => triangulate_face::<T>(face, m, &mut t, x, &mut meta),
        }
    });
    if let Err(p) = r {
        return fail("panic", format!("{:?} panics on face {}: {}", a, f, p));
    }
    ensure!(out.len() >= before.len() && out[..before.len()] == *before, "existing", "{:?} changed the existing part of the list", a);
    if !handled {
        ensure!(out.len() == before.len(), "unhandled", "{:?} refused the face but emitted triangles", a);
        return Ok(vec![]);
    }
    ensure!((out.len() - before.len()) % 3 == 0, "count", "{:?}: {} new indices", a, out.len() - before.len());
    Ok(chunks(&out[before.len()..]))
}

/// One face of a mesh, triangulated in place by the function of an algorithm.
fn face_case<T: HT>(src: &mut Src, c: &mut Ctx, a: FaceAlgo, exact: bool, max_n: usize) -> Res {
    let convex = matches!(a, FaceAlgo::Fan | FaceAlgo::Face(TriangulationAlgorithm::Fan));
    let parts = src.usize(1, 2);
    let Some(mut w) = world::<T>(src, c, max_n, !exact, convex, parts)? else { return c.discard() };
    put(src, c, &mut w, exact);
    let faces = w.faces()?;
    let f = src.pick(&faces);
    let k = 3 * src.usize(0, 3);
    let before: Vec<T::V> = (0..k).map(|_| T::V::new(src.below(100) as usize)).collect();
    let tris = run_face(&w, f.id, a, &before)?;
    if a == FaceAlgo::Small && tris.is_empty() {
        ensure!(f.vs.len() > 4, "unhandled", "a face with {} corners is not handled", f.vs.len());
        return c.discard();
    }
    if a == FaceAlgo::Small {
        if f.vs.len() > 3 {
            c.nontrivial();
        }
        return block(f, &tris, !exact, false);
    }
    if f.vs.len() > 4 {
        c.nontrivial();
    }
    // even for four corners the ear clipping function itself is clockwise
    let ear = matches!(a, FaceAlgo::Ear | FaceAlgo::EarRandom);
    let g;
    let tris = if ear && f.vs.len() <= 4 {
        g = tris.iter().map(|t| [t[0], t[2], t[1]]).collect::<Vec<_>>();
        if block(f, &tris, !exact, false).is_ok() {
            return Ok(());
        }
        &g
    } else {
        &tris
    };
    block(f, tris, !exact, ear || a == FaceAlgo::Face(TriangulationAlgorithm::EarClipping))
}

pub fn face_targets() -> Vec<Target> {
    macro_rules! t {
        ($n:expr, $q:expr, $t:ty, $a:expr, $exact:expr, $max:expr) => {
            target($n, $q * 3, $q * 75, |s, c| face_case::<$t>(s, c, $a, $exact, $max))
        };
    }
    vec![
        t!("face_delaunay_exact", 6000, M64, FaceAlgo::Delaunay, true, 20),
        t!("face_delaunay_general", 6000, M32, FaceAlgo::Delaunay, false, 20),
        t!("face_fan_exact", 4000, M64, FaceAlgo::Fan, true, 20),
        t!("face_fan_general", 4000, M32, FaceAlgo::Fan, false, 20),
        t!("face_ear_exact", 3000, M64, FaceAlgo::Ear, true, 20),
        t!("face_ear_random", 3000, M16, FaceAlgo::EarRandom, false, 20),
        t!("face_sweep_general", 4000, M64, FaceAlgo::Sweep, false, 20),
        t!("face_dynamic_general", 3000, M64, FaceAlgo::SweepDynamic, false, 14),
        t!("face_sweepdelaunay_general", 3000, M64, FaceAlgo::SweepDelaunay, false, 20),
        t!("face_minweight_general", 3000, M32, FaceAlgo::MinWeight, false, 14),
        t!("face_small_exact", 3000, M64, FaceAlgo::Small, true, 6),
        t!("face_auto_general", 3000, M64, FaceAlgo::Face(TriangulationAlgorithm::Auto), false, 20),
    ]
}

pub fn prop13() -> Property {
    macro_rules! t {
        ($n:expr, $q:expr, $t:ty, $exact:expr, $convex:expr) => {
            target($n, $q * 6, $q * 100, |s, c| whole::<$t>(s, c, $exact, $convex))
        };
    }
    Property {
        id: "P13",
        rule: "meshes of one to three parts (polygons, prisms, pyramids, dihedra, polygons whose back is divided along diagonals) with integer coordinates, some faces removed, placed exactly along the axes or rotated and moved generically; every algorithm; non-trivial: some face has more than four corners",
        assumptions: &["faces are planar and simple", "generic placements only for faces without three collinear corners; with collinear corners triangles without area are allowed", "fan triangulation only where all faces are convex", "ear clipping may orient a whole face clockwise (known finding P12-ear-orientation)"],
        targets: vec![
            t!("exact_M64", 4000, M64, true, false),
            t!("exact_M16", 2000, M16, true, false),
            t!("exact_M8", 2000, M8, true, false),
            t!("general_M64", 5000, M64, false, false),
            t!("general_M32", 4000, M32, false, false),
            t!("convex_exact_M64", 2000, M64, true, true),
            t!("convex_general_M32", 3000, M32, false, true),
        ],
        known: vec![],
    }
}
