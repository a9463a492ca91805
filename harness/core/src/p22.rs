//! Path search and network matrices (P22).
use crate::hist::*;
use crate::model::*;
use crate::mt::*;
use crate::p04::any_mesh;
use crate::p07::{primitive, KINDS};
use crate::poly::*;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

type Me<T> = HalfEdgeMeshImpl<T>;

fn judge<T: P3>(src: &mut Src, c: &mut Ctx, m: &mut Me<T>) -> Res {
    let s = snap(m);
    let n = s.v.len();
    ensure!(s.v.keys().copied().eq(0..n), "setup", "vertex ids {:?}", s.v.keys());
    // neighbors of each vertex, from the links of the half-edges only
    let mut adj: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut deg = vec![0usize; n];
    let mut multi = BTreeSet::new();
    for e in s.e.keys() {
        let (a, b) = s.ends(*e);
        deg[a] += 1;
        if !adj[a].insert(b) {
            multi.insert((a, b));
        }
    }
    ensure!(m.has_consecutive_vertex_ids(), "consecutive", "vertex ids 0..{} are not consecutive", n);
    // distances
    let bfs = |from: usize| {
        let mut d: BTreeMap<usize, usize> = BTreeMap::new();
        d.insert(from, 0);
        let mut q = VecDeque::from([from]);
        while let Some(x) = q.pop_front() {
            for y in &adj[x] {
                if !d.contains_key(y) {
                    d.insert(*y, d[&x] + 1);
                    q.push_back(*y);
                }
            }
        }
        d
    };
    let tv = |i: usize| T::V::new(i);
    let mut far = 0;
    if n > 0 {
        let starts: Vec<usize> = if n <= 6 { (0..n).collect() } else { (0..4).map(|_| src.usize(0, n - 1)).collect() };
        for a in starts {
            let d = bfs(a);
            let ends: Vec<usize> = if n <= 12 { (0..n).collect() } else { (0..12).map(|_| src.usize(0, n - 1)).collect() };
            for b in ends {
                let got = m.shortest_path(tv(a), tv(b)).map(|p| p.iter().map(|v| v.index()).collect::<Vec<_>>());
                match (&got, d.get(&b)) {
                    (None, None) => c.label("not connected"),
                    (Some(p), Some(l)) => {
                        ensure!(p.first() == Some(&a) && p.last() == Some(&b), "ends", "shortest_path({}, {}) = {:?}", a, b, p);
                        ensure!(p.windows(2).all(|w| adj[w[0]].contains(&w[1])), "edges", "shortest_path({}, {}) = {:?} does not follow edges", a, b, p);
                        ensure!(p.len() == l + 1, "length", "shortest_path({}, {}) = {:?}, but the distance is {}", a, b, p, l);
                        far = far.max(*l);
                    }
                    (_, want) => return fail("exists", format!("shortest_path({}, {}) = {:?}, the distance is {:?}", a, b, got, want)),
                }
            }
        }
    }
    if far >= 3 {
        c.nontrivial();
        c.label("path of at least three edges");
    }
    // matrices
    if n == 0 || n > 150 {
        return Ok(());
    }
    let co = |i: usize| {
        let p = m.vertex(tv(i)).pos();
        [p.x().to_f64(), p.y().to_f64(), p.z().to_f64()]
    };
    let dist = |i: usize, j: usize| {
        let (p, q) = (co(i), co(j));
        (0..3).map(|k| (p[k] - q[k]).powi(2)).sum::<f64>().sqrt()
    };
    let a = m.adjacency_matrix::<f64>();
    let a32 = m.adjacency_matrix::<f32>();
    let w = m.adjacency_matrix_euclidean::<3>();
    let dm = m.degree_matrix::<f64>();
    let l = m.laplacian::<f64>();
    let le = m.laplacian_euclidean::<3>();
    for (x, k) in [(a.shape(), "adjacency"), (a32.shape(), "adjacency"), (w.shape(), "adjacency_euclidean"), (dm.shape(), "degree"), (l.shape(), "laplacian"), (le.shape(), "laplacian_euclidean")] {
        ensure!(x == (n, n), "shape", "the shape of {} is {:?} instead of {}", k, x, n);
    }
    let scale = (0..n).flat_map(|i| co(i)).fold(0.0f64, |a, b| a.max(b.abs())).max(1e-30);
    let tol = T::TOL * scale * 4.0;
    for i in 0..n {
        let mut row = 0.0;
        for j in 0..n {
            let one = if adj[i].contains(&j) { 1.0 } else { 0.0 };
            ensure_eq!(a[(i, j)], one, "adjacency", "adjacency_matrix[{}, {}]", i, j);
            ensure_eq!(a32[(i, j)] as f64, one, "adjacency", "adjacency_matrix::<f32>[{}, {}]", i, j);
            let want = if one > 0.0 { dist(i, j) } else { 0.0 };
            let g = w[(i, j)].to_f64();
            ensure!((g - want).abs() <= tol, "weights", "adjacency_matrix_euclidean[{}, {}] = {}, expected {}", i, j, g, want);
            row += want;
            let want = if i == j { deg[i] as f64 } else { 0.0 };
            ensure_eq!(dm[(i, j)], want, "degree", "degree_matrix[{}, {}]", i, j);
            if multi.is_empty() {
                ensure_eq!(l[(i, j)], if i == j { deg[i] as f64 } else { -one }, "laplacian", "laplacian[{}, {}]", i, j);
            }
            if i != j {
                ensure!((le[(i, j)].to_f64() + g).abs() <= tol, "laplacian_euclidean", "laplacian_euclidean[{}, {}] = {}, the weight is {}", i, j, le[(i, j)].to_f64(), g);
            }
        }
        ensure!((le[(i, i)].to_f64() - row).abs() <= tol * n as f64, "laplacian_euclidean_rows", "laplacian_euclidean[{0}, {0}] = {1}, but the weights of the row sum up to {2}", i, le[(i, i)].to_f64(), row);
    }
    let ds: Vec<(usize, usize)> = m.degrees().map(|(v, d)| (v.index(), d)).collect();
    ensure_eq!(ds, deg.iter().copied().enumerate().collect::<Vec<_>>(), "degree", "degrees()");
    Ok(())
}

/// Random positions, on a coarse grid or arbitrary.
fn scatter<T: P3>(src: &mut Src, m: &mut Me<T>) {
    let grid = src.bool();
    let s = src.scale(-8, 8);
    let ids: Vec<T::V> = m.vertex_ids().collect();
    for v in ids {
        let p = [0; 3].map(|_| s * if grid { src.usize(0, 3) as f64 } else { src.real(-1.0, 1.0) });
        m.vertex_mut(v).payload_mut().set_pos(T::Vec::new(sc::<T::S>(p[0]), sc::<T::S>(p[1]), sc::<T::S>(p[2])));
    }
}
fn grown<T: HT + P3>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut h = Hist::new(if T::CAPS < 1000 { 200 } else { 240 });
    h.check = false;
    let (mut m, _) = any_mesh::<T>(src, c, &mut h)?;
    scatter(src, &mut m);
    judge::<T>(src, c, &mut m)
}
fn solids<T: P3>(src: &mut Src, c: &mut Ctx) -> Res {
    let mut m = Me::<T>::new();
    let mut k = 0;
    match src.below(6) {
        // any primitive on its own
        0 | 1 => {
            let kind = src.usize(0, KINDS - 1);
            if let Some((p, _)) = primitive::<T>(src, c, kind, None)? {
                m = p;
                k = 1;
            }
        }
        // a band of faces around a loop: many paths of the same length, and long ones
        2 => {
            let n = src.sized(3, 60);
            let rows = src.usize(1, 8);
            c.log(|| format!("{} bands of {} quads", rows, n));
            let vps = |_| (0..n).map(|_| T::VP::from_pos(T::Vec::new(sc::<T::S>(0.0), sc::<T::S>(0.0), sc::<T::S>(0.0))));
            let mut e = m.insert_loop(vps(0));
            for r in 0..rows {
                e = m.loft_polygon_back(e, 2, 2, vps(r));
            }
            scatter(src, &mut m);
            k = 1;
        }
        // several in one mesh
        _ => {
            for _ in 0..src.usize(1, 3) {
                let kind = src.usize(0, KINDS - 1);
                if primitive::<T>(src, c, kind, Some(&mut m))?.is_some() {
                    k += 1;
                }
            }
        }
    }
    if k == 0 || m.num_vertices() > 700 || snap(&m).audit().is_err() {
        return c.discard();
    }
    if src.bool() {
        scatter(src, &mut m);
    }
    judge::<T>(src, c, &mut m)
}

pub fn prop22() -> Property {
    Property {
        id: "P22",
        rule: "grown meshes and several primitives in one mesh with random positions; breadth-first search and weights computed from the raw links; non-trivial: a shortest path of at least three edges is among those asked for",
        assumptions: &["the rows of the Laplacian are judged on meshes without multi-edges; weights with a tolerance relative to the largest coordinate"],
        targets: vec![
            target("grown_u8", 20000, 600000, grown::<M8>),
            target("grown_u32", 40000, 1200000, grown::<M32>),
            target("grown_usize", 20000, 600000, grown::<M64>),
            target("solids_f64", 80000, 2400000, solids::<M32>),
            target("solids_f32", 40000, 1200000, solids::<MF32>),
        ],
        known: vec![],
    }
}
