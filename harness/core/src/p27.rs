//! Triangulation buffers against a list model and exact geometry (P27).
use crate::geo::*;
use crate::p23::Ar;
use crate::p24::Py;
use engine::*;
use nalgebra::SVector;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

type S<T> = <<T as Py>::V as Ar<2>>::T;
fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
fn f<T: Py>(x: S<T>) -> f64 {
    x.to_f64()
}

/// Distinct, scattered ids.
fn ids<V: IndexType>(src: &mut Src, n: usize) -> Vec<V> {
    let cap: usize = match std::mem::size_of::<V>() {
        1 => 200,
        2 => 60000,
        _ => 1 << 30,
    };
    let mut r: Vec<usize> = vec![];
    let mut seen = BTreeSet::new();
    let dense = src.bool();
    let mut k = src.usize(0, 5);
    for _ in 0..n {
        if dense {
            r.push(k);
            k += 1;
            continue;
        }
        let mut x = src.usize(0, cap - 1);
        while !seen.insert(x) {
            x = (x + 1) % cap;
        }
        r.push(x);
    }
    if dense && src.bool() {
        let p = src.perm(r.len());
        r = p.iter().map(|i| r[*i]).collect();
    }
    r.iter().map(|x| V::new(*x)).collect()
}

/// The same triangle up to rotation.
fn cyc<V: Copy + PartialEq>(a: (V, V, V), b: (V, V, V)) -> bool {
    a == b || a == (b.1, b.2, b.0) || a == (b.2, b.0, b.1)
}

/// Histories of buffer operations, with several triangulations on one list.
fn history<V: IndexType, T: Py>(src: &mut Src, c: &mut Ctx) -> Res {
    let n = src.few(4, 12, 70);
    let id: Vec<V> = ids(src, n);
    let g = *src.pick(&[3i64, 20, 100]);
    {
        // numbering a list of points
        let l: Vec<[f64; 2]> = (0..n).map(|i| [i as f64, (i * i % 7) as f64]).collect();
        let v: Vec<IndexedVertex2D<V, nalgebra::SVector<f64, 2>>> = IndexedVertex2D::from_vector(l.iter().map(|p| nalgebra::SVector::<f64, 2>::from(*p)).collect());
        ensure!(v.len() == n && v.iter().enumerate().all(|(i, x)| x.index.index() == i && x.vec.as_slice() == &l[i]), "numbering", "from_vector of {:?} gives {:?}", l, v);
    }
    let p: Vec<P> = (0..n).map(|_| [src.int(-g, g), src.int(-g, g)]).collect();
    let k = 2f64.powi(src.int(-6, 8) as i32);
    let vs: Vec<IndexedVertex2D<V, T::V>> = (0..n).map(|i| IndexedVertex2D::new(T::V::mk([p[i][0] as f64 * k, p[i][1] as f64 * k]), id[i])).collect();
    let hm: HashMap<V, T::V> = vs.iter().map(|v| (v.index, v.vec)).collect();
    // whatever was in the list before need not be triangles of these points
    let mut list: Vec<V> = (0..if src.chance(1, 24) { src.usize(14, 400) } else { src.sized(0, 14) }).map(|_| V::new(src.usize(0, 100))).collect();
    let mut model = list.clone();
    let rounds = src.usize(1, 3);
    for _ in 0..rounds {
        let start = model.len();
        let mut t = Triangulation::new(&mut list);
        ensure_eq!(t.len(), 0, "len", "length of a new triangulation");
        c.log(|| format!("new triangulation at {}", start));
        let steps = if src.chance(1, 40) { src.usize(25, 150) } else { src.sized(0, 25) };
        let mut flips = 0;
        for _ in 0..steps {
            let m = (model.len() - start) / 3;
            let tri = |model: &Vec<V>, i: usize| (model[start + 3 * i], model[start + 3 * i + 1], model[start + 3 * i + 2]);
            match src.below(10) {
                0 | 1 => {
                    let q = src.perm(n);
                    t.insert_triangle(id[q[0]], id[q[1]], id[q[2]]);
                    model.extend([id[q[0]], id[q[1]], id[q[2]]]);
                }
                2 | 3 => {
                    let q = src.perm(n);
                    t.insert_triangle_local(q[0], q[1], q[2], &vs);
                    model.extend([id[q[0]], id[q[1]], id[q[2]]]);
                }
                4 => {
                    // two triangles with a common edge
                    let q = src.perm(n);
                    let (a, b, x, y) = (q[0], q[1], q[2], q[3]);
                    let rot = |src: &mut Src, t: [usize; 3]| {
                        let s = src.usize(0, 2);
                        [t[s], t[(s + 1) % 3], t[(s + 2) % 3]]
                    };
                    let t1 = rot(src, [a, b, x]);
                    let t2 = rot(src, [b, a, y]);
                    for q in [t1, t2] {
                        t.insert_triangle(id[q[0]], id[q[1]], id[q[2]]);
                        model.extend([id[q[0]], id[q[1]], id[q[2]]]);
                    }
                }
                5 | 6 | 7 if m >= 2 => {
                    // flip an edge between two of them, if they share one
                    let mut i = src.below(m as u64) as usize;
                    let j = src.below(m as u64) as usize;
                    let u = tri(&model, j);
                    let o = src.usize(0, 2);
                    let u = [u.0, u.1, u.2];
                    let (b, a) = (u[o], u[(o + 1) % 3]);
                    if src.chance(3, 4) {
                        // look for a partner
                        for l in 0..m {
                            let w = tri(&model, (i + l) % m);
                            let w = [w.0, w.1, w.2];
                            if (0..3).any(|s| w[s] == a && w[(s + 1) % 3] == b) {
                                i = (i + l) % m;
                                break;
                            }
                        }
                    }
                    if i == j {
                        continue;
                    }
                    let w = tri(&model, i);
                    let w = [w.0, w.1, w.2];
                    let at = (0..3).find(|s| w[*s] == a && w[(s + 1) % 3] == b);
                    if a == b || at.is_some_and(|s| w[(s + 2) % 3] == u[(o + 2) % 3]) {
                        continue; // the triangles are flat, or would become so
                    }
                    c.log(|| format!("flip {:?} {:?} of the triangles at {} and {}", a, b, start + 3 * i, start + 3 * j));
                    let r = t.flip_edge(a, b, start + 3 * i, start + 3 * j);
                    match at {
                        None => {
                            ensure!(r.is_err(), "flip", "an edge that the triangles {:?} and {:?} do not share was flipped", w, u);
                            c.label("no common edge");
                        }
                        Some(s) => {
                            ensure!(r.is_ok(), "flip", "the edge {:?} {:?} of the triangles {:?} and {:?} was not flipped", a, b, w, u);
                            let (x, y) = (w[(s + 2) % 3], u[(o + 2) % 3]);
                            let (g1, g2) = (t.get_triangle(i), t.get_triangle(j));
                            ensure!(cyc(g1, (a, y, x)) && cyc(g2, (y, b, x)) || cyc(g2, (a, y, x)) && cyc(g1, (y, b, x)), "flip", "flipping {:?} {:?} of {:?} and {:?} gave {:?} and {:?}", a, b, w, u, g1, g2);
                            let (b1, b2) = (start + 3 * i, start + 3 * j);
                            (model[b1], model[b1 + 1], model[b1 + 2]) = g1;
                            (model[b2], model[b2 + 1], model[b2 + 2]) = g2;
                            flips += 1;
                        }
                    }
                }
                8 if m > 0 => {
                    // swap the ids of some points for the rest of this triangulation
                    let q = src.perm(n);
                    let map: HashMap<V, V> = (0..n).map(|i| (id[i], id[q[i]])).collect();
                    t.map_indices(&map);
                    for x in &mut model[start..] {
                        *x = map[x];
                    }
                    c.label("remapped");
                }
                _ => {
                    let (mut w, mut ar) = (0.0, 0.0);
                    for i in 0..m {
                        let tr = tri(&model, i);
                        let pos = |v: V| p[id.iter().position(|x| *x == v).unwrap()];
                        let (a, b, d) = (pos(tr.0), pos(tr.1), pos(tr.2));
                        let want = orient(a, b, d) as f64 / 2.0 * k * k;
                        let got = f::<T>(t.get_triangle_area(i, &hm));
                        ensure!(near(got, want, 0.0), "triangle-area", "the area of {:?} is {}, get_triangle_area says {}", [a, b, d], want, got);
                        ar += want.abs();
                        w += ((d2(a, b) as f64).sqrt() + (d2(b, d) as f64).sqrt() + (d2(d, a) as f64).sqrt()) * k;
                    }
                    let e = if T::BIG > 1000 { 1e-13 } else { 2e-6 };
                    let got = f::<T>(t.get_area(&hm));
                    ensure!(near(got, ar, e * ar), "area", "the area of {} triangles from {} on is {}, get_area says {}", m, start, ar, got);
                    let got = f::<T>(t.total_edge_weight(&hm));
                    ensure!(near(got, w, e * w), "weight", "the edges of {} triangles from {} on have the total length {}, total_edge_weight says {}", m, start, w, got);
                    if m > 2 && start > 0 {
                        c.nontrivial();
                    }
                }
            }
            let m = (model.len() - start) / 3;
            ensure_eq!(t.len(), m, "len", "number of triangles");
            ensure_eq!(t.next_pos(), model.len(), "next", "next position in the list");
            for i in 0..m {
                ensure!(t.get_triangle(i) == tri(&model, i), "get", "triangle {} is {:?}, expected {:?}", i, t.get_triangle(i), tri(&model, i));
            }
            if m > 0 {
                let i = src.below(3 * m as u64) as usize;
                ensure!(t.get_index(i) == model[start + i], "get", "index {} is {:?}, expected {:?}", i, t.get_index(i), model[start + i]);
            }
        }
        let shown = format!("{:?}", t);
        let m = (model.len() - start) / 3;
        ensure!(shown.lines().count() == m + 1 && shown.contains(&format!("{} triangles", m)), "debug", "shown as {}", shown);
        if flips > 0 {
            c.label("flipped");
        }
        drop(t);
        ensure!(list == model, "list", "the list is {:?}, expected {:?}", list, model);
        // other users of the list
        for _ in 0..src.usize(0, 4) {
            let x = V::new(src.usize(0, 100));
            list.push(x);
            model.push(x);
        }
    }
    Ok(())
}

/// A random triangulation of a simple polygon by its diagonals (no three collinear corners on a triangle).
fn triangulate(src: &mut Src, p: &[P]) -> Option<Vec<[usize; 3]>> {
    let mut todo: Vec<Vec<usize>> = vec![(0..p.len()).collect()];
    let mut out = vec![];
    while let Some(w) = todo.pop() {
        if w.len() == 3 {
            if orient(p[w[0]], p[w[1]], p[w[2]]) <= 0 {
                return None;
            }
            out.push([w[0], w[1], w[2]]);
            continue;
        }
        let q: Vec<P> = w.iter().map(|i| p[*i]).collect();
        let k = w.len();
        let mut ds = vec![];
        for i in 0..k {
            for j in i + 2..k {
                if !(i == 0 && j == k - 1) && diagonal(&q, i, j) {
                    ds.push((i, j));
                }
            }
        }
        if ds.is_empty() {
            return None;
        }
        let (i, j) = *src.pick(&ds);
        todo.push(w[i..=j].to_vec());
        todo.push(w[..=i].iter().chain(&w[j..]).copied().collect());
    }
    Some(out)
}

/// the segments cross, and not only near one of their ends
fn cross_clearly(a: P, b: P, c: P, d: P, tol: f64) -> bool {
    let clear = |x: i128, y: i128| {
        let t = x as f64 / (x - y) as f64;
        t > tol && t < 1.0 - tol
    };
    cross_properly(a, b, c, d) && clear(orient(c, d, a), orient(c, d, b)) && clear(orient(a, b, c), orient(a, b, d))
}

fn verified<V: IndexType, T: Py>(list: &[V], start: usize, vs: &Vec<IndexedVertex2D<V, T::V>>) -> Result<(), String> {
    let mut all = list[..start].to_vec();
    let mut t = Triangulation::new(&mut all);
    for q in list[start..].chunks(3) {
        t.insert_triangle(q[0], q[1], q[2]);
    }
    catch(|| t.verify_full::<T::V, T>(vs))
}

/// verify_full accepts triangulations and rejects damaged ones.
fn verify<V: IndexType, T: Py>(src: &mut Src, c: &mut Ctx) -> Res {
    let g = (*src.pick(&[4i64, 8, 30])).min(T::BIG / 16);
    let max = if src.chance(1, 40) { 70 } else { 14 };
    let p = polygon(src, c, max, g, &[0, 1, 2, 3, 4, 5, 6, 7, 8]);
    let lim = T::BIG / 4;
    if p.len() > 100 || p.iter().flatten().any(|x| x.abs() > lim) {
        return c.discard();
    }
    let n = p.len();
    let Some(mut tris) = triangulate(src, &p) else { return c.discard() };
    let q = src.perm(tris.len());
    tris = q.iter().map(|i| tris[*i]).collect();
    let id: Vec<V> = ids(src, n + 1);
    let (alien, id) = (id[n], id[..n].to_vec());
    let k = 2f64.powi(src.int(0, 4) as i32);
    let vs: Vec<IndexedVertex2D<V, T::V>> = (0..n).map(|i| IndexedVertex2D::new(T::V::mk([p[i][0] as f64 * k, p[i][1] as f64 * k]), id[i])).collect();
    let start = src.sized(0, 20);
    let mut list: Vec<V> = (0..start).map(|_| if src.bool() { id[src.usize(0, n - 1)] } else { V::new(src.usize(0, 100)) }).collect();
    for t in &mut tris {
        let s = src.usize(0, 2);
        *t = [t[s], t[(s + 1) % 3], t[(s + 2) % 3]];
        list.extend(t.iter().map(|i| id[*i]));
    }
    c.log(|| format!("polygon {:?} scaled by {}, triangles {:?} from {} on, ids {:?}", p, k, tris, start, id));
    if let Err(e) = verified::<V, T>(&list, start, &vs) {
        return fail("accept", format!("a triangulation is rejected: {}", e));
    }
    if n > 4 && start > 0 {
        c.nontrivial();
    }
    // damage it
    let m = tris.len();
    let mut bad = tris.clone();
    let i = src.below(m as u64) as usize;
    let j = src.below(m as u64) as usize;
    let kind = src.below(7);
    let mut foreign = false;
    match kind {
        0 => {
            bad.remove(i);
            c.label("missing");
        }
        1 => {
            let t = bad[j];
            bad.push(t);
            c.label("additional");
        }
        2 => {
            bad[i].swap(1, 2);
            c.label("turned over");
        }
        3 => {
            bad[i] = bad[j];
            c.label("duplicated");
        }
        4 => {
            // some other triangle in place of one
            let q = src.perm(n);
            bad[i] = [q[0], q[1], q[2]];
            if orient(p[q[0]], p[q[1]], p[q[2]]) < 0 {
                bad[i].swap(0, 1);
            }
            c.label("replaced");
        }
        5 => {
            // one corner moved
            let o = src.usize(0, 2);
            bad[i][o] = src.below(n as u64) as usize;
            c.label("one corner");
        }
        _ => {
            foreign = true;
            c.label("foreign");
        }
    }
    let mut list: Vec<V> = list[..start].to_vec();
    for t in &bad {
        list.extend(t.iter().map(|i| id[*i]));
    }
    if foreign {
        let o = start + src.below(3 * m as u64) as usize;
        list[o] = alien;
    }
    // is it a triangulation after all?
    let valid = !foreign && partition(&p, &bad, true).is_ok();
    if valid {
        return match verified::<V, T>(&list, start, &vs) {
            Ok(_) => Ok(()),
            Err(e) => fail("accept", format!("a triangulation is rejected: {}", e)),
        };
    }
    let ars: Vec<i128> = bad.iter().map(|t| orient(p[t[0]], p[t[1]], p[t[2]])).collect();
    let mut es: BTreeMap<(usize, usize), usize> = Default::default();
    for t in &bad {
        for o in 0..3 {
            *es.entry((t[o], t[(o + 1) % 3])).or_default() += 1;
        }
    }
    let mut seen: Vec<[usize; 3]> = bad
        .iter()
        .filter(|t| orient(p[t[0]], p[t[1]], p[t[2]]) != 0)
        .map(|t| {
            let mut t = *t;
            t.sort();
            t
        })
        .collect();
    seen.sort();
    let used: BTreeSet<usize> = bad.iter().flatten().copied().collect();
    {
        // the single verifications
        let mut l = list.clone();
        let ix = l.split_off(start);
        let mut t = Triangulation::new(&mut l);
        for q in ix.chunks(3) {
            t.insert_triangle(q[0], q[1], q[2]);
        }
        let hm: HashMap<V, T::V> = vs.iter().map(|v| (v.index, v.vec)).collect();
        let r = catch(|| t.verify_indices(&hm));
        ensure!(r.is_err() == (foreign || bad.len() != n - 2), "indices", "verify_indices returns {:?} for {:?} from {} on", r, list, start);
        let r = catch(|| t.verify_all_indices_used(&vs));
        ensure!(r.is_err() == (foreign || used.len() != n), "used", "verify_all_indices_used returns {:?} for {:?} from {} on", r, list, start);
        if !foreign && ars.iter().any(|a| *a < 0) {
            let r = catch(|| t.verify_non_degenerate_triangle(&hm));
            ensure!(r.is_err(), "orientation", "verify_non_degenerate_triangle accepts {:?} from {} on", list, start);
        } else if !foreign && ars.iter().all(|a| *a > 0) {
            let r = catch(|| t.verify_non_degenerate_triangle(&hm));
            ensure!(r.is_ok(), "orientation", "verify_non_degenerate_triangle returns {:?} for {:?} from {} on", r, list, start);
        }
    }
    // the documented tolerance is sqrt(eps)
    let tol = if T::BIG > 1000 { 3e-8 } else { 7e-4 };
    let diff = (ars.iter().sum::<i128>() - area2(&p)).abs() as f64 / area2(&p).abs() as f64;
    let crossing = bad.iter().any(|a| {
        bad.iter().any(|b| {
            (0..3).any(|k| (0..3).any(|l| cross_clearly(p[a[k]], p[a[(k + 1) % 3]], p[b[l]], p[b[(l + 1) % 3]], tol)))
        })
    });
    let why = if foreign {
        "has a foreign corner"
    } else if bad.len() != n - 2 {
        "has the wrong number of triangles"
    } else if used.len() != n {
        "does not use all corners"
    } else if ars.iter().any(|a| *a < 0) {
        "has a clockwise triangle"
    } else if seen.windows(2).any(|w| w[0] == w[1]) {
        "has a triangle twice"
    } else if diff > tol {
        "has another area than the polygon"
    } else if es.values().any(|x| *x > 1) {
        "has overlapping triangles on one side of an edge"
    } else if crossing {
        "has crossing edges"
    } else {
        c.label("undecided");
        return Ok(());
    };
    c.log(|| format!("{}: {:?}{}", why, bad, if foreign { format!(", list {:?}", list) } else { String::new() }));
    ensure!(verified::<V, T>(&list, start, &vs).is_err(), format!("reject-{}", why.split(' ').nth(2).unwrap_or("")), "a triangulation that {} is accepted", why);
    Ok(())
}

macro_rules! list {
    ($v:ty, $t:ty, $a:literal, $b:literal) => {
        vec![target($a, 40000, 1000000, history::<$v, $t>), target($b, 60000, 1500000, verify::<$v, $t>)]
    };
}
#[cfg(feature = "bevy")]
pub fn bevy27() -> Vec<Target> {
    list!(u32, procedural_modelling::extensions::bevy::Polygon2dBevy, "history_bevy", "verify_bevy")
}
pub fn prop27_with(extra: Vec<Target>) -> Property {
    let _ = SVector::<f64, 2>::zeros();
    let mut targets = list!(usize, Polygon2d<f64>, "history_usize_f64", "verify_usize_f64");
    targets.extend(list!(u32, Polygon2d<f32>, "history_u32_f32", "verify_u32_f32"));
    targets.extend(list!(u16, Polygon2d<f64>, "history_u16_f64", "verify_u16_f64"));
    targets.extend(list!(u8, Polygon2d<f64>, "history_u8_f64", "verify_u8_f64"));
    targets.extend(extra);
    Property {
        id: "P27",
        rule: "histories: more than two triangles measured in a triangulation that does not start at zero; verification: more than four corners and a start other than zero",
        assumptions: &[
            "flipped triangles have three different corners and are two different triangles",
            "damage is judged where exact arithmetic shows one of: count, foreign or unused corner, clockwise triangle, duplicate, wrong area, two triangles on one side of an edge, crossing edges; other damage is left open; areas and crossings within the documented tolerance of sqrt(eps) are not judged",
        ],
        targets,
        known: vec![],
    }
}
