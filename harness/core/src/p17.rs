//! Path building (P17).
use crate::cm::*;
use crate::model::*;
use crate::p16::{bend, curved_mesh};
use crate::poly::*;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

type Me<T> = HalfEdgeMeshImpl<T>;

/// What an outline looks like: ids of its corners, positions, and the curves between them.
struct Drawn {
    vs: Vec<usize>,
    pos: Vec<D3>,
    segs: Vec<Bez>,
    closed: bool,
    face: Option<usize>,
    /// (edge payload of the forward half, of the backward half) if given explicitly
    eps: BTreeMap<usize, (Bez, Bez)>,
}

/// Draws one outline into the mesh while recording what it should become: starting at the vertex `at`
/// (or at the edge `into` leading there), ending at the existing vertex `to`. `shared`: both are on the
/// same boundary, `apart`: they are not adjacent.
fn draw<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx, m: &mut Me<T>, s: f64, at: Option<T::V>, into: Option<T::E>, to: Option<T::V>, shared: bool, apart: bool) -> Result<Drawn, Fail>
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let mut p = match at {
        Some(v) => co(&m.vertex(v).pos()),
        None => point::<T::S, D>(src, s),
    };
    let start = p;
    let mut d = Drawn { vs: vec![], pos: vec![], segs: vec![], closed: false, face: None, eps: BTreeMap::new() };
    let mode = src.below(4);
    // vertices prepared in advance for the variants which take vertex ids
    let mut pb = match at {
        Some(v) => match into {
            Some(e) => {
                c.log(|| format!("start at edge {} leading to vertex {}", e, v));
                PathBuilder::<T, T::Trans>::start_at_edge(m, e)
            }
            None => {
                c.log(|| format!("start at vertex {}", v));
                PathBuilder::<T, T::Trans>::start_at(m, v)
            }
        },
        None => match mode {
            0 => {
                c.log(|| format!("start {:?}", p));
                PathBuilder::<T, T::Trans>::start(m, ve(p))
            }
            1 => {
                c.log(|| format!("start_ex {:?}", p));
                PathBuilder::<T, T::Trans>::start_ex(m, T::VP::from_pos(ve(p)))
            }
            2 => {
                let v = m.add_vertex(T::VP::from_pos(ve(p)));
                c.log(|| format!("start at the new vertex {} {:?}", v, p));
                PathBuilder::<T, T::Trans>::start_at(m, v)
            }
            _ => {
                c.log(|| format!("move_to_new {:?}", p));
                let mut pb = PathBuilder::<T, T::Trans>::new(m);
                pb.move_to_new(ve(p));
                pb
            }
        },
    };
    let v0 = pb.start_vertex();
    ensure!(pb.current_vertex() == v0 && !pb.is_closed() && !pb.has_face(), "start", "a new path has current vertex {}, start {}, closed {}, face {}", pb.current_vertex(), v0, pb.is_closed(), pb.has_face());
    if let Some(v) = at {
        ensure!(v == v0, "start", "starting at vertex {} starts at {}", v, v0);
    }
    d.vs.push(v0.index());
    d.pos.push(p);
    let n = src.few(1, 7, 90).max(1 + (to.is_some() && !apart) as usize);
    let mut first = None;
    for i in 0..n {
        let mut q = point::<T::S, D>(src, s);
        let there = to.filter(|_| i + 1 == n);
        // autoclosing functions return to the start, once there are three corners
        let home = i > 1 && at.is_none() && to.is_none() && src.chance(1, 5);
        let auto = there.is_none() && (home || src.chance(1, 6));
        let near = !home && auto && at.is_none() && src.chance(1, 3);
        if let Some(v) = there {
            q = co(&pb.mesh().vertex(v).pos());
        } else if home {
            q = start;
        } else if near {
            // close to the start, but not there
            q = start;
            let i = src.usize(0, D - 1);
            let e = 0.5f64.powi(*src.pick(&[3, 10, 20, 22, 30, 40, 50]));
            let x = sc::<T::S>(q[i] + e * if src.bool() { s } else { q[i].abs() }).to_f64();
            if x == q[i] {
                q[i] = sc::<T::S>(q[i] + s).to_f64();
            } else {
                c.label("close to the start");
                q[i] = x;
            }
        } else if q == start {
            q[0] = sc::<T::S>(q[0] + s).to_f64();
        }
        let k = match src.below(3) {
            0 => Bez(vec![p, q]),
            _ => curve::<T::S, D>(src, c, p, q, s),
        };
        let how = src.below(4);
        let mut explicit = None;
        if there.is_some() && k.0.len() == 2 && how == 1 {
            let f = curve::<T::S, D>(src, c, p, q, s);
            let b = if src.bool() { f.rev() } else { Bez(vec![q, p]) };
            let ep = |k: &Bez| {
                let mut e = T::EP::default();
                e.set_curve_type(kind::<T, D>(k));
                e
            };
            c.log(|| format!("line_to_ex vertex {} with payloads {:?} and {:?}", there.unwrap(), f.0, b.0));
            pb.line_to_ex(there.unwrap(), ep(&f), ep(&b));
            explicit = Some((f, b));
        } else if auto || how == 0 || there.is_some() {
            // by vertex
            let v = if let Some(v) = there {
                v
            } else if auto {
                pb.add_vertex_autoclose(ve(q))
            } else {
                pb.mesh().add_vertex(T::VP::from_pos(ve(q)))
            };
            c.log(|| format!("{} {:?} to vertex {}{}", ["", "", "line", "quad", "cubic"][k.0.len()], k.0, v, if auto { " (autoclose)" } else { "" }));
            ensure!((v == v0) == home, "autoclose", "position {:?} leads to vertex {}, the start {} is at {:?}", q, v, v0, start);
            match k.0.len() {
                3 => pb.quad_to(ve(k.0[1]), v),
                4 => pb.cubic_to(ve(k.0[1]), ve(k.0[2]), v),
                _ => pb.line_to(v),
            };
        } else if k.0.len() == 2 && how == 1 {
            let f = curve::<T::S, D>(src, c, p, q, s);
            let b = if src.bool() { f.rev() } else { Bez(vec![q, p]) };
            let ep = |k: &Bez| {
                let mut e = T::EP::default();
                e.set_curve_type(kind::<T, D>(k));
                e
            };
            c.log(|| format!("line_ex to {:?} with payloads {:?} and {:?}", q, f.0, b.0));
            pb.line_ex(T::VP::from_pos(ve(q)), ep(&f), ep(&b));
            explicit = Some((f, b));
        } else {
            c.log(|| format!("{} {:?}", ["", "", "line", "quad", "cubic"][k.0.len()], k.0));
            match k.0.len() {
                3 => pb.quad(ve(k.0[1]), ve(q)),
                4 => pb.cubic(ve(k.0[1]), ve(k.0[2]), ve(q)),
                _ => pb.line(ve(q)),
            };
        }
        let w = pb.current_vertex();
        ensure!((w == v0) == home, "cursor", "after drawing to {:?} the current vertex is {} (start {})", q, w, v0);
        ensure_eq!(pb.is_closed(), home, "closed", "is_closed after drawing to {:?}", q);
        ensure!(!pb.has_face(), "closed", "has_face before closing");
        ensure_eq!(pb.start_vertex(), v0, "start", "start_vertex while drawing");
        match pb.current_edges() {
            Some((e, t)) => {
                let h = pb.mesh().edge(e);
                let (o, tw) = (h.origin_id().index(), h.twin_id());
                ensure!(o == *d.vs.last().unwrap() && tw == t, "edges", "current edges {} and {}: the first starts at {} and has twin {}", e, t, o, tw);
                if first.is_none() {
                    first = Some((e, t));
                }
            }
            None => return fail("edges", "no current edges after drawing"),
        }
        if at.is_none() {
            ensure!(pb.start_edges().is_some(), "edges", "no start edges after drawing");
        }
        if let Some(x) = explicit {
            d.eps.insert(d.segs.len(), x);
        }
        d.segs.push(k);
        if home {
            d.closed = true;
            c.label("closed by returning to the start");
            break;
        }
        d.vs.push(w.index());
        d.pos.push(q);
        p = q;
    }
    let fin = src.below(4);
    if to.is_some() {
        c.label("ends at an existing vertex");
        if shared && fin > 1 {
            c.log(|| "close".into());
            c.label("closed along an existing boundary");
            d.face = Some(pb.close(Default::default()).index());
            ensure!(pb.is_closed() && pb.has_face(), "closed", "after closing: is_closed {} has_face {}", pb.is_closed(), pb.has_face());
        }
    } else if at.is_none() && d.vs.len() > 2 && (d.closed && fin > 0 || !d.closed && fin > 1) {
        c.log(|| "close".into());
        let f = pb.close(Default::default());
        if !d.closed {
            c.label("closed by a line");
            d.segs.push(Bez(vec![p, start]));
        }
        d.closed = true;
        ensure!(pb.is_closed() && pb.has_face(), "closed", "after closing: is_closed {} has_face {}", pb.is_closed(), pb.has_face());
        d.face = Some(f.index());
    } else if at.is_none() && d.segs.is_empty() {
        let f = pb.close(Default::default());
        ensure!(f == <T::F as IndexType>::max(), "closed", "closing an empty path returns face {}", f);
    }
    Ok(d)
}

/// Compares the mesh with the one before and the drawn outline.
fn judge<T: CM<D>, const D: usize>(m: &Me<T>, before: &Snap<T>, d: &Drawn, at: Option<usize>, to: Option<usize>) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let a = snap(m);
    if let Err(e) = a.audit() {
        return fail("audit", e);
    }
    let new_v: Vec<usize> = a.v.keys().filter(|v| !before.v.contains_key(v)).copied().collect();
    let want: BTreeSet<usize> = d.vs[(at.is_some() as usize)..].iter().copied().filter(|v| Some(*v) != to).collect();
    ensure_eq!(new_v.iter().copied().collect::<BTreeSet<_>>(), want, "vertices", "new vertices");
    ensure_eq!(want.len(), d.vs.len() - at.is_some() as usize - to.is_some() as usize, "vertices", "the corners of the path are distinct");
    for (i, v) in d.vs.iter().enumerate() {
        let p = co(&m.vertex(T::V::new(*v)).pos());
        ensure_eq!(p, d.pos[i], "position", "position of corner {} (vertex {})", i, v);
    }
    for (i, v) in &before.v {
        ensure!(a.v.get(i).map(|x| &x.vp) == Some(&v.vp), "touched", "vertex {} changed to {:?}", i, a.v.get(i));
    }
    ensure_eq!(a.e.len(), before.e.len() + 2 * d.segs.len(), "edges", "number of half-edges after drawing {} segments", d.segs.len());
    let n = d.vs.len();
    for (i, k) in d.segs.iter().enumerate() {
        let (u, v) = (d.vs[i], d.vs[(i + 1) % n]);
        let Some(e) = a.edge_between(u, v) else { return fail("edges", format!("there is no edge from {} to {}", u, v)) };
        let t = a.twin(e);
        let (f, b) = match d.eps.get(&i) {
            Some(x) => x.clone(),
            None => (k.clone(), Bez(vec![*k.0.last().unwrap(), k.0[0]])),
        };
        let (gf, gb) = (bez::<T, D>(m, T::E::new(e)), bez::<T, D>(m, T::E::new(t)));
        ensure!(gf == f, "curve", "segment {} from {} to {} has the curve {:?}, expected {:?}", i, u, v, gf.0, f.0);
        ensure!(gb == b, "curve", "the way back of segment {} from {} to {} has the curve {:?}, expected {:?}", i, u, v, gb.0, b.0);
    }
    // boundaries
    let walks = |x: &Snap<T>| -> Vec<(Option<usize>, Vec<usize>)> {
        let mut r: Vec<_> = x.walks().into_iter().map(|w| (x.face(w[0]), canon(&w.iter().map(|e| x.org(*e)).collect::<Vec<_>>()))).collect();
        r.sort();
        r
    };
    let mut exp = walks(before);
    let back: Vec<usize> = d.vs.iter().rev().copied().collect();
    // the only boundary at an existing vertex, starting there
    let hole = |exp: &[(Option<usize>, Vec<usize>)], v: usize| -> Option<(usize, Vec<usize>)> {
        let k = exp.iter().position(|x| x.0.is_none() && x.1.contains(&v))?;
        let i = exp[k].1.iter().position(|x| *x == v).unwrap();
        Some((k, exp[k].1[i..].iter().chain(&exp[k].1[..i]).copied().collect()))
    };
    match at {
        _ if to.is_some() => {
            let w = to.unwrap();
            let (a, b) = (at.and_then(|v| hole(&exp, v)), hole(&exp, w));
            let out = &d.vs[..n - 1];
            match (a, b) {
                (Some((k, old)), Some((l, _))) if k == l => {
                    // the boundary is cut in two
                    exp.remove(k);
                    let j = old.iter().position(|x| *x == w).unwrap();
                    let x: Vec<usize> = out.iter().chain(&old[j..]).copied().collect();
                    let y: Vec<usize> = back[..n - 1].iter().chain(&old[..j]).copied().collect();
                    exp.push((d.face, canon(&x)));
                    exp.push((None, canon(&y)));
                }
                (a, b) => {
                    // the boundaries become one
                    let mut x = out.to_vec();
                    x.push(w);
                    if let Some((_, l)) = &b {
                        x.extend(&l[1..]);
                        x.push(w);
                    }
                    x.extend(&back[1..n - 1]);
                    if let Some((_, l)) = &a {
                        x.extend(l);
                    }
                    let mut ks: Vec<usize> = a.iter().chain(b.iter()).map(|x| x.0).collect();
                    ks.sort();
                    for k in ks.iter().rev() {
                        exp.remove(*k);
                    }
                    exp.push((None, canon(&x)));
                }
            }
        }
        None => {
            if d.closed {
                exp.push((None, canon(&d.vs)));
                exp.push((d.face, canon(&back)));
            } else if n > 1 {
                let mut w = d.vs.clone();
                w.extend(back[1..n - 1].iter());
                exp.push((None, canon(&w)));
            }
        }
        Some(v) => {
            let mut w = d.vs.clone();
            w.extend(back[1..n - 1].iter());
            // the excursion starts at v, on the only hole it touches
            let hs: Vec<usize> = (0..exp.len()).filter(|i| exp[*i].0.is_none() && exp[*i].1.contains(&v)).collect();
            match hs.first() {
                None => exp.push((None, canon(&w))),
                Some(h) => {
                    let old = exp.remove(*h).1;
                    let i = old.iter().position(|x| *x == v).unwrap();
                    let l: Vec<usize> = old[..i].iter().copied().chain(w).chain(old[i..].iter().copied()).collect();
                    exp.push((None, canon(&l)));
                }
            }
        }
    }
    exp.sort();
    ensure_eq!(walks(&a), exp, "walks", "boundaries after drawing the path over {:?}", d.vs);
    let faces: BTreeSet<usize> = a.f.keys().filter(|f| !before.f.contains_key(f)).copied().collect();
    ensure_eq!(faces, d.face.into_iter().collect::<BTreeSet<_>>(), "faces", "new faces");
    for (i, f) in &before.f {
        ensure!(a.f.get(i).map(|x| (&x.fp, x.curved)) == Some((&f.fp, f.curved)), "touched", "face {} changed", i);
    }
    for (i, h) in &before.e {
        // the new face may take a part of an existing boundary
        let ok = a.e.get(i).is_some_and(|g| (g.org, g.twin) == (h.org, h.twin) && (g.face == h.face || to.is_some() && h.face.is_none() && g.face == d.face) && g.ep == h.ep);
        ensure!(ok, "touched", "edge {} changed from {:?} to {:?}", i, h, a.e.get(i));
    }
    Ok(())
}

fn outlines<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let s = *src.pick(&[1.0, 1.0, 64.0, 0.5f64.powi(20), 0.5f64.powi(40), 2f64.powi(30)]);
    let mut m = if src.chance(1, 3) { curved_mesh::<T, D>(src, c, s)? } else { Me::<T>::new() };
    if src.chance(1, 3) {
        bend::<T, D>(src, c, &mut m, s);
    }
    let mut rich = 0;
    for _ in 0..src.few(1, 4, 24) {
        let before = snap(&m);
        if let Err(d) = before.audit() {
            return fail("setup", d);
        }
        // sometimes continue at an existing vertex with one boundary
        let free: Vec<usize> = before.v.keys().filter(|v| before.outs(**v).iter().filter(|e| before.face(**e).is_none()).count() == 1).copied().collect();
        let at = if !free.is_empty() && src.chance(1, 4) { Some(*src.pick(&free)) } else { None };
        if at.is_some() {
            c.label("continues at an existing vertex");
        }
        // and end at another one
        let ends: Vec<usize> = before.v.keys().filter(|v| Some(**v) != at && (free.contains(v) || before.outs(**v).is_empty())).copied().collect();
        let to = if !ends.is_empty() && src.chance(1, 3) { Some(*src.pick(&ends)) } else { None };
        let into = match at {
            Some(v) if src.bool() => before.walks().into_iter().find_map(|w| {
                let i = w.iter().position(|e| before.org(*e) == v && before.face(*e).is_none())?;
                Some(T::E::new(w[(i + w.len() - 1) % w.len()]))
            }),
            _ => None,
        };
        let shared = at.is_some() && to.is_some() && before.walks().iter().any(|w| before.face(w[0]).is_none() && [at, to].iter().all(|x| w.iter().any(|e| Some(before.org(*e)) == *x)));
        let apart = match (at, to) {
            (Some(a), Some(b)) => before.edge_between(a, b).is_none(),
            _ => true,
        };
        let d = draw::<T, D>(src, c, &mut m, s, at.map(T::V::new), into, to.map(T::V::new), shared, apart)?;
        judge::<T, D>(&m, &before, &d, at, to)?;
        if d.closed && d.face.is_some() && d.segs.iter().any(|k| k.0.len() > 2) && d.segs.len() > 2 {
            rich += 1;
        }
    }
    if rich > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn target17<T: CM<D>, const D: usize>(n: &'static str, q: u64) -> Target
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    target(n, q, 30 * q, outlines::<T, D>)
}
pub fn prop17_with(extra: Vec<Target>) -> Property {
    let mut targets = vec![target17::<C2, 2>("outlines_2d", 150000), target17::<C3, 3>("outlines_3d", 120000), target17::<C2F, 2>("outlines_f32", 120000)];
    targets.extend(extra);
    Property {
        id: "P17",
        rule: "random path programs (all ways to start, lines and curves by position, vertex or payload, returning to the start, closing) drawn into empty and grown meshes and compared with the recorded outline; non-trivial: some closed outline with a face and a curve",
        assumptions: &["closed outlines have at least three corners (the library rejects double edges)", "paths continuing at an existing vertex start where exactly one boundary passes, and stay open unless they end at an existing vertex of the same boundary"],
        targets,
        known: vec![],
    }
}
