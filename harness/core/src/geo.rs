//! Exact integer plane geometry and generators of simple polygons.
use engine::*;

pub type P = [i64; 2];

pub fn orient(a: P, b: P, c: P) -> i128 {
    (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128
}
pub fn sgn(x: i128) -> i32 {
    x.signum() as i32
}
pub fn d2(a: P, b: P) -> i128 {
    let (x, y) = ((b[0] - a[0]) as i128, (b[1] - a[1]) as i128);
    x * x + y * y
}
/// twice the signed area
pub fn area2(p: &[P]) -> i128 {
    let n = p.len();
    (0..n).map(|i| p[i][0] as i128 * p[(i + 1) % n][1] as i128 - p[(i + 1) % n][0] as i128 * p[i][1] as i128).sum()
}
/// c on the closed segment ab
pub fn on_segment(a: P, b: P, c: P) -> bool {
    orient(a, b, c) == 0 && c[0] >= a[0].min(b[0]) && c[0] <= a[0].max(b[0]) && c[1] >= a[1].min(b[1]) && c[1] <= a[1].max(b[1])
}
/// closed segments share a point
pub fn meet(a: P, b: P, c: P, d: P) -> bool {
    if a[0].max(b[0]) < c[0].min(d[0]) || c[0].max(d[0]) < a[0].min(b[0]) || a[1].max(b[1]) < c[1].min(d[1]) || c[1].max(d[1]) < a[1].min(b[1]) {
        return false;
    }
    let (o1, o2) = (sgn(orient(a, b, c)), sgn(orient(a, b, d)));
    let (o3, o4) = (sgn(orient(c, d, a)), sgn(orient(c, d, b)));
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}
/// interiors cross in exactly one point
pub fn cross_properly(a: P, b: P, c: P, d: P) -> bool {
    let (o1, o2) = (sgn(orient(a, b, c)), sgn(orient(a, b, d)));
    let (o3, o4) = (sgn(orient(c, d, a)), sgn(orient(c, d, b)));
    o1 * o2 < 0 && o3 * o4 < 0
}
/// edges meet only at common corners, no spikes
pub fn is_simple(p: &[P]) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if a == b {
            return false;
        }
        let c = p[(i + 2) % n];
        // spike: the next edge goes back along this one
        if orient(a, b, c) == 0 && ((a[0] - b[0]) as i128 * (c[0] - b[0]) as i128 + (a[1] - b[1]) as i128 * (c[1] - b[1]) as i128) > 0 {
            return false;
        }
        for j in i + 2..n {
            if (j + 1) % n == i {
                continue;
            }
            if meet(a, b, p[j], p[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}
pub fn is_convex(p: &[P]) -> bool {
    let n = p.len();
    (0..n).all(|i| orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) > 0) && {
        // winds once
        is_simple(p)
    }
}
pub fn general_position(p: &[P]) -> bool {
    let n = p.len();
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                if orient(p[i], p[j], p[k]) == 0 {
                    return false;
                }
            }
        }
    }
    true
}
/// 1 inside, 0 on the boundary, -1 outside
pub fn locate(p: &[P], q: P) -> i32 {
    let n = p.len();
    let mut w = 0;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if on_segment(a, b, q) {
            return 0;
        }
        if a[1] <= q[1] {
            if b[1] > q[1] && orient(a, b, q) > 0 {
                w += 1;
            }
        } else if b[1] <= q[1] && orient(a, b, q) < 0 {
            w -= 1;
        }
    }
    if w != 0 { 1 } else { -1 }
}
/// The open segment ij lies in the interior of the (simple, ccw) polygon.
pub fn diagonal(p: &[P], i: usize, j: usize) -> bool {
    let n = p.len();
    let (a, b) = (p[i], p[j]);
    for k in 0..n {
        let l = (k + 1) % n;
        if k != i && k != j && on_segment(a, b, p[k]) {
            return false;
        }
        if k == i || k == j || l == i || l == j {
            continue;
        }
        if meet(a, b, p[k], p[l]) {
            return false;
        }
    }
    // locally inside at i
    let (pr, nx) = (p[(i + n - 1) % n], p[(i + 1) % n]);
    if orient(pr, a, nx) > 0 {
        orient(a, nx, b) > 0 && orient(a, b, pr) > 0
    } else if orient(pr, a, nx) < 0 {
        !(orient(a, pr, b) >= 0 && orient(a, b, nx) >= 0)
    } else {
        orient(pr, a, b) > 0
    }
}

fn hull(mut q: Vec<P>) -> Vec<P> {
    q.sort();
    q.dedup();
    if q.len() < 3 {
        return q;
    }
    let half = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = vec![];
        for x in it {
            while h.len() >= 2 && orient(h[h.len() - 2], h[h.len() - 1], x) <= 0 {
                h.pop();
            }
            h.push(x);
        }
        h.pop();
        h
    };
    let mut lo = half(&mut q.iter().copied());
    let hi = half(&mut q.iter().rev().copied());
    lo.extend(hi);
    lo
}

fn fix(mut p: Vec<P>) -> Vec<P> {
    if area2(&p) < 0 {
        p.reverse();
    }
    p
}

pub const KINDS: [&str; 9] = ["grown", "convex", "star", "two-opt", "monotone", "cells", "comb", "spiral", "zigzag"];

fn raw(src: &mut Src, kind: usize, n: usize, g: i64) -> Vec<P> {
    let pt = |src: &mut Src| [src.int(-g, g), src.int(-g, g)];
    match kind {
        1 => hull((0..n * 2).map(|_| pt(src)).collect()),
        2 => {
            let mut q: Vec<P> = (0..n).map(|_| pt(src)).filter(|p| *p != [0, 0]).collect();
            q.sort_by(|a, b| {
                let h = |p: &P| (p[1] < 0 || p[1] == 0 && p[0] < 0) as i32;
                h(a).cmp(&h(b)).then(0.cmp(&orient([0, 0], *a, *b)))
            });
            q.dedup_by(|a, b| orient([0, 0], *a, *b) == 0 && a[0].signum() == b[0].signum() && a[1].signum() == b[1].signum());
            q
        }
        3 => {
            let mut q: Vec<P> = (0..n).map(|_| pt(src)).collect();
            q.sort();
            q.dedup();
            let o = src.perm(q.len());
            let mut q: Vec<P> = o.iter().map(|i| q[*i]).collect();
            let n = q.len();
            for _ in 0..200 {
                let mut hit = false;
                'o: for i in 0..n {
                    for j in i + 2..n {
                        if (j + 1) % n == i {
                            continue;
                        }
                        if meet(q[i], q[i + 1], q[j], q[(j + 1) % n]) {
                            q[i + 1..=j].reverse();
                            hit = true;
                            break 'o;
                        }
                    }
                }
                if !hit {
                    break;
                }
            }
            q
        }
        4 => {
            // monotone in y: two chains between the extremes
            let m = n.max(4) as i64;
            let mut ys: Vec<i64> = (0..m).collect();
            if src.bool() {
                ys = ys.iter().map(|y| y / 2).collect();
            }
            let mut l = vec![];
            let mut r = vec![];
            for (k, y) in ys.iter().enumerate() {
                let x = src.int(1, g.max(1));
                if k == 0 || k + 1 == ys.len() || src.bool() {
                    l.push([-x, *y]);
                } else {
                    r.push([x, *y]);
                }
            }
            l.dedup_by(|a, b| a[1] == b[1]);
            r.dedup_by(|a, b| a[1] == b[1]);
            l.reverse();
            r.extend(l);
            r
        }
        5 => {
            // outline of a simply connected set of cells
            let mut cells: std::collections::BTreeSet<P> = [[0, 0]].into();
            for _ in 0..n {
                let v: Vec<P> = cells.iter().copied().collect();
                let c = *src.pick(&v);
                let d = *src.pick(&[[1, 0], [0, 1], [-1, 0], [0, -1]]);
                let q = [c[0] + d[0], c[1] + d[1]];
                if cells.contains(&q) {
                    continue;
                }
                // the ring of 8 neighbours must change exactly once from full to empty
                let ring = [[1, 0], [1, 1], [0, 1], [-1, 1], [-1, 0], [-1, -1], [0, -1], [1, -1]];
                let f: Vec<bool> = ring.iter().map(|r| cells.contains(&[q[0] + r[0], q[1] + r[1]])).collect();
                if (0..8).filter(|i| f[*i] && !f[(i + 1) % 8]).count() == 1 {
                    cells.insert(q);
                }
            }
            let mut next: std::collections::BTreeMap<P, P> = Default::default();
            for c in &cells {
                let has = |x: i64, y: i64| cells.contains(&[c[0] + x, c[1] + y]);
                let (x, y) = (c[0], c[1]);
                if !has(0, -1) {
                    next.insert([x, y], [x + 1, y]);
                }
                if !has(1, 0) {
                    next.insert([x + 1, y], [x + 1, y + 1]);
                }
                if !has(0, 1) {
                    next.insert([x + 1, y + 1], [x, y + 1]);
                }
                if !has(-1, 0) {
                    next.insert([x, y + 1], [x, y]);
                }
            }
            let s = *next.keys().next().unwrap();
            let mut q = vec![s];
            let mut c = next[&s];
            while c != s && q.len() <= next.len() {
                q.push(c);
                c = next[&c];
            }
            // without the collinear points
            let k = q.len();
            let keep: Vec<P> = (0..k).filter(|i| orient(q[(i + k - 1) % k], q[*i], q[(i + 1) % k]) != 0).map(|i| q[i]).collect();
            let (sx, sy) = (src.int(1, 3), src.int(1, 3));
            keep.iter().map(|p| [p[0] * sx, p[1] * sy]).collect()
        }
        6 => {
            let t = (n / 2).max(2) as i64;
            let mut q = vec![];
            for i in 0..t {
                q.push([2 * i, src.int(0, 2)]);
                q.push([2 * i + 1, src.int(3, 3 + g)]);
            }
            let x = 2 * t;
            q.push([x, -1 - src.int(0, 3)]);
            q.push([-1, -1 - src.int(0, 3)]);
            q
        }
        7 => {
            // a rectangular spiral of the given number of turns
            let t = (n / 4).max(1) as i64;
            let mut outer = vec![];
            let mut inner = vec![];
            let (mut x, mut y) = (0i64, 0i64);
            let dirs = [[1, 0], [0, 1], [-1, 0], [0, -1]];
            let mut l = 4 * t;
            for k in 0..2 * t as usize {
                outer.push([x, y]);
                let d = dirs[k % 4];
                let nd = dirs[(k + 1) % 4];
                let pd = dirs[(k + 3) % 4];
                // the inner side is one unit to the left of the walk
                inner.push([x + d[0] * (k > 0) as i64 * 1 + nd[0], y + d[1] * (k > 0) as i64 + nd[1]]);
                let _ = pd;
                x += d[0] * l;
                y += d[1] * l;
                if k >= 1 {
                    l -= 2 * (k % 2) as i64;
                }
            }
            inner.reverse();
            outer.extend(inner);
            outer
        }
        8 => {
            let t = n as i64;
            let up: Vec<P> = (0..t).map(|i| [i, (i % 2) * 2 + 2]).collect();
            let mut lo: Vec<P> = (0..t).map(|i| [i, (i % 2) * 2]).collect();
            lo.extend(up.into_iter().rev());
            lo
        }
        _ => {
            let mut q = vec![[0, 0], [g, 0], [0, g]];
            let mut tries = 0;
            while q.len() < n && tries < 4 * n {
                tries += 1;
                let i = src.below(q.len() as u64) as usize;
                let x = pt(src);
                let k = q.len();
                let (a, b) = (q[i], q[(i + 1) % k]);
                if x == a || x == b {
                    continue;
                }
                let mut c = q.clone();
                c.insert(i + 1, x);
                if is_simple(&c) {
                    q = c;
                }
            }
            q
        }
    }
}

/// A simple polygon in counter-clockwise order with integer coordinates of limited size.
pub fn polygon(src: &mut Src, c: &mut Ctx, max_n: usize, g: i64, kinds: &[usize]) -> Vec<P> {
    let kind = *src.pick(kinds);
    let n = src.sized(3, max_n);
    let mut p = fix(raw(src, kind, n, g));
    // unimodular maps break or create ties
    match src.below(6) {
        1 => p = p.iter().map(|q| [q[1], -q[0]]).collect(),
        2 => p = p.iter().map(|q| [-q[0], -q[1]]).collect(),
        3 => p = fix(p.iter().map(|q| [-q[0], q[1]]).collect()),
        4 => {
            let k = src.int(-2, 2);
            p = p.iter().map(|q| [q[0] + k * q[1], q[1]]).collect()
        }
        5 => {
            let k = src.int(-2, 2);
            p = p.iter().map(|q| [q[0], q[1] + k * q[0]]).collect()
        }
        _ => {}
    }
    if p.len() < 3 || !is_simple(&p) || area2(&p) <= 0 {
        p = vec![[0, 0], [1, 0], [0, 1]];
    } else {
        c.label(KINDS[kind]);
    }
    let r = src.below(p.len() as u64) as usize;
    p.rotate_left(r);
    p
}
/// puts extra points on edges
pub fn add_collinear(src: &mut Src, p: &[P]) -> Vec<P> {
    let k = src.int(2, 4);
    let p: Vec<P> = p.iter().map(|q| [q[0] * k, q[1] * k]).collect();
    let n = p.len();
    let mut r = vec![];
    for i in 0..n {
        r.push(p[i]);
        let q = p[(i + 1) % n];
        if src.chance(1, 3) {
            let t = src.int(1, k - 1);
            r.push([p[i][0] + (q[0] - p[i][0]) / k * t, p[i][1] + (q[1] - p[i][1]) / k * t]);
        }
    }
    r
}

/// Checks that the triangles (corner indices) exactly partition the polygon.
/// `strict`: triangles of zero area are not allowed.
pub fn partition(p: &[P], tris: &[[usize; 3]], strict: bool) -> Res {
    let n = p.len();
    ensure_eq!(tris.len(), n - 2, "count", "number of triangles");
    for t in tris {
        let o = orient(p[t[0]], p[t[1]], p[t[2]]);
        ensure!(o > 0 || (o == 0 && !strict), "orientation", "triangle {:?} has area {}/2", t, o);
        ensure!(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "orientation", "triangle {:?} repeats a corner", t);
    }
    // the boundary of the triangles is the boundary of the polygon
    let mut count: std::collections::BTreeMap<(usize, usize), i32> = Default::default();
    for t in tris {
        for i in 0..3 {
            *count.entry((t[i], t[(i + 1) % 3])).or_insert(0) += 1;
        }
    }
    for i in 0..n {
        let e = (i, (i + 1) % n);
        ensure!(count.get(&e) == Some(&1), "boundary", "polygon edge {:?} is used by {} triangles", e, count.get(&e).unwrap_or(&0));
        ensure!(!count.contains_key(&(e.1, e.0)), "boundary", "polygon edge {:?} is used in reverse", e);
    }
    for (e, k) in &count {
        let edge = (e.0 + 1) % n == e.1;
        if edge {
            continue;
        }
        ensure!(*k == 1 && count.get(&(e.1, e.0)) == Some(&1), "boundary", "diagonal {:?} has {} triangles on one side and {:?} on the other", e, k, count.get(&(e.1, e.0)));
        ensure!(!strict || diagonal(p, e.0, e.1), "diagonal", "{:?} is not an interior diagonal", e);
    }
    let a: i128 = tris.iter().map(|t| orient(p[t[0]], p[t[1]], p[t[2]])).sum();
    ensure_eq!(a, area2(p), "area", "twice the area");
    Ok(())
}
