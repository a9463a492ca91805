//! SVG and font import (P18).
use crate::cm::*;
use crate::model::*;
use crate::p16::curved_mesh;
use crate::poly::*;
use engine::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeSet;
use std::fmt::Write;

type Me<T> = HalfEdgeMeshImpl<T>;

/// An outline the mesh has to contain: a cycle of curves, or an ellipse (centre, half axes) whose curves are not prescribed.
#[derive(Clone, Debug)]
pub enum Want {
    Cycle(Vec<Bez>),
    Ellipse(Aff, D3, f64, f64),
}

/// A plane affine map (a, b, c, d, e, f) as in SVG.
#[derive(Clone, Copy, Debug)]
pub struct Aff(pub [f64; 6]);
impl Aff {
    pub const ID: Aff = Aff([1.0, 0.0, 0.0, 1.0, 0.0, 0.0]);
    pub fn at(&self, p: D3) -> D3 {
        let m = self.0;
        [m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5], 0.0]
    }
    /// self after o
    pub fn after(&self, o: Aff) -> Aff {
        let (m, n) = (self.0, o.0);
        Aff([
            m[0] * n[0] + m[2] * n[1],
            m[1] * n[0] + m[3] * n[1],
            m[0] * n[2] + m[2] * n[3],
            m[1] * n[2] + m[3] * n[3],
            m[0] * n[4] + m[2] * n[5] + m[4],
            m[1] * n[4] + m[3] * n[5] + m[5],
        ])
    }
    fn inv(&self) -> Aff {
        let m = self.0;
        let d = m[0] * m[3] - m[1] * m[2];
        let (a, b, c, e) = (m[3] / d, -m[1] / d, -m[2] / d, m[0] / d);
        Aff([a, b, c, e, -(a * m[4] + c * m[5]), -(b * m[4] + e * m[5])])
    }
}

/// The outlines around the new faces: for each face the cycle of curves in the drawing direction.
fn outlines<T: CM<D>, const D: usize>(m: &Me<T>, a: &Snap<T>, before: &Snap<T>, reversed: bool) -> Result<Vec<(usize, Vec<Bez>)>, Fail>
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let mut r = vec![];
    for f in a.f.keys().filter(|f| !before.f.contains_key(f)) {
        let ws: Vec<_> = a.walks().into_iter().filter(|w| a.face(w[0]) == Some(*f)).collect();
        ensure_eq!(ws.len(), 1, "boundary", "number of boundaries of the new face {}", f);
        let mut w = ws[0].clone();
        if reversed {
            w = w.iter().rev().map(|e| a.twin(*e)).collect();
        }
        let mut l = vec![];
        for e in w {
            let t = a.twin(e);
            ensure!(reversed && a.face(e).is_none() || !reversed && a.face(t).is_none(), "boundary", "the outline of face {} is not surrounded by a hole", f);
            let (x, y) = (bez::<T, D>(m, T::E::new(e)), bez::<T, D>(m, T::E::new(t)));
            let k = if x.0.len() == 2 {
                y.rev()
            } else {
                ensure!(y.0.len() == 2, "curve", "both halves of an imported edge are curved");
                x
            };
            l.push(k);
        }
        r.push((*f, l));
    }
    Ok(r)
}

fn near(a: &Bez, b: &Bez, tol: f64) -> bool {
    a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(p, q)| (0..3).all(|i| (p[i] - q[i]).abs() <= tol))
}

/// Compares the imported part of a mesh with what was described.
pub fn judge<T: CM<D>, const D: usize>(m: &Me<T>, before: &Snap<T>, want: &[Want], reversed: bool, tol: impl Fn(f64) -> f64) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let a = snap(m);
    if let Err(e) = a.audit() {
        return fail("audit", e);
    }
    for (i, v) in &before.v {
        ensure!(a.v.get(i).map(|x| &x.vp) == Some(&v.vp), "touched", "vertex {} changed to {:?}", i, a.v.get(i));
    }
    for (i, h) in &before.e {
        let ok = a.e.get(i).is_some_and(|g| (g.org, g.twin, g.next, g.prev, g.face) == (h.org, h.twin, h.next, h.prev, h.face) && g.ep == h.ep);
        ensure!(ok, "touched", "edge {} changed from {:?} to {:?}", i, h, a.e.get(i));
    }
    for (i, f) in &before.f {
        ensure!(a.f.get(i).map(|x| (&x.fp, x.curved)) == Some((&f.fp, f.curved)), "touched", "face {} changed", i);
    }
    let got = outlines::<T, D>(m, &a, before, reversed)?;
    ensure_eq!(got.len(), want.len(), "faces", "number of imported faces; got {:?}", got);
    let mut used = BTreeSet::new();
    let mut corners = 0;
    for (i, w) in want.iter().enumerate() {
        let hit = got.iter().find(|(f, l)| {
            !used.contains(f)
                && match w {
                    Want::Cycle(k) => {
                        let s = k.iter().map(|b| b.size()).fold(0.0, f64::max);
                        k.len() == l.len() && (0..l.len()).any(|r| (0..l.len()).all(|j| near(&l[(j + r) % l.len()], &k[j], tol(s))))
                    }
                    Want::Ellipse(t, c, rx, ry) => {
                        let back = t.inv();
                        let mut angle = 0.0;
                        let mut last: Option<f64> = None;
                        let on = l.iter().all(|k| {
                            (0..=16).all(|j| {
                                let p = sub(back.at(k.at(j as f64 / 16.0)), *c);
                                let (x, y) = (p[0] / rx, p[1] / ry);
                                let phi = y.atan2(x);
                                if let Some(o) = last {
                                    let mut d = phi - o;
                                    while d > std::f64::consts::PI {
                                        d -= std::f64::consts::TAU;
                                    }
                                    while d < -std::f64::consts::PI {
                                        d += std::f64::consts::TAU;
                                    }
                                    angle += d;
                                }
                                last = Some(phi);
                                (x * x + y * y - 1.0).abs() < 2e-3
                            })
                        });
                        on && (angle.abs() - std::f64::consts::TAU).abs() < 1e-2
                    }
                }
        });
        match hit {
            Some((f, l)) => {
                corners += l.len();
                used.insert(*f);
            }
            None => return fail("outline", format!("no imported face has the outline {} {:?}; the faces are {:?}", i, w, got.iter().filter(|(f, _)| !used.contains(f)).collect::<Vec<_>>())),
        }
    }
    ensure_eq!(a.v.len() - before.v.len(), corners, "vertices", "number of new vertices");
    ensure_eq!(a.e.len() - before.e.len(), 2 * corners, "edges", "number of new half-edges");
    Ok(())
}

// ---------------------------------------------------------------- SVG

fn num(src: &mut Src, x: f64) -> String {
    let mut s = format!("{}", x);
    if src.chance(1, 6) {
        if let Some(r) = s.strip_prefix("0.") {
            s = format!(".{}", r);
        } else if let Some(r) = s.strip_prefix("-0.") {
            s = format!("-.{}", r);
        }
    } else if src.chance(1, 8) {
        s = format!("{:e}", x);
    }
    s
}
fn sep(src: &mut Src) -> &'static str {
    *src.pick(&[" ", ",", ", ", "  ", "\n"])
}
struct Path {
    d: String,
    last: char,
}
impl Path {
    fn cmd(&mut self, src: &mut Src, ch: char, args: &[f64]) {
        // a command may be omitted if it repeats the previous one (lines after a move)
        let implied = self.last == ch && ch.to_ascii_lowercase() != 'm' || self.last == 'M' && ch == 'L' || self.last == 'm' && ch == 'l';
        if !implied || src.bool() {
            self.d.push(ch);
            if src.bool() {
                self.d.push(' ');
            }
        } else {
            self.d.push_str(sep(src));
        }
        for (i, x) in args.iter().enumerate() {
            let n = num(src, *x);
            if i > 0 && !(n.starts_with('-') && src.bool()) {
                self.d.push_str(sep(src));
            }
            self.d.push_str(&n);
        }
        self.last = ch;
    }
}

/// A random path as text, with the cycles of its sub-paths.
fn path(src: &mut Src, c: &mut Ctx, s: i64) -> Option<(String, Vec<Vec<Bez>>)> {
    let mut p = Path { d: String::new(), last: ' ' };
    let mut r = vec![];
    let subs = if src.chance(1, 3) { src.few(2, 4, 20) } else { 1 };
    let mut cur = [0.0; 3];
    let mut begin;
    let pt = |src: &mut Src| [src.int(-4 * s, 4 * s) as f64 / 4.0, src.int(-4 * s, 4 * s) as f64 / 4.0, 0.0];
    let mut after_close = false;
    for i in 0..subs {
        if after_close && src.chance(1, 4) {
            c.label("continues after closing");
            begin = cur;
        } else {
            let q = pt(src);
            if src.bool() {
                p.cmd(src, 'm', &[q[0] - cur[0], q[1] - cur[1]]);
            } else {
                p.cmd(src, 'M', &[q[0], q[1]]);
            }
            cur = q;
            begin = q;
        }
        let n = src.few(2, 8, 80);
        let mut cyc: Vec<Bez> = vec![];
        let home = src.chance(1, 3);
        for j in 0..n + home as usize {
            let last_home = home && j == n;
            let mut q = if last_home { begin } else { pt(src) };
            // the corners next to the start differ from it, and outlines do not touch their start
            if !last_home && (q == begin || j == n - 1 && q == cur) {
                q[0] += 0.25 + src.below(4) as f64;
                if q == begin {
                    q[1] += 1.0;
                }
            }
            let k = src.below(8);
            let rel = src.bool();
            let o = if rel { cur } else { [0.0; 3] };
            let up = |ch: char| if rel { ch } else { ch.to_ascii_uppercase() };
            match k {
                0 | 1 => p.cmd(src, up('l'), &[q[0] - o[0], q[1] - o[1]]),
                2 if !last_home && (q[0], cur[1]) != (begin[0], begin[1]) => {
                    q[1] = cur[1];
                    p.cmd(src, up('h'), &[q[0] - o[0]])
                }
                3 if !last_home && (cur[0], q[1]) != (begin[0], begin[1]) => {
                    q[0] = cur[0];
                    p.cmd(src, up('v'), &[q[1] - o[1]])
                }
                4 | 5 => {
                    let smooth = src.chance(1, 3);
                    let c1 = if smooth {
                        match cyc.last() {
                            Some(b) if b.0.len() == 4 && "cCsS".contains(p.last) => sub(mul(cur, 2.0), b.0[2]),
                            _ => cur,
                        }
                    } else {
                        pt(src)
                    };
                    let c2 = pt(src);
                    if smooth {
                        c.label("smooth cubic");
                        p.cmd(src, up('s'), &[c2[0] - o[0], c2[1] - o[1], q[0] - o[0], q[1] - o[1]]);
                    } else {
                        p.cmd(src, up('c'), &[c1[0] - o[0], c1[1] - o[1], c2[0] - o[0], c2[1] - o[1], q[0] - o[0], q[1] - o[1]]);
                    }
                    cyc.push(Bez(vec![cur, c1, c2, q]));
                    cur = q;
                    continue;
                }
                6 | 7 => {
                    let smooth = src.chance(1, 3);
                    let c1 = if smooth {
                        match cyc.last() {
                            Some(b) if b.0.len() == 3 && "qQtT".contains(p.last) => sub(mul(cur, 2.0), b.0[1]),
                            _ => cur,
                        }
                    } else {
                        pt(src)
                    };
                    if smooth {
                        c.label("smooth quadratic");
                        p.cmd(src, up('t'), &[q[0] - o[0], q[1] - o[1]]);
                    } else {
                        p.cmd(src, up('q'), &[c1[0] - o[0], c1[1] - o[1], q[0] - o[0], q[1] - o[1]]);
                    }
                    cyc.push(Bez(vec![cur, c1, q]));
                    cur = q;
                    continue;
                }
                _ => p.cmd(src, up('l'), &[q[0] - o[0], q[1] - o[1]]),
            }
            cyc.push(Bez(vec![cur, q]));
            cur = q;
        }
        if cyc.iter().take(cyc.len() - 1).any(|b| *b.0.last().unwrap() == begin) {
            return None;
        }
        if home {
            c.label("returns to its start");
        } else {
            cyc.push(Bez(vec![cur, begin]));
        }
        // zero-length segments make an outline touch itself
        let corners: Vec<D3> = cyc.iter().map(|b| b.0[0]).collect();
        if i + 1 < subs || src.chance(2, 3) {
            after_close = src.chance(3, 4);
        } else {
            after_close = false;
        }
        if after_close {
            let z = if src.bool() { 'z' } else { 'Z' };
            p.cmd(src, z, &[]);
            cur = begin;
        } else if !home {
            c.label("not closed");
        }
        let (mut lo, mut hi) = (corners[0], corners[0]);
        for q in &corners {
            for d in 0..2 {
                lo[d] = q[d].min(lo[d]);
                hi[d] = q[d].max(hi[d]);
            }
        }
        if lo[0] == hi[0] || lo[1] == hi[1] {
            return None;
        }
        r.push(cyc);
    }
    Some((p.d, r))
}

/// A random transformation attribute.
fn transform(src: &mut Src) -> (String, Aff) {
    let mut t = Aff::ID;
    let mut s = String::new();
    for _ in 0..src.usize(1, 3) {
        let q = |src: &mut Src| src.int(-12, 12) as f64 / 4.0;
        let one = match src.below(5) {
            0 => {
                let (x, y) = (q(src), q(src));
                write!(s, "translate({} {}) ", x, y).unwrap();
                Aff([1.0, 0.0, 0.0, 1.0, x, y])
            }
            1 => {
                let x = src.int(1, 12) as f64 / 4.0 * if src.bool() { 1.0 } else { -1.0 };
                let y = src.int(1, 12) as f64 / 4.0;
                write!(s, "scale({},{})", x, y).unwrap();
                Aff([x, 0.0, 0.0, y, 0.0, 0.0])
            }
            2 => {
                let a = src.int(-180, 180) as f64;
                write!(s, "rotate({})", a).unwrap();
                let (n, k) = a.to_radians().sin_cos();
                Aff([k, n, -n, k, 0.0, 0.0])
            }
            3 => {
                let (a, x, y) = (src.int(-180, 180) as f64, q(src), q(src));
                write!(s, "rotate({} {} {})", a, x, y).unwrap();
                let (n, k) = a.to_radians().sin_cos();
                Aff([1.0, 0.0, 0.0, 1.0, x, y]).after(Aff([k, n, -n, k, 0.0, 0.0])).after(Aff([1.0, 0.0, 0.0, 1.0, -x, -y]))
            }
            _ => {
                let m = [q(src), q(src), q(src), q(src), q(src), q(src)];
                let m = if (m[0] * m[3] - m[1] * m[2]).abs() < 0.2 { [1.0, 0.5, 0.0, 1.0, m[4], m[5]] } else { m };
                write!(s, "matrix({} {} {} {} {} {})", m[0], m[1], m[2], m[3], m[4], m[5]).unwrap();
                Aff(m)
            }
        };
        t = t.after(one);
    }
    (s, t)
}

struct Doc {
    s: String,
    want: Vec<Want>,
    rich: bool,
    moved: bool,
}

fn element(src: &mut Src, c: &mut Ctx, d: &mut Doc, t: Aff, depth: usize, s: i64) -> Option<()> {
    let (attr, t) = if src.chance(1, 5) {
        let (a, u) = transform(src);
        d.moved = true;
        c.label("transform");
        (format!(" transform='{}'", a), t.after(u))
    } else {
        (String::new(), t)
    };
    let app = |k: &Vec<Bez>| Want::Cycle(k.iter().map(|b| Bez(b.0.iter().map(|p| t.at(*p)).collect())).collect());
    let poly = |l: &[D3]| app(&(0..l.len()).map(|i| Bez(vec![l[i], l[(i + 1) % l.len()]])).collect());
    let mut hidden = false;
    let paint;
    let style = match src.below(12) {
        0 => " fill='none' stroke='red'",
        4 | 5 => {
            // paint does not change the outline
            let mut l = String::new();
            if src.bool() {
                write!(l, " stroke='{}' stroke-width='{}'", src.pick(&["black", "#0f0", "rgb(1,2,3)"]), src.pick(&["0.001", "0.5", "1", "7", "65", "400", "5000"])).unwrap();
                l += src.pick(&["", " stroke-linejoin='round'", " stroke-dasharray='3 1'", " stroke-linecap='square' stroke-opacity='0.25'"]);
            }
            if src.bool() {
                l += src.pick(&[" fill='white'", " fill='blue' fill-rule='evenodd'", " fill='black' fill-opacity='0.5'", " style='fill:rgb(10,20,30)'"]);
            }
            l += src.pick(&["", "", " shape-rendering='crispEdges'", " paint-order='stroke'", " id='a'"]);
            paint = l;
            c.label("paint");
            paint.as_str()
        }
        1 => " fill='#DFEDFF'",
        2 => {
            hidden = true;
            c.label("hidden");
            " visibility='hidden'"
        }
        3 => {
            hidden = true;
            " display='none'"
        }
        _ => "",
    };
    let q = |src: &mut Src, lo: i64| src.int(lo * 4, 4 * s) as f64 / 4.0;
    match src.below(12) {
        0 if depth < 3 => {
            // a group; display and transform apply to its content
            let style = if style.contains("visibility") || style.contains("stroke") { "" } else { style };
            let plain = src.chance(1, 3);
            let look = if plain { "" } else { *src.pick(&["", " opacity='0.9'", " opacity='0.2'", " opacity='0.01'", " class='grp'"]) };
            let tag = if src.chance(1, 4) && !style.contains("display") { "a" } else { "g" };
            if !look.is_empty() {
                c.label("group with effects");
            }
            write!(d.s, "<{}{}{}{}>", tag, attr, style, look).unwrap();
            let n = d.want.len();
            for _ in 0..src.usize(1, 3) {
                element(src, c, d, t, depth + 1, s)?;
            }
            if style.contains("display") {
                d.want.truncate(n);
            }
            write!(d.s, "</{}>", tag).unwrap();
            return Some(());
        }
        1 => {
            let (x, y, w, h) = (q(src, -s), q(src, -s), q(src, 0) + 1.0, q(src, 0) + 1.0);
            write!(d.s, "<rect x='{}' y='{}' width='{}' height='{}'{}{}/>", x, y, w, h, attr, style).unwrap();
            if !hidden {
                d.want.push(poly(&[[x, y, 0.0], [x + w, y, 0.0], [x + w, y + h, 0.0], [x, y + h, 0.0]]));
            }
        }
        2 => {
            let (x, y, rx) = (q(src, -s), q(src, -s), q(src, 0) + 1.0);
            let ry = if src.bool() {
                write!(d.s, "<circle cx='{}' cy='{}' r='{}'{}{}/>", x, y, rx, attr, style).unwrap();
                rx
            } else {
                let ry = q(src, 0) + 1.0;
                write!(d.s, "<ellipse cx='{}' cy='{}' rx='{}' ry='{}'{}{}/>", x, y, rx, ry, attr, style).unwrap();
                ry
            };
            c.label("ellipse");
            if !hidden {
                d.want.push(Want::Ellipse(t, [x, y, 0.0], rx, ry));
            }
        }
        3 | 4 => {
            let name = if src.bool() { "polygon" } else { "polyline" };
            let mut l: Vec<D3> = vec![];
            for _ in 0..src.usize(3, 8) {
                let p = [q(src, -s), q(src, -s), 0.0];
                if l.first() != Some(&p) {
                    l.push(p);
                }
            }
            if l.len() < 3 || l.iter().all(|p| p[0] == l[0][0]) || l.iter().all(|p| p[1] == l[0][1]) {
                return None;
            }
            let txt: Vec<String> = l.iter().map(|p| format!("{},{}", p[0], p[1])).collect();
            write!(d.s, "<{} points='{}'{}{}/>", name, txt.join(" "), attr, style).unwrap();
            if !hidden {
                d.want.push(poly(&l));
            }
        }
        _ => {
            let (txt, cycles) = path(src, c, s)?;
            write!(d.s, "<path d='{}'{}{}/>", txt, attr, style).unwrap();
            if !hidden {
                if cycles.len() > 1 {
                    c.label("several sub-paths");
                }
                d.rich |= cycles.iter().any(|k| k.len() > 3 && k.iter().any(|b| b.0.len() > 2));
                d.want.extend(cycles.iter().map(app));
            }
        }
    }
    Some(())
}

fn svg<T: CM<2>>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<2, T>,
    Me<T>: procedural_modelling::extensions::svg::BackendSVG<T>,
{
    use procedural_modelling::extensions::svg::BackendSVG;
    let mut d = Doc { s: String::new(), want: vec![], rich: false, moved: false };
    let s = *src.pick(&[4, 10, 100, 1000]);
    let n = if src.bool() { 1 } else { src.few(1, 4, 24) };
    for _ in 0..n {
        if element(src, c, &mut d, Aff::ID, 0, s).is_none() {
            return c.discard();
        }
    }
    if n > 1 || src.chance(1, 2) || d.s.starts_with("<g") && d.s.contains("display") {
        let head = if src.bool() { " width='320' height='320'" } else { "" };
        d.s = format!("<svg xmlns='http://www.w3.org/2000/svg'{}>{}</svg>", head, d.s);
    } else {
        c.label("a bare element");
    }
    let mut m = if src.chance(1, 4) { curved_mesh::<T, 2>(src, c, 1.0)? } else { Me::<T>::new() };
    let before = snap(&m);
    c.log(|| format!("{} into a mesh of {} vertices", d.s, before.v.len()));
    if before.v.is_empty() && src.bool() {
        m = <Me<T> as BackendSVG<T>>::from_svg(&d.s);
    } else {
        BackendSVG::<T>::import_svg(&mut m, &d.s);
    }
    if d.rich {
        c.nontrivial();
    }
    // the importer works in single precision
    let moved = d.moved;
    judge::<T, 2>(&m, &before, &d.want, true, |x| if moved { 2e-5 * (x + s as f64 * 4.0) } else { 0.0 })
}

// ---------------------------------------------------------------- fonts

struct Glyph {
    contours: Vec<Vec<(i16, i16, bool)>>,
    /// for fonts with cubic outlines: the start and the further points of each segment
    cubic: Vec<Vec<Vec<(i16, i16)>>>,
    advance: u16,
}
struct FontSpec {
    cff: bool,
    upem: u16,
    asc: i16,
    desc: i16,
    glyphs: Vec<Glyph>,
    kern: Vec<(u16, u16, i16)>,
    /// characters of glyphs 1, 2, ...
    chars: Vec<char>,
}
fn be16(v: &mut Vec<u8>, x: i32) {
    v.extend_from_slice(&(x as u16).to_be_bytes());
}
fn be32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_be_bytes());
}
impl FontSpec {
    /// The bytes of a TrueType font.
    fn bytes(&self, src: &mut Src) -> Vec<u8> {
        let mut glyf = vec![];
        let mut loca = vec![];
        for g in &self.glyphs {
            be32(&mut loca, glyf.len() as u32);
            if g.contours.is_empty() {
                continue;
            }
            let all: Vec<_> = g.contours.iter().flatten().copied().collect();
            be16(&mut glyf, g.contours.len() as i32);
            be16(&mut glyf, all.iter().map(|p| p.0).min().unwrap() as i32);
            be16(&mut glyf, all.iter().map(|p| p.1).min().unwrap() as i32);
            be16(&mut glyf, all.iter().map(|p| p.0).max().unwrap() as i32);
            be16(&mut glyf, all.iter().map(|p| p.1).max().unwrap() as i32);
            let mut k = -1;
            for q in &g.contours {
                k += q.len() as i32;
                be16(&mut glyf, k);
            }
            be16(&mut glyf, 0);
            for p in &all {
                glyf.push(p.2 as u8);
            }
            let mut l = 0i16;
            for p in &all {
                be16(&mut glyf, (p.0 - l) as i32);
                l = p.0;
            }
            l = 0;
            for p in &all {
                be16(&mut glyf, (p.1 - l) as i32);
                l = p.1;
            }
            while glyf.len() % 4 != 0 {
                glyf.push(0);
            }
        }
        be32(&mut loca, glyf.len() as u32);
        let n = self.glyphs.len() as i32;
        let mut head = vec![0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0x5f, 0x0f, 0x3c, 0xf5, 0, 0];
        be16(&mut head, self.upem as i32);
        head.extend([0; 16]);
        for x in [-2000, -2000, 2000, 2000, 0, 8, 2, 1, 0] {
            be16(&mut head, x);
        }
        let mut hhea = vec![0, 1, 0, 0];
        for x in [self.asc as i32, self.desc as i32, src.int(0, 100) as i32] {
            be16(&mut hhea, x);
        }
        hhea.extend([0; 24]);
        // the trailing glyphs may share the last advance
        let mut long = n;
        while long > 1 && self.glyphs[long as usize - 1].advance == self.glyphs[long as usize - 2].advance {
            long -= 1;
        }
        be16(&mut hhea, long);
        let mut hmtx = vec![];
        for (i, g) in self.glyphs.iter().enumerate() {
            if (i as i32) < long {
                be16(&mut hmtx, g.advance as i32);
            }
            let lsb = g.contours.iter().flatten().map(|p| p.0).chain(g.cubic.iter().flatten().flatten().map(|p| p.0)).min().unwrap_or(0);
            be16(&mut hmtx, lsb as i32);
        }
        let mut maxp = vec![0, 1, 0, 0];
        be16(&mut maxp, n);
        maxp.extend([0; 26]);
        // one segment per character (format 4)
        let mut cs: Vec<(u16, u16)> = self.chars.iter().enumerate().map(|(i, c)| (*c as u16, i as u16 + 1)).collect();
        cs.sort();
        let segs = cs.len() as i32 + 1;
        let mut sub = vec![];
        be16(&mut sub, 4);
        be16(&mut sub, 16 + 8 * segs);
        be16(&mut sub, 0);
        be16(&mut sub, 2 * segs);
        for x in [0, 0, 0] {
            be16(&mut sub, x);
        }
        for (c, _) in &cs {
            be16(&mut sub, *c as i32);
        }
        be16(&mut sub, 0xffff);
        be16(&mut sub, 0);
        for (c, _) in &cs {
            be16(&mut sub, *c as i32);
        }
        be16(&mut sub, 0xffff);
        for (c, g) in &cs {
            be16(&mut sub, g.wrapping_sub(*c) as i32);
        }
        be16(&mut sub, 1);
        for _ in 0..segs {
            be16(&mut sub, 0);
        }
        let mut cmap = vec![0, 0, 0, 1, 0, 3, 0, 1, 0, 0, 0, 12];
        cmap.extend(sub);
        let mut kern = vec![];
        let mut ks = self.kern.clone();
        ks.sort();
        be16(&mut kern, 0);
        be16(&mut kern, 1);
        be16(&mut kern, 0);
        be16(&mut kern, 14 + 6 * ks.len() as i32);
        be16(&mut kern, 1);
        be16(&mut kern, ks.len() as i32);
        for x in [0, 0, 0] {
            be16(&mut kern, x);
        }
        for (a, b, k) in &ks {
            be16(&mut kern, *a as i32);
            be16(&mut kern, *b as i32);
            be16(&mut kern, *k as i32);
        }
        let mut tables: Vec<(&[u8; 4], Vec<u8>)> = vec![(b"cmap", cmap), (b"head", head), (b"hhea", hhea), (b"hmtx", hmtx), (b"maxp", maxp)];
        if self.cff {
            tables.push((b"CFF ", self.cff_table()));
        } else {
            tables.push((b"glyf", glyf));
            tables.push((b"loca", loca));
        }
        if !ks.is_empty() {
            tables.push((b"kern", kern));
        }
        tables.sort();
        let mut out = if self.cff { b"OTTO".to_vec() } else { vec![0, 1, 0, 0] };
        be16(&mut out, tables.len() as i32);
        for _ in 0..3 {
            be16(&mut out, 0);
        }
        let mut off = 12 + 16 * tables.len() as u32;
        for (t, b) in &tables {
            out.extend_from_slice(*t);
            be32(&mut out, 0);
            be32(&mut out, off);
            be32(&mut out, b.len() as u32);
            off += (b.len() as u32 + 3) / 4 * 4;
        }
        for (_, b) in &tables {
            out.extend_from_slice(b);
            while out.len() % 4 != 0 {
                out.push(0);
            }
        }
        out
    }
    fn cff_table(&self) -> Vec<u8> {
        fn index(items: &[Vec<u8>]) -> Vec<u8> {
            let mut r = vec![];
            be16(&mut r, items.len() as i32);
            if !items.is_empty() {
                r.push(4);
                let mut o = 1;
                be32(&mut r, o);
                for x in items {
                    o += x.len() as u32;
                    be32(&mut r, o);
                }
                for x in items {
                    r.extend_from_slice(x);
                }
            }
            r
        }
        let mut chars = vec![];
        for g in &self.glyphs {
            let mut b = vec![];
            let mut cur = (0i16, 0i16);
            for q in &g.cubic {
                for (i, seg) in q.iter().enumerate() {
                    for p in seg {
                        for d in [p.0 - cur.0, p.1 - cur.1] {
                            b.push(28);
                            be16(&mut b, d as i32);
                        }
                        cur = *p;
                    }
                    b.push(if i == 0 { 21 } else if seg.len() == 1 { 5 } else { 8 });
                }
            }
            b.push(14);
            chars.push(b);
        }
        let name = index(&[b"T".to_vec()]);
        // the dictionary has a fixed length, so the offset behind it is known
        let mut top = vec![29, 0, 0, 0, 0, 17];
        let fixed = 4 + name.len() + index(&[top.clone()]).len() + 2 + 2;
        top[1..5].copy_from_slice(&(fixed as u32).to_be_bytes());
        let mut r = vec![1, 0, 4, 4];
        r.extend(name);
        r.extend(index(&[top]));
        r.extend(index(&[]));
        r.extend(index(&[]));
        r.extend(index(&chars));
        r
    }
    fn cycle_cubic(q: &[Vec<(i16, i16)>]) -> Vec<Bez> {
        let d = |p: &(i16, i16)| [p.0 as f64, p.1 as f64, 0.0];
        let start = d(&q[0][0]);
        let mut cur = start;
        let mut r = vec![];
        for s in &q[1..] {
            let mut b = vec![cur];
            b.extend(s.iter().map(d));
            cur = *b.last().unwrap();
            if b.len() > 2 || b[0] != b[1] {
                r.push(Bez(b));
            }
        }
        if cur != start {
            r.push(Bez(vec![cur, start]));
        }
        r
    }
    fn cycles(&self, g: usize) -> Vec<Vec<Bez>> {
        if self.cff {
            self.glyphs[g].cubic.iter().map(|q| Self::cycle_cubic(q)).collect()
        } else {
            self.glyphs[g].contours.iter().map(|q| Self::cycle(q)).collect()
        }
    }
    /// The outline of a contour by the rules of TrueType: consecutive off-curve points imply a corner half way.
    fn cycle(q: &[(i16, i16, bool)]) -> Vec<Bez> {
        let mut full: Vec<(D3, bool)> = vec![];
        for i in 0..q.len() {
            let (a, b) = (q[i], q[(i + 1) % q.len()]);
            let (pa, pb) = ([a.0 as f64, a.1 as f64, 0.0], [b.0 as f64, b.1 as f64, 0.0]);
            full.push((pa, a.2));
            if !a.2 && !b.2 {
                full.push((mul(add(pa, pb), 0.5), true));
            }
        }
        let Some(s) = full.iter().position(|p| p.1) else { return vec![] };
        full.rotate_left(s);
        let mut r = vec![];
        let mut i = 0;
        while i < full.len() {
            let b = full[(i + 1) % full.len()];
            if b.1 {
                if full[i].0 != b.0 {
                    r.push(Bez(vec![full[i].0, b.0]));
                }
                i += 1;
            } else {
                r.push(Bez(vec![full[i].0, b.0, full[(i + 2) % full.len()].0]));
                i += 2;
            }
        }
        r
    }
}

fn font_spec(src: &mut Src, c: &mut Ctx) -> FontSpec {
    let upem = *src.pick(&[1000u16, 2048, 256, 16]);
    let u = upem as i64;
    let n = src.usize(1, 5);
    let mut glyphs = vec![];
    let cff = src.chance(1, 3);
    for i in 0..=n {
        let mut g = Glyph { contours: vec![], cubic: vec![], advance: src.int(0, u * 3 / 2) as u16 };
        if i > 0 && src.chance(1, 4) {
            g.advance = glyphs.last().map(|x: &Glyph| x.advance).unwrap();
        }
        let k = if i == 0 { src.usize(0, 1) } else { src.few(0, 3, 12) };
        for _ in 0..k {
            if cff {
                let pt = |src: &mut Src| (src.int(-u, u) as i16, src.int(-u, u) as i16);
                let mut q = vec![vec![pt(src)]];
                for _ in 0..src.few(2, 7, 60) {
                    q.push(if src.bool() { vec![pt(src)] } else { vec![pt(src), pt(src), pt(src)] });
                }
                if src.bool() {
                    // closed explicitly
                    let e = if src.bool() { vec![q[0][0]] } else { vec![pt(src), pt(src), q[0][0]] };
                    q.push(e);
                }
                let cyc = FontSpec::cycle_cubic(&q);
                let mut pts: Vec<[i64; 2]> = cyc.iter().map(|b| [b.0[0][0] as i64, b.0[0][1] as i64]).collect();
                let l = pts.len();
                pts.sort();
                pts.dedup();
                let flat = |j: usize| pts.iter().all(|p| p[j] == pts[0][j]);
                if l >= 3 && pts.len() == l && !flat(0) && !flat(1) {
                    if cyc.iter().any(|b| b.0.len() > 2) {
                        c.label("cubic outline");
                    }
                    g.cubic.push(q);
                }
                continue;
            }
            let q: Vec<(i16, i16, bool)> = (0..src.few(3, 9, 70)).map(|_| (src.int(-u, u) as i16, src.int(-u, u) as i16, src.chance(2, 3))).collect();
            let cyc = FontSpec::cycle(&q);
            // outlines have three corners or more and do not touch themselves
            let mut pts: Vec<[i64; 2]> = cyc.iter().map(|b| [(b.0[0][0] * 2.0) as i64, (b.0[0][1] * 2.0) as i64]).collect();
            let l = pts.len();
            pts.sort();
            pts.dedup();
            let flat = |j: usize| q.iter().all(|p| if j == 0 { p.0 == q[0].0 } else { p.1 == q[0].1 });
            if l >= 3 && pts.len() == l && !flat(0) && !flat(1) {
                if !q[0].2 {
                    c.label("starts off the curve");
                }
                g.contours.push(q);
            }
        }
        glyphs.push(g);
    }
    let mut chars: Vec<char> = vec![];
    for i in 0..n {
        let ch = *src.pick(&['a', 'ä', ' ', 'x', '0', 'Ω', '文', '-']);
        chars.push(if chars.contains(&ch) { (b'A' + i as u8) as char } else { ch });
    }
    let mut kern: Vec<(u16, u16, i16)> = vec![];
    if src.bool() {
        for _ in 0..src.usize(1, 6) {
            let (a, b) = (src.usize(1, n) as u16, src.usize(1, n) as u16);
            if !kern.iter().any(|k| (k.0, k.1) == (a, b)) {
                kern.push((a, b, src.int(-u / 4, u / 4) as i16));
            }
        }
    }
    FontSpec { cff, upem, asc: src.int(u / 2, u * 5 / 4) as i16, desc: -src.int(0, u / 2) as i16, glyphs, kern, chars }
}

fn text<T: CM<D>, const D: usize>(src: &mut Src, c: &mut Ctx) -> Res
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    let f = font_spec(src, c);
    let data = f.bytes(src);
    let scale = src.scale(-3, 6) as f32;
    let mut font = if src.bool() {
        Font::new(&data, scale)
    } else {
        let mut x = Font::new(&data, 1.0);
        x.set_scale(scale);
        x
    };
    if src.chance(1, 4) {
        font.set_scale(scale * 2.0);
        font.set_scale(scale);
    }
    let k = scale as f64 / (f.asc as f64 - f.desc as f64);
    let glyph = |ch: char| f.chars.iter().position(|x| *x == ch).map_or(0, |i| i + 1);
    let mut pool = f.chars.clone();
    pool.push('?');
    for ch in &pool {
        let want = f.glyphs[glyph(*ch)].advance as f64 * k;
        let got = font.get_advance(*ch) as f64;
        ensure!((got - want).abs() <= 1e-5 * want.abs(), "advance", "the advance of {:?} at scale {} is {}, expected {} units of {} = {}", ch, scale, got, f.glyphs[glyph(*ch)].advance, k, want);
    }
    let mut m = if src.chance(1, 5) { curved_mesh::<T, D>(src, c, 1.0)? } else { Me::<T>::new() };
    for _ in 0..if src.chance(1, 6) { 2 } else { 1 } {
        let before = snap(&m);
        let t: String = (0..src.few(1, 6, 60)).map(|_| *src.pick(&pool)).collect();
        let (mut x, mut last) = (0.0, None);
        let mut want = vec![];
        let mut curved = false;
        for ch in t.chars() {
            let g = glyph(ch) as u16;
            if let Some(l) = last {
                let kn = f.kern.iter().find(|q| (q.0, q.1) == (l, g)).map_or(0, |q| q.2);
                if kn != 0 {
                    c.label("kerning");
                }
                x += kn as f64 * k;
            }
            for q in f.cycles(g as usize) {
                let cyc: Vec<Bez> = q.iter().map(|b| Bez(b.0.iter().map(|p| [p[0] * k + x, p[1] * k, 0.0]).collect())).collect();
                curved |= cyc.iter().any(|b| b.0.len() > 2);
                want.push(Want::Cycle(cyc));
            }
            x += f.glyphs[g as usize].advance as f64 * k;
            last = Some(g);
        }
        c.log(|| format!("text {:?} at scale {} with units per em {}, ascent {}, descent {}, characters {:?}, advances {:?}, kerning {:?}", t, scale, f.upem, f.asc, f.desc, f.chars, f.glyphs.iter().map(|g| g.advance).collect::<Vec<_>>(), f.kern));
        for (i, g) in f.glyphs.iter().enumerate() {
            c.log(|| format!("glyph {}: {:?} {:?}", i, g.contours, g.cubic));
        }
        if want.len() > 1 && curved && x != 0.0 && t.chars().count() > 1 {
            c.nontrivial();
        }
        font.layout_text::<D, T>(&t, &mut m);
        let span = x.abs() + 2.0 * f.upem as f64 * k;
        judge::<T, D>(&m, &before, &want, FONT_REVERSED, |s| 1e-5 * (s + span))?;
    }
    Ok(())
}
const FONT_REVERSED: bool = false;

pub fn svg18<T: CM<2>>(n: &'static str, q: u64) -> Target
where
    HalfEdgeImpl<T>: CurvedEdge<2, T>,
{
    target(n, q, 20 * q, svg::<T>)
}
pub fn text18<T: CM<D>, const D: usize>(n: &'static str, q: u64) -> Target
where
    HalfEdgeImpl<T>: CurvedEdge<D, T>,
{
    target(n, q, 20 * q, text::<T, D>)
}
pub fn prop18_with(extra: Vec<Target>) -> Property {
    let mut targets = vec![svg18::<C2>("svg", 150000), svg18::<C2F>("svg_f32", 100000), text18::<C2, 2>("text", 120000), text18::<C3, 3>("text_3d", 60000), text18::<C2F, 2>("text_f32", 60000)];
    targets.extend(extra);
    Property {
        id: "P18",
        rule: "random SVG documents (paths of all commands, shapes, groups, transformations, hidden elements) interpreted independently, and texts in random TrueType and CFF fonts built from scratch; non-trivial: an outline with curves and more than three corners (SVG), several outlines with curves in a text of several characters (fonts)",
        assumptions: &["every outline has at least three corners and does not pass its start before its end", "no SVG texts, images, masks or patterns"],
        targets,
        known: vec![],
    }
}
