//! Unordered sets of edges, triangles and vertices put in order, one schedule
//! key per call: what comes out must not depend on the order of the hashing.
use crate::case::*;
use crate::gen;
use crate::genlib;
use crate::geom::*;
use crate::rng::*;
use crate::scen::*;
use crate::world::*;
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

type S = (P, P);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum EdOp {
    /// join edges in line
    Join(Vec<S>),
    /// the edges that make up one
    Decompose(Vec<S>, S),
    /// edges to a polygon
    Loop(Vec<S>),
    /// triangles to the polygon around them
    Hull(Vec<[P; 3]>),
    /// drop the vertices in line with their neighbours
    Minify(Vec<P>, bool),
    /// order by x, then by y
    Sort(Vec<P>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Edges {
    pub steps: Vec<(Key, EdOp)>,
}

fn pts(o: &EdOp) -> Vec<P> {
    match o {
        EdOp::Join(e) | EdOp::Loop(e) => e.iter().flat_map(|s| vec![s.0, s.1]).collect(),
        EdOp::Decompose(e, s) => e.iter().chain(std::iter::once(s)).flat_map(|s| vec![s.0, s.1]).collect(),
        EdOp::Hull(t) => t.iter().flat_map(|t| t.to_vec()).collect(),
        EdOp::Minify(p, _) | EdOp::Sort(p) => p.clone(),
    }
}
fn map(o: &EdOp, g: &dyn Fn(P) -> P) -> EdOp {
    let es = |e: &Vec<S>| e.iter().map(|s| (g(s.0), g(s.1))).collect::<Vec<S>>();
    match o {
        EdOp::Join(e) => EdOp::Join(es(e)),
        EdOp::Loop(e) => EdOp::Loop(es(e)),
        EdOp::Decompose(e, s) => EdOp::Decompose(es(e), (g(s.0), g(s.1))),
        EdOp::Hull(t) => EdOp::Hull(t.iter().map(|t| [g(t[0]), g(t[1]), g(t[2])]).collect()),
        EdOp::Minify(p, o) => EdOp::Minify(p.iter().map(|p| g(*p)).collect(), *o),
        EdOp::Sort(p) => EdOp::Sort(p.iter().map(|p| g(*p)).collect()),
    }
}

// ---- model ----

struct Geo {
    l: f64,
}
impl Geo {
    fn line(&self, s: S, p: P) -> bool {
        (cross(s.0, s.1, p) / dist(s.0, s.1)).abs() <= 1e-10 * self.l
    }
    fn ahead(&self, s: S, t: S) -> bool {
        (s.1 .0 - s.0 .0) * (t.1 .0 - t.0 .0) + (s.1 .1 - s.0 .1) * (t.1 .1 - t.0 .1) > 0.0
    }
    /// same line, same direction
    fn along(&self, s: S, t: S) -> bool {
        self.line(s, t.0) && self.line(s, t.1) && self.line(t, s.0) && self.line(t, s.1) && self.ahead(s, t)
    }
    fn pos(&self, s: S, p: P) -> f64 {
        let d = dist(s.0, s.1);
        ((s.1 .0 - s.0 .0) * (p.0 - s.0 .0) + (s.1 .1 - s.0 .1) * (p.1 - s.0 .1)) / d
    }
    fn overlap(&self, s: S, t: S) -> bool {
        self.along(s, t) && self.pos(s, t.1) > 1e-9 * self.l && self.pos(s, t.0) < dist(s.0, s.1) - 1e-9 * self.l
    }
    /// no two edges of one direction overlap
    fn plain(&self, e: &[S]) -> bool {
        e.iter().all(|s| s.0 != s.1) && (0..e.len()).all(|i| (0..i).all(|j| e[i] != e[j] && !self.overlap(e[i], e[j])))
    }
}

fn joined(g: &Geo, e: &[S]) -> Vec<S> {
    let mut left: Vec<S> = e.to_vec();
    let mut out = vec![];
    while let Some(mut s) = left.pop() {
        loop {
            if let Some(k) = left.iter().position(|t| t.0 == s.1 && g.along(s, *t)) {
                s.1 = left.remove(k).1;
            } else if let Some(k) = left.iter().position(|t| t.1 == s.0 && g.along(s, *t)) {
                s.0 = left.remove(k).0;
            } else {
                break;
            }
        }
        out.push(s);
    }
    sort_s(out)
}
/// do pieces of the set lead from one end of the edge to the other?
fn decomposes(g: &Geo, e: &[S], s: S) -> bool {
    let on: Vec<S> = e.iter().cloned().filter(|t| piece(g, *t, s)).collect();
    let mut seen = vec![s.0];
    let mut k = 0;
    while k < seen.len() {
        for t in &on {
            if t.0 == seen[k] && !seen.contains(&t.1) {
                seen.push(t.1);
            }
        }
        k += 1;
    }
    seen.contains(&s.1)
}
fn piece(g: &Geo, t: S, s: S) -> bool {
    g.along(s, t) && g.pos(s, t.0) > -1e-9 * g.l && g.pos(s, t.1) < dist(s.0, s.1) + 1e-9 * g.l
}
/// the one cycle all edges make up, each vertex passed once
fn cycle(e: &[S]) -> Option<Vec<P>> {
    let key = |p: P| (p.0.to_bits(), p.1.to_bits());
    let mut next: BTreeMap<(u64, u64), P> = BTreeMap::new();
    for s in e {
        if next.insert(key(s.0), s.1).is_some() {
            return None;
        }
    }
    let first = e.first()?.0;
    let mut out = vec![first];
    let mut at = first;
    while out.len() <= e.len() {
        at = *next.get(&key(at))?;
        if at == first {
            break;
        }
        out.push(at);
    }
    if at == first && out.len() == e.len() && out.len() >= 3 {
        Some(out)
    } else {
        None
    }
}
fn rim(t: &[[P; 3]]) -> Vec<S> {
    let all: Vec<S> = t.iter().flat_map(|t| vec![(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).collect();
    all.iter().cloned().filter(|s| !all.contains(&(s.1, s.0))).collect()
}

// ---- generation ----

fn lines(r: &mut Rng, n: i64) -> (Vec<S>, Vec<Vec<P>>) {
    let mut e: Vec<S> = vec![];
    let mut runs = vec![];
    let c = gen::lattice(r, n); // several through one point
    let through = r.chance(0.5);
    for _ in 0..r.range(1, 6) {
        let d = loop {
            let d = (r.range(-3, 3), r.range(-3, 3));
            if d != (0, 0) {
                break d;
            }
        };
        let o = if through { c } else { gen::lattice(r, n) };
        let mut at: i64 = -r.range(0, n);
        let mut run: Vec<P> = vec![];
        while (at as i64) < n && run.len() < 10 {
            run.push((o.0 + (at * d.0) as f64, o.1 + (at * d.1) as f64));
            at += r.range(1, 3.max(n / 3));
        }
        if through && !run.contains(&c) && r.chance(0.7) {
            run.push(c);
            run.sort_by(|a, b| {
                let f = |p: &P| (p.0 - o.0) * d.0 as f64 + (p.1 - o.1) * d.1 as f64;
                f(a).partial_cmp(&f(b)).unwrap()
            });
        }
        if r.chance(0.3) {
            run.reverse();
        }
        for w in run.windows(2) {
            if r.chance(0.85) {
                e.push((w[0], w[1]));
            }
        }
        if r.chance(0.3) {
            // the way back, in other steps
            let mut back = run.clone();
            back.reverse();
            back.retain(|_| r.chance(0.7));
            for w in back.windows(2) {
                if r.chance(0.8) {
                    e.push((w[0], w[1]));
                }
            }
        }
        runs.push(run);
    }
    let g = Geo { l: 100.0 };
    let mut out: Vec<S> = vec![];
    for s in e {
        if s.0 != s.1 && out.iter().all(|t| *t != s && !g.overlap(s, *t)) {
            out.push(s);
        }
    }
    (out, runs)
}

fn polygon(r: &mut Rng, n: i64) -> Vec<P> {
    let n = n.max(3);
    let p = match r.below(4) {
        0 => gen::rect(r, n),
        1 => gen::rectilinear(r, n),
        2 => {
            let k = r.range(3, 10) as usize;
            gen::convex(r, n, k)
        }
        _ => {
            let k = r.range(4, 10) as usize;
            gen::star(r, n, k)
        }
    };
    if r.chance(0.5) {
        let q = r.unit();
        gen::subdivide(r, &p, q)
    } else {
        p
    }
}

fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

fn loops(r: &mut Rng, n: i64) -> Vec<S> {
    let p = polygon(r, n);
    let mut e = poly_edges(&p);
    match r.below(10) {
        0..=2 => {}
        3 | 4 => {
            // opened
            for _ in 0..r.range(1, 2) {
                let k = r.below(e.len() as u64) as usize;
                e.remove(k);
            }
        }
        5 => {
            // another one elsewhere, or touching in a corner
            let q = polygon(r, n);
            let o = if r.chance(0.5) {
                let (a, b) = (*r.pick(&p), *r.pick(&q));
                (a.0 - b.0, a.1 - b.1)
            } else {
                (n as f64 * 3.0, 0.0)
            };
            let q: Vec<P> = q.iter().map(|x| (x.0 + o.0, x.1 + o.1)).collect();
            e.extend(poly_edges(&q));
        }
        6 => {
            // a tail leading in or out
            let a = *r.pick(&p);
            let b = (a.0 + 100.0, a.1 + 3.0);
            let c = (a.0 + 120.0, a.1 + 9.0);
            let t = if r.chance(0.5) { vec![(a, b), (b, c)] } else { vec![(c, b), (b, a)] };
            e.extend(t);
        }
        7 => {
            let k = r.below(e.len() as u64) as usize;
            e[k] = (e[k].1, e[k].0);
        }
        8 => {
            // there and back
            e.truncate(r.range(0, 2) as usize);
            let b: Vec<S> = e.iter().rev().map(|s| (s.1, s.0)).collect();
            e.extend(b);
        }
        _ => {
            // a chord
            let (a, b) = (*r.pick(&p), *r.pick(&p));
            if a != b && !e.contains(&(a, b)) {
                e.push((a, b));
            }
        }
    }
    shuffle(r, &mut e);
    let mut out: Vec<S> = vec![];
    e.into_iter().for_each(|s| {
        if !out.contains(&s) && s.0 != s.1 {
            out.push(s)
        }
    });
    out
}

fn triangles(r: &mut Rng, n: i64) -> Vec<[P; 3]> {
    // a patch of a triangulated grid
    let (w, h) = (r.range(1, n.min(7)), r.range(1, n.min(7)));
    let mut all: Vec<[P; 3]> = vec![];
    for x in 0..w {
        for y in 0..h {
            let q = |i: i64, j: i64| ((x + i) as f64, (y + j) as f64);
            if r.chance(0.5) {
                all.push([q(0, 0), q(1, 0), q(1, 1)]);
                all.push([q(0, 0), q(1, 1), q(0, 1)]);
            } else {
                all.push([q(0, 0), q(1, 0), q(0, 1)]);
                all.push([q(1, 0), q(1, 1), q(0, 1)]);
            }
        }
    }
    let mut t: Vec<[P; 3]> = vec![];
    match r.below(4) {
        0 => {
            let k = *r.pick(&[0.3, 0.6, 0.9, 1.0]);
            t = all.into_iter().filter(|_| r.chance(k)).collect();
        }
        _ => {
            // grown from one triangle, edge by edge
            let k = r.range(1, all.len() as i64) as usize;
            let s = r.below(all.len() as u64) as usize;
            t.push(all.remove(s));
            while t.len() < k {
                let next: Vec<usize> = (0..all.len())
                    .filter(|i| t.iter().any(|u| u.iter().filter(|p| all[*i].contains(p)).count() == 2))
                    .collect();
                if next.is_empty() {
                    break;
                }
                let i = *r.pick(&next);
                t.push(all.remove(i));
            }
            if r.chance(0.15) && !all.is_empty() {
                let i = r.below(all.len() as u64) as usize;
                t.push(all.remove(i));
            }
            if r.chance(0.15) {
                let i = r.below(t.len() as u64) as usize;
                t.remove(i);
            }
        }
    }
    t.iter_mut().for_each(|t| t.rotate_left(r.below(3) as usize));
    shuffle(r, &mut t);
    t
}

pub fn gen(r: &mut Rng) -> Edges {
    let n = *r.pick(&[3, 4, 6, 10, 16]);
    let op = match r.below(12) {
        0..=2 => {
            let (mut e, _) = lines(r, n);
            shuffle(r, &mut e);
            EdOp::Join(e)
        }
        3 | 4 => {
            let (mut e, runs) = lines(r, n);
            shuffle(r, &mut e);
            let run = r.pick(&runs).clone();
            let s = if run.len() >= 2 && r.chance(0.8) {
                let i = r.below(run.len() as u64 - 1) as usize;
                let j = r.range(i as i64 + 1, run.len() as i64 - 1) as usize;
                if r.chance(0.15) {
                    (run[j], run[i])
                } else {
                    (run[i], run[j])
                }
            } else {
                let a = gen::lattice(r, n);
                (a, (a.0 + 1.0, a.1 + r.range(0, 3) as f64))
            };
            if r.chance(0.4) {
                // pieces beside, over and beyond the others
                for _ in 0..r.range(1, 6) {
                    let run = r.pick(&runs).clone();
                    if run.len() >= 2 {
                        let (a, b) = (*r.pick(&run), *r.pick(&run));
                        if a != b && !e.contains(&(a, b)) {
                            e.push((a, b));
                        }
                    }
                }
                shuffle(r, &mut e);
            }
            EdOp::Decompose(e, s)
        }
        5 | 6 => EdOp::Loop(loops(r, n)),
        7..=9 => EdOp::Hull(triangles(r, n)),
        10 => {
            let p = polygon(r, n);
            let opened = r.chance(0.4);
            let p = if opened && r.chance(0.5) { p[..r.range(2, p.len() as i64) as usize].to_vec() } else { p };
            EdOp::Minify(p, opened)
        }
        _ => EdOp::Sort((0..r.range(0, 30)).map(|_| gen::lattice(r, n)).collect()),
    };
    let op = match r.below(10) {
        0..=4 => op,
        5 | 6 => {
            let k = *r.pick(&[0.125, 0.5, 2.0, 32.0]);
            let off = (r.range(-400, 400) as f64 * 0.5, r.range(-400, 400) as f64 * 0.25);
            map(&op, &|p: P| (p.0 * k + off.0, p.1 * k + off.1))
        }
        _ => {
            let th = r.range(1, 1000) as f64 / 100.0;
            let k = *r.pick(&[0.1, 1.0, 3.7, 20.0]);
            let off = (r.range(-100, 100) as f64 / 7.0, r.range(-100, 100) as f64 / 3.0);
            let (cs, sn) = (th.cos(), th.sin());
            map(&op, &|p: P| (k * (p.0 * cs - p.1 * sn) + off.0, k * (p.0 * sn + p.1 * cs) + off.1))
        }
    };
    Edges { steps: (0..r.range(1, 4)).map(|_| (genlib::key(r), op.clone())).collect() }
}

// ---- execution ----

enum Out {
    Set(Vec<S>),
    List(Option<Vec<S>>),
    Loop(Option<(Vec<P>, bool)>),
    Points(Vec<P>),
}

fn exec(op: &EdOp, key: Key) -> Result<Out, String> {
    let op = op.clone();
    on_thread(key, move || {
        let set = |e: &Vec<S>| -> HashSet<Rc<Edge>> { e.iter().map(|s| Rc::new(Edge::new(&v(s.0), &v(s.1)))).collect() };
        let at = |x: &Rc<Vertex>| (x.x, x.y);
        let es = |e: &Rc<Edge>| (at(&e.v1), at(&e.v2));
        let pl = |p: Polyline| (p.vertices.iter().map(|x| at(x)).collect::<Vec<P>>(), p.opened);
        match &op {
            EdOp::Join(e) => Out::Set(Edge::arrange(&set(e)).iter().map(es).collect()),
            EdOp::Decompose(e, s) => {
                let s = Rc::new(Edge::new(&v(s.0), &v(s.1)));
                Out::List(Edge::decompose(&set(e), &s).map(|l| l.iter().map(es).collect()))
            }
            EdOp::Loop(e) => Out::Loop(Polyline::arrange(&set(e)).map(pl)),
            EdOp::Hull(t) => {
                let t: HashSet<Rc<Triangle>> = t.iter().map(|t| Rc::new(Triangle::new(&v(t[0]), &v(t[1]), &v(t[2])))).collect();
                Out::Loop(Polyline::triangles_hull(&t).map(pl))
            }
            EdOp::Minify(p, opened) => {
                let l = p.iter().map(|p| v(*p)).collect();
                let p = if *opened { Polyline::new_opened(l) } else { Polyline::new_closed(l) };
                Out::Loop(Some(pl(p.unwrap().minified_noncolinear())))
            }
            EdOp::Sort(p) => {
                let mut l: Vec<Rc<Vertex>> = p.iter().map(|p| v(*p)).collect();
                Vertex::sort(&mut l);
                Out::Points(l.iter().map(|x| at(x)).collect())
            }
        }
    })
}

fn rotated(a: &[P], b: &[P]) -> bool {
    a.len() == b.len() && (0..a.len().max(1)).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i]))
}

pub fn judge(c: &Edges) -> Report {
    let mut rep = Report::default();
    let mut dg = Digest::new();
    let t0 = crate::seam::ticks();
    for (i, (key, op)) in c.steps.iter().enumerate() {
        let all = pts(op);
        let g = Geo { l: span(&all) };
        let ok = match op {
            EdOp::Join(e) => g.plain(e),
            EdOp::Decompose(e, s) => s.0 != s.1 && e.iter().all(|s| s.0 != s.1),
            EdOp::Minify(p, opened) => {
                p.len() >= if *opened { 2 } else { 3 } && (*opened && (1..p.len()).all(|k| p[k] != p[k - 1]) || simple(p))
            }
            _ => true,
        };
        if !ok {
            rep.tag("ambiguous_end");
            break;
        }
        let out = match exec(op, *key) {
            Ok(o) => o,
            Err(m) => {
                rep.add("panic", i, format!("panicked: {}", m));
                dg.str("panic");
                break;
            }
        };
        let poly = |got: &Option<(Vec<P>, bool)>, want: &Option<Vec<P>>| -> Option<String> {
            match (got, want) {
                (None, None) => None,
                (Some((a, false)), Some(b)) if rotated(a, b) => None,
                _ => Some(format!("{:?}, expected {:?}", got, want)),
            }
        };
        let (name, bad) = match (op, &out) {
            (EdOp::Join(e), Out::Set(got)) => {
                let want = joined(&g, e);
                rep.count("edges_joined", (e.len() - want.len()) as u64);
                let n = got.len();
                let got = sort_s(got.clone());
                ("join", if got == want && n == want.len() { None } else { Some(format!("{:?}, expected {:?}", got, want)) })
            }
            (EdOp::Decompose(e, s), Out::List(got)) => {
                let want = decomposes(&g, e, *s);
                rep.tag(if want { "decomposed" } else { "not_decomposed" });
                if !g.plain(e) {
                    rep.tag("pieces_overlap");
                }
                let good = match got {
                    Some(l) => {
                        want && l.iter().all(|t| e.contains(t) && piece(&g, *t, *s))
                            && l.first().map(|t| t.0) == Some(s.0)
                            && l.last().map(|t| t.1) == Some(s.1)
                            && l.windows(2).all(|w| w[0].1 == w[1].0)
                    }
                    None => !want,
                };
                ("decompose", if good { None } else { Some(format!("{:?}, decomposable: {}", got, want)) })
            }
            (EdOp::Loop(e), Out::Loop(got)) => {
                let want = cycle(e);
                rep.tag(if want.is_some() { "closed" } else { "not_closed" });
                ("loop", poly(got, &want))
            }
            (EdOp::Hull(t), Out::Loop(got)) => {
                let want = cycle(&rim(t));
                rep.tag(if want.is_some() { "hull" } else { "no_hull" });
                ("hull", poly(got, &want))
            }
            (EdOp::Minify(p, opened), Out::Loop(got)) => {
                rep.tag(if *opened { "minified_opened" } else { "minified_closed" });
                let n = p.len();
                let want: Vec<P> = (0..n)
                    .filter(|k| {
                        *opened && (*k == 0 || *k == n - 1)
                            || !g.line((p[(k + n - 1) % n], p[(k + 1) % n]), p[*k])
                    })
                    .map(|k| p[k])
                    .collect();
                let same = match got {
                    Some((a, o)) => o == opened && if *opened { *a == want } else { rotated(a, &want) },
                    None => false,
                };
                ("minify", if same { None } else { Some(format!("{:?}, expected {:?}", got, want)) })
            }
            (EdOp::Sort(p), Out::Points(got)) => {
                rep.tag("sorted");
                let mut want = p.clone();
                want.sort_by(cmp);
                ("sort", if *got == want { None } else { Some(format!("{:?}, expected {:?}", got, want)) })
            }
            _ => unreachable!(),
        };
        rep.tag(name);
        let h = |dg: &mut Digest, v: &[P]| v.iter().for_each(|x| { dg.f64(x.0); dg.f64(x.1) });
        match &out {
            Out::Set(s) | Out::List(Some(s)) => s.iter().for_each(|s| h(&mut dg, &[s.0, s.1])),
            Out::Loop(Some((p, _))) | Out::Points(p) => h(&mut dg, p),
            _ => dg.u64(0),
        }
        if let Some(m) = bad {
            rep.add(name, i, m);
            break;
        }
    }
    rep.ticks = crate::seam::ticks() - t0;
    dg.u64(rep.ticks);
    rep.digest = dg.0;
    rep
}

pub fn shrink(c: &Edges) -> Vec<Edges> {
    let mut out = vec![];
    for i in 0..c.steps.len() {
        if c.steps.len() > 1 {
            let mut t = c.clone();
            t.steps.remove(i);
            out.push(t);
        }
        let n = match &c.steps[i].1 {
            EdOp::Join(e) | EdOp::Loop(e) | EdOp::Decompose(e, _) => e.len(),
            EdOp::Hull(t) => t.len(),
            EdOp::Minify(p, _) | EdOp::Sort(p) => p.len(),
        };
        for k in 0..n {
            let mut t = c.clone();
            match &mut t.steps[i].1 {
                EdOp::Join(e) | EdOp::Loop(e) | EdOp::Decompose(e, _) => {
                    e.remove(k);
                }
                EdOp::Hull(t) => {
                    t.remove(k);
                }
                EdOp::Minify(p, o) => {
                    if p.len() <= if *o { 2 } else { 3 } {
                        continue;
                    }
                    p.remove(k);
                }
                EdOp::Sort(p) => {
                    p.remove(k);
                }
            }
            out.push(t);
        }
        if c.steps[i].0 != (0, 0) {
            let mut t = c.clone();
            t.steps[i].0 = (0, 0);
            out.push(t);
        }
    }
    out
}
