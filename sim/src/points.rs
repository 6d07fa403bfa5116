//! Incremental insertion into a triangulation without a boundary: batches of
//! points and constrained segments, one schedule key each.
use crate::case::*;
use crate::gen;
use crate::genlib;
use crate::geom::*;
use crate::oracle::*;
use crate::rng::*;
use crate::scen::*;
use crate::world::*;
use nlsn_delaunay::elements::{edge::Edge, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::planar::triangulation::Triangulation;
use nlsn_delaunay::planar::triangulation_procedures::{segment, vertices};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum PtOp {
    Vertices(Vec<P>),
    Segment(P, P),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Points {
    pub exact: bool,
    pub start: (P, P),
    pub steps: Vec<(Key, PtOp)>,
}

fn all(c: &Points) -> Vec<P> {
    let mut v = vec![c.start.0, c.start.1];
    for (_, o) in &c.steps {
        match o {
            PtOp::Vertices(b) => v.extend(b.iter().cloned()),
            PtOp::Segment(a, b) => v.extend(vec![*a, *b]),
        }
    }
    v
}

fn map(c: &mut Points, g: &dyn Fn(P) -> P) {
    c.start = (g(c.start.0), g(c.start.1));
    for (_, o) in c.steps.iter_mut() {
        match o {
            PtOp::Vertices(b) => b.iter_mut().for_each(|p| *p = g(*p)),
            PtOp::Segment(a, b) => {
                *a = g(*a);
                *b = g(*b);
            }
        }
    }
}

/// What has been declared so far, and whether the next step keeps to the
/// contract: segments cross no segment, points lie on none.
struct Model {
    l: f64,
    pts: Vec<P>,
    pieces: Vec<(P, P)>,
    given: Vec<(P, P)>,
}
impl Model {
    fn same(&self, a: P, b: P) -> bool {
        dist(a, b) <= 1e-10 * self.l
    }
    fn within(&self, s: (P, P), p: P) -> bool {
        !self.same(s.0, p) && !self.same(s.1, p) && seg_dist(s.0, s.1, p) <= 1e-10 * self.l
    }
    fn side(&self, s: (P, P), p: P) -> i32 {
        let d = cross(s.0, s.1, p) / dist(s.0, s.1);
        if d.abs() <= 1e-10 * self.l {
            0
        } else if d > 0.0 {
            1
        } else {
            -1
        }
    }
    fn flat(&self, more: &[P]) -> bool {
        let s = (self.pts[0], self.pts[1]);
        self.pts.iter().chain(more.iter()).all(|p| self.side(s, *p) == 0)
    }
    fn add(&mut self, p: P) -> bool {
        if self.pieces.iter().any(|s| self.within(*s, p)) {
            return false;
        }
        if !self.pts.iter().any(|q| self.same(*q, p)) {
            self.pts.push(p);
        }
        true
    }
    /// false: outside the contract
    fn step(&mut self, o: &PtOp) -> bool {
        match o {
            PtOp::Vertices(b) => !self.flat(b) && b.iter().all(|p| self.add(*p)),
            PtOp::Segment(a, b) => {
                if self.same(*a, *b) || self.flat(&[*a, *b]) || !self.add(*a) || !self.add(*b) {
                    return false;
                }
                let s = (*a, *b);
                for t in &self.pieces {
                    let (x, y) = (self.side(s, t.0) * self.side(s, t.1), self.side(*t, s.0) * self.side(*t, s.1));
                    if x < 0 && y < 0 {
                        return false;
                    }
                }
                let mut on: Vec<P> = self.pts.iter().cloned().filter(|p| seg_dist(*a, *b, *p) <= 1e-10 * self.l).collect();
                on.sort_by(|p, q| dist(*a, *p).partial_cmp(&dist(*a, *q)).unwrap());
                self.pieces.extend(on.windows(2).map(|w| (w[0], w[1])));
                self.given.push(s);
                true
            }
        }
    }
}

fn model(c: &Points) -> Model {
    Model { l: span(&all(c)), pts: vec![c.start.0, c.start.1], pieces: vec![], given: vec![] }
}

pub fn gen(r: &mut Rng) -> Points {
    let n = *r.pick(&[2, 3, 4, 6, 10, 16, 24, 40]);
    let a = gen::lattice(r, n);
    let b = loop {
        let b = gen::lattice(r, n);
        if b != a {
            break b;
        }
    };
    let mut c = Points { exact: true, start: (a, b), steps: vec![] };
    let k = r.range(1, 8);
    let grow = r.chance(0.2); // points that keep falling outside the hull
    let lines = r.chance(0.2); // points on few lines
    let circle = r.chance(0.1);
    let segs = r.chance(0.5);
    let mut m = model(&c);
    m.l = n as f64 * 4.0;
    for i in 0..k {
        let mut tries = 0;
        loop {
            tries += 1;
            if tries > 20 {
                break;
            }
            let reach = if grow { (n * (i + 1) / k).max(1) } else { n };
            let pt = |r: &mut Rng| -> P {
                if circle && r.chance(0.7) {
                    let w = *r.pick(&[(5, 0), (3, 4), (4, 3), (0, 5), (-3, 4), (-4, 3), (-5, 0), (3, -4), (4, -3), (0, -5), (-3, -4), (-4, -3)]);
                    let s = (n / 5).max(1);
                    return ((w.0 * s) as f64, (w.1 * s) as f64);
                }
                let p = gen::lattice(r, reach);
                if lines && r.chance(0.8) {
                    let y = r.range(0, 2) * (n / 2).max(1);
                    return if r.chance(0.5) { (p.0, y as f64) } else { (y as f64, p.1) };
                }
                p
            };
            let op = if segs && i > 0 && r.chance(0.4) {
                let end = |r: &mut Rng| if r.chance(0.7) { *r.pick(&m.pts) } else { pt(r) };
                PtOp::Segment(end(r), end(r))
            } else {
                let big = if r.chance(0.05) { 60 } else { 12 };
                let b = *r.pick(&[1, 1, 2, 3, 5, big]);
                let mut v: Vec<P> = (0..b).map(|_| pt(r)).collect();
                if i == 0 {
                    v.push(gen::lattice(r, n));
                    let j = r.below(v.len() as u64) as usize;
                    let e = v.len() - 1;
                    v.swap(j, e);
                }
                v.retain(|p| !m.pieces.iter().any(|s| m.within(*s, *p)));
                PtOp::Vertices(v)
            };
            let mut t = Model { l: m.l, pts: m.pts.clone(), pieces: m.pieces.clone(), given: m.given.clone() };
            if t.step(&op) {
                m = t;
                c.steps.push((genlib::key(r), op));
                break;
            }
        }
    }
    match r.below(10) {
        0..=4 => {}
        5 | 6 => {
            let k = *r.pick(&[0.125, 0.5, 2.0, 32.0]);
            let off = (r.range(-400, 400) as f64 * 0.5, r.range(-400, 400) as f64 * 0.25);
            map(&mut c, &|p: P| (p.0 * k + off.0, p.1 * k + off.1));
        }
        _ => {
            c.exact = false;
            let th = r.range(1, 1000) as f64 / 100.0;
            let k = *r.pick(&[0.1, 1.0, 3.7, 20.0]);
            let off = (r.range(-100, 100) as f64 / 7.0, r.range(-100, 100) as f64 / 3.0);
            let (cs, sn) = (th.cos(), th.sin());
            map(&mut c, &|p: P| (k * (p.0 * cs - p.1 * sn) + off.0, k * (p.0 * sn + p.1 * cs) + off.1));
        }
    }
    if r.chance(0.2) {
        let g = std::cell::RefCell::new(Rng::new(r.next()));
        let sign = |x: f64| if x == 0.0 && g.borrow_mut().chance(0.5) { -x } else { x };
        map(&mut c, &|p: P| (sign(p.0), sign(p.1)));
    }
    c
}

struct Moved(Triangulation);
// one thread at a time, each ending before the next one starts
unsafe impl Send for Moved {}

type Name = [(u64, u64, bool); 3];
fn name(t: &Triangle) -> Name {
    let k = |v: &Vertex| if v.is_ghost { (0, 0, true) } else { ((v.x + 0.0).to_bits(), (v.y + 0.0).to_bits(), false) };
    let v = [k(&t.v1), k(&t.v2), k(&t.v3)];
    (0..3).map(|i| [v[i], v[(i + 1) % 3], v[(i + 2) % 3]]).min().unwrap()
}
fn names<'a, I: Iterator<Item = &'a Rc<Triangle>>>(i: I) -> BTreeSet<Name> {
    i.map(|t| name(t)).collect()
}

struct Got {
    mesh: Mesh,
    after: BTreeSet<Name>,
    told: Option<(BTreeSet<Name>, BTreeSet<Name>)>,
}

pub fn judge(c: &Points) -> Report {
    let mut rep = Report::default();
    let mut dg = Digest::new();
    let mut m = model(c);
    let t0 = crate::seam::ticks();
    let mut cur = Moved(Triangulation::from_initial_segment((&v(c.start.0), &v(c.start.1))));
    let mut before = names(cur.0.triangles.iter());
    for (i, (key, op)) in c.steps.iter().enumerate() {
        let constraints = m.pieces.clone();
        if !m.step(op) {
            rep.tag("ambiguous_end");
            break;
        }
        let o = op.clone();
        let r = on_thread(*key, move || {
            let mut cur = cur;
            let t = &mut cur;
            let set: HashSet<Rc<Edge>> = constraints.iter().map(|(a, b)| Rc::new(Edge::new(&v(*a), &v(*b)))).collect();
            let told = match o {
                PtOp::Vertices(b) => {
                    let (i, r) = vertices::include(&mut t.0, b.iter().map(|p| v(*p)).collect(), &set, &None, &HashSet::new());
                    Some((names(i.iter()), names(r.iter())))
                }
                PtOp::Segment(a, b) => {
                    segment::include(&mut t.0, &Rc::new(Edge::new(&v(a), &v(b))), &set);
                    None
                }
            };
            let g = Got { mesh: mesh_of(&t.0), after: names(t.0.triangles.iter()), told };
            (cur, g)
        });
        let g = match r {
            Ok((c, g)) => {
                cur = c;
                g
            }
            Err(e) => {
                rep.add("panic", i, format!("panicked: {}", e));
                dg.str("panic");
                break;
            }
        };
        rep.tag(match op {
            PtOp::Vertices(_) => "insert_vertices",
            PtOp::Segment(..) => "insert_segment",
        });
        let mut h = hull(m.pts.clone());
        if !c.exact {
            // corners rounded off a side
            let l = m.l;
            loop {
                let n = h.len();
                match (0..n).find(|i| n > 3 && seg_dist(h[(i + n - 1) % n], h[(i + 1) % n], h[*i]) <= 1e-11 * l) {
                    Some(k) => h.remove(k),
                    None => break,
                };
            }
        }
        let mut w = World::new(&h, c.exact);
        w.l = m.l;
        w.verts = sort_p(m.pts.iter().cloned().filter(|p| !h.contains(p)).collect());
        w.segs = m.pieces.clone();
        w.given = m.given.clone();
        for (c, msg) in mesh_checks(&w, &g.mesh, false) {
            rep.add(&c, i, msg);
        }
        if let Some((inc, rem)) = &g.told {
            if g.after.iter().any(|t| !before.contains(t) && !inc.contains(t)) {
                rep.add("report", i, "a new triangle is not among the included ones".into());
            }
            if before.iter().any(|t| !g.after.contains(t) && !rem.contains(t)) {
                rep.add("report", i, "a lost triangle is not among the removed ones".into());
            }
            if inc.iter().any(|t| !g.after.contains(t) && !rem.contains(t)) {
                rep.add("report", i, "a triangle included on the way is neither there nor removed".into());
            }
            if rem.iter().any(|t| !before.contains(t) && !inc.contains(t)) {
                rep.add("report", i, "a removed triangle never was there".into());
            }
        }
        rep.count("triangles", g.mesh.tris.len() as u64);
        rep.max("max_triangles", g.mesh.tris.len() as u64);
        if !m.pieces.is_empty() {
            rep.tag("with_segments");
        }
        dg.u64(g.mesh.digest);
        before = g.after;
        if !rep.viol.is_empty() {
            break;
        }
    }
    rep.ticks = crate::seam::ticks() - t0;
    dg.u64(rep.ticks);
    rep.digest = dg.0;
    rep
}

pub fn shrink(c: &Points) -> Vec<Points> {
    let mut out = vec![];
    for i in 0..c.steps.len() {
        let mut t = c.clone();
        t.steps.remove(i);
        out.push(t);
        if let PtOp::Vertices(b) = &c.steps[i].1 {
            for k in 0..b.len() {
                let mut t = c.clone();
                let mut b = b.clone();
                b.remove(k);
                t.steps[i].1 = PtOp::Vertices(b);
                out.push(t);
            }
        }
        if c.steps[i].0 != (0, 0) {
            let mut t = c.clone();
            t.steps[i].0 = (0, 0);
            out.push(t);
        }
    }
    out.retain(|t| {
        let mut m = model(t);
        !t.steps.is_empty() && t.steps.iter().all(|s| m.step(&s.1))
    });
    out
}
