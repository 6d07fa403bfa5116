//! Triangles put into and taken out of a triangulation, in any rotation of
//! their vertices: the set and the neighbour map stay in step.
use crate::case::*;
use crate::genlib;
use crate::geom::*;
use crate::rng::*;
use crate::scen::*;
use nlsn_delaunay::elements::{edge::Edge, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::planar::triangulation::Triangulation;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// None is the ghost
type C = Option<P>;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum MOp {
    Include([C; 3]),
    Remove([C; 3]),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MeshOps {
    pub start: Option<(P, P)>,
    pub steps: Vec<(Key, Vec<MOp>)>,
}

type N = (u64, u64, bool);
type T = [N; 3];
fn key(c: &C) -> N {
    match c {
        None => (0, 0, true),
        Some(p) => ((p.0 + 0.0).to_bits(), (p.1 + 0.0).to_bits(), false),
    }
}
fn name(t: &[C; 3]) -> T {
    let k = [key(&t[0]), key(&t[1]), key(&t[2])];
    (0..3).map(|i| [k[i], k[(i + 1) % 3], k[(i + 2) % 3]]).min().unwrap()
}
fn sides(t: &T) -> [(N, N); 3] {
    [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]
}

#[derive(Default, Clone)]
struct Model {
    there: BTreeSet<T>,
    at: BTreeMap<(N, N), T>,
}
impl Model {
    /// Err: the edge of another triangle is taken, which no mesh does
    fn include(&mut self, t: &[C; 3]) -> Result<bool, ()> {
        let n = name(t);
        if self.there.contains(&n) {
            return Ok(false);
        }
        if sides(&n).iter().any(|s| self.at.contains_key(s)) || n[0] == n[1] || n[1] == n[2] || n[2] == n[0] {
            return Err(());
        }
        sides(&n).iter().for_each(|s| {
            self.at.insert(*s, n);
        });
        self.there.insert(n);
        Ok(true)
    }
    fn remove(&mut self, t: &[C; 3]) -> bool {
        let n = name(t);
        if !self.there.remove(&n) {
            return false;
        }
        sides(&n).iter().for_each(|s| {
            self.at.remove(s);
        });
        true
    }
    fn start(&mut self, s: &Option<(P, P)>) {
        if let Some((a, b)) = s {
            let _ = self.include(&[Some(*a), Some(*b), None]);
            let _ = self.include(&[Some(*b), Some(*a), None]);
        }
    }
}

pub fn gen(r: &mut Rng) -> MeshOps {
    let (w, h) = (r.range(1, 5), r.range(1, 5));
    let mut pool: Vec<[C; 3]> = vec![];
    let o = if r.chance(0.5) { (0.0, 0.0) } else { (r.range(-40, 40) as f64 / 4.0, r.range(-40, 40) as f64 / 8.0) };
    let k = *r.pick(&[1.0, 1.0, 0.1, 3.7]);
    let at = |x: i64, y: i64| Some((o.0 + k * x as f64, o.1 + k * y as f64));
    for x in 0..w {
        for y in 0..h {
            let (a, b, c, d) = (at(x, y), at(x + 1, y), at(x + 1, y + 1), at(x, y + 1));
            // either diagonal
            pool.extend(vec![[a, b, c], [a, c, d], [a, b, d], [b, c, d]]);
        }
    }
    for x in 0..w {
        pool.push([at(x + 1, 0), at(x, 0), None]);
        pool.push([at(x, h), at(x + 1, h), None]);
    }
    for y in 0..h {
        pool.push([at(0, y), at(0, y + 1), None]);
        pool.push([at(w, y + 1), at(w, y), None]);
    }
    let mut m = Model::default();
    let start = if r.chance(0.3) { Some((at(0, 0).unwrap(), at(1, 0).unwrap())) } else { None };
    m.start(&start);
    let mut steps = vec![];
    let signs = r.chance(0.2);
    for _ in 0..r.range(1, 5) {
        let mut ops = vec![];
        let inc = *r.pick(&[0.5, 0.7, 0.9]);
        for _ in 0..r.range(1, 30) {
            let mut t = r.pick(&pool).clone();
            t.rotate_left(r.below(3) as usize);
            if signs {
                t.iter_mut().for_each(|c| {
                    if let Some(p) = c {
                        if p.0 == 0.0 && r.chance(0.5) {
                            p.0 = -p.0;
                        }
                        if p.1 == 0.0 && r.chance(0.5) {
                            p.1 = -p.1;
                        }
                    }
                });
            }
            if r.chance(inc) {
                if m.include(&t).is_ok() {
                    ops.push(MOp::Include(t));
                }
            } else {
                m.remove(&t);
                ops.push(MOp::Remove(t));
            }
        }
        steps.push((genlib::key(r), ops));
    }
    MeshOps { start, steps }
}

struct Moved(Triangulation);
// one thread at a time, each ending before the next one starts
unsafe impl Send for Moved {}

fn tri(t: &[C; 3]) -> Rc<Triangle> {
    let x = |c: &C| match c {
        None => Rc::new(Vertex::new_ghost()),
        Some(p) => v(*p),
    };
    Rc::new(Triangle::new(&x(&t[0]), &x(&t[1]), &x(&t[2])))
}
fn vk(v: &Vertex) -> N {
    key(&if v.is_ghost { None } else { Some((v.x, v.y)) })
}
fn tk(t: &Triangle) -> T {
    let c = |v: &Vertex| if v.is_ghost { None } else { Some((v.x, v.y)) };
    name(&[c(&t.v1), c(&t.v2), c(&t.v3)])
}
fn ek(e: &Edge) -> (N, N) {
    (vk(&e.v1), vk(&e.v2))
}

struct Seen {
    told: Vec<bool>,
    there: Vec<T>,
    at: BTreeMap<(N, N), T>,
    entries: usize,
    /// edges whose triangle is found with the wrong third vertex
    apexes: Vec<String>,
    vertices: Vec<N>,
    edges: Vec<(N, N)>,
}

pub fn judge(c: &MeshOps) -> Report {
    let mut rep = Report::default();
    let mut dg = Digest::new();
    let t0 = crate::seam::ticks();
    let mut m = Model::default();
    m.start(&c.start);
    let start = c.start.clone();
    let mut cur = match on_thread((1, 1), move || {
        Moved(match start {
            Some((a, b)) => Triangulation::from_initial_segment((&v(a), &v(b))),
            None => Triangulation::new(),
        })
    }) {
        Ok(t) => t,
        Err(e) => {
            rep.add("panic", 0, format!("panicked: {}", e));
            return rep;
        }
    };
    for (i, (k, ops)) in c.steps.iter().enumerate() {
        let mut want = vec![];
        for o in ops {
            match o {
                MOp::Include(t) => match m.include(t) {
                    Ok(b) => want.push(b),
                    Err(()) => {
                        rep.tag("ambiguous_end");
                        return rep;
                    }
                },
                MOp::Remove(t) => want.push(m.remove(t)),
            }
        }
        let todo = ops.clone();
        let r = on_thread(*k, move || {
            let mut cur = cur;
            let t = &mut cur;
            let t = &mut t.0;
            let told = todo
                .iter()
                .map(|o| match o {
                    MOp::Include(x) => t.include_triangle(&tri(x)),
                    MOp::Remove(x) => t.remove_triangle(&tri(x)),
                })
                .collect();
            let mut s = Seen { told, there: vec![], at: BTreeMap::new(), entries: t.adjacency.len(), apexes: vec![], vertices: vec![], edges: vec![] };
            s.there = t.triangles.iter().map(|t| tk(t)).collect();
            for (e, x) in t.adjacency.iter() {
                s.at.insert(ek(e), tk(x));
                // looked up, not only listed
                let again = Rc::new(Edge::new(&Rc::new(Vertex { ..*e.v1 }), &Rc::new(Vertex { ..*e.v2 })));
                let apex = t.adjacency.get(&again).and_then(|x| x.opposite_vertex(&again)).map(|x| vk(&x));
                if apex != tk(x).iter().cloned().find(|n| *n != vk(&e.v1) && *n != vk(&e.v2)) {
                    s.apexes.push(format!("{}", e));
                }
            }
            s.vertices = t.vertices().iter().map(|x| vk(x)).collect();
            s.edges = t.edges().iter().map(|x| ek(x)).collect();
            (cur, s)
        });
        let s = match r {
            Ok((c, s)) => {
                cur = c;
                s
            }
            Err(e) => {
                rep.add("panic", i, format!("panicked: {}", e));
                dg.str("panic");
                break;
            }
        };
        rep.count("included", ops.iter().zip(&want).filter(|(o, b)| if let MOp::Include(_) = o { **b } else { false }).count() as u64);
        rep.count("removed", ops.iter().zip(&want).filter(|(o, b)| if let MOp::Remove(_) = o { **b } else { false }).count() as u64);
        rep.count("without_effect", want.iter().filter(|b| !**b).count() as u64);
        rep.max("max_triangles", m.there.len() as u64);
        if let Some(k) = (0..want.len()).find(|k| want[*k] != s.told[*k]) {
            rep.add("told", i, format!("{:?} answered {}", ops[k], s.told[k]));
        }
        let set: BTreeSet<T> = s.there.iter().cloned().collect();
        if set != m.there || set.len() != s.there.len() {
            rep.add("set", i, format!("{} triangles, expected {}", s.there.len(), m.there.len()));
        }
        if s.at != m.at || s.entries != m.at.len() {
            let k = m.at.keys().find(|k| s.at.get(*k) != m.at.get(*k));
            rep.add("neighbours", i, format!("{} entries, expected {}, e.g. {:?}", s.entries, m.at.len(), k.map(|k| (f64::from_bits((k.0).0), f64::from_bits((k.0).1), f64::from_bits((k.1).0), f64::from_bits((k.1).1)))));
        }
        if let Some(e) = s.apexes.first() {
            rep.add("neighbours", i, format!("the triangle at {} is not found from it", e));
        }
        let vs: BTreeSet<N> = m.there.iter().flat_map(|t| t.to_vec()).filter(|n| !n.2).collect();
        if s.vertices.len() != vs.len() || s.vertices.iter().any(|n| !vs.contains(n)) {
            rep.add("vertices", i, format!("{} vertices, expected {}", s.vertices.len(), vs.len()));
        }
        if s.edges.len() != m.at.len() || s.edges.iter().any(|e| !m.at.contains_key(e)) {
            rep.add("edges", i, format!("{} edges, expected {}", s.edges.len(), m.at.len()));
        }
        s.there.iter().for_each(|t| t.iter().for_each(|n| { dg.u64(n.0); dg.u64(n.1) }));
        if !rep.viol.is_empty() {
            break;
        }
    }
    rep.ticks = crate::seam::ticks() - t0;
    dg.u64(rep.ticks);
    rep.digest = dg.0;
    rep
}

pub fn shrink(c: &MeshOps) -> Vec<MeshOps> {
    let mut out = vec![];
    if c.start.is_some() {
        out.push(MeshOps { start: None, steps: c.steps.clone() });
    }
    for i in 0..c.steps.len() {
        let mut t = c.clone();
        t.steps.remove(i);
        out.push(t);
        for k in 0..c.steps[i].1.len() {
            let mut t = c.clone();
            t.steps[i].1.remove(k);
            out.push(t);
        }
        if c.steps[i].0 != (0, 0) {
            let mut t = c.clone();
            t.steps[i].0 = (0, 0);
            out.push(t);
        }
    }
    out
}
