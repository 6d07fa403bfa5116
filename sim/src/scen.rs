//! A simulated history against the library's public API, and its execution.
use crate::geom::P;
use crate::seam;
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::planar::triangulation::Triangulation;
use nlsn_delaunay::{RefineParams, Triangulator};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::rc::Rc;

pub type Key = (u64, u64);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Hole(Vec<P>),
    Segments(Vec<(P, P)>),
    Vertices(Vec<P>),
    Triangulate,
    Refine { quality: f64, max_area: Option<f64> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    pub key: Key,
    pub op: Op,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Scen {
    /// coordinates are small dyadics: exact predicates decide every case
    pub exact: bool,
    pub boundary: Vec<P>,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Default)]
pub struct Mesh {
    pub pts: Vec<P>,
    pub tris: Vec<[usize; 3]>,
    /// ghost triangles as their solid directed edge
    pub ghosts: Vec<[usize; 2]>,
    pub malformed_ghosts: usize,
    /// what the neighbour map gets wrong, if anything
    pub adj_faults: Vec<String>,
    pub digest: u64,
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok,
    ErrSegs(Vec<(P, P)>),
    ErrVerts(Vec<P>),
    Panic(String),
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub out: Out,
    pub holes: Vec<Vec<P>>,
    pub segs: Vec<(P, P)>,
    pub verts: Vec<P>,
    pub boundary: Vec<P>,
    pub mesh: Option<Mesh>,
    pub ticks: u64,
}

pub fn v(p: P) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.0, p.1))
}
pub fn closed(ps: &[P]) -> Option<Polyline> {
    Polyline::new_closed(ps.iter().map(|p| v(*p)).collect())
}
fn pt(x: &Vertex) -> P {
    (x.x, x.y)
}

pub fn mesh_of(t: &Triangulation) -> Mesh {
    let mut m = Mesh::default();
    let mut idx: std::collections::BTreeMap<(u64, u64), usize> = Default::default();
    let mut dg = crate::rng::Digest::new();
    let adj: &Adj = &t.adjacency;
    let norm = |x: f64| if x == 0.0 { 0.0 } else { x };
    let mut id = |x: &Vertex, pts: &mut Vec<P>| -> usize {
        let p = (norm(x.x), norm(x.y));
        *idx.entry((p.0.to_bits(), p.1.to_bits())).or_insert_with(|| {
            pts.push(p);
            pts.len() - 1
        })
    };
    for t in t.triangles.iter() {
        let vs = [&t.v1, &t.v2, &t.v3];
        for x in vs.iter() {
            dg.f64(x.x);
            dg.f64(x.y);
            dg.u64(x.is_ghost as u64);
        }
        if t.is_ghost() {
            let g = vs.iter().filter(|x| x.is_ghost).count();
            if g != 1 {
                m.malformed_ghosts += 1;
                continue;
            }
            let k = vs.iter().position(|x| x.is_ghost).unwrap();
            let (a, b) = (vs[(k + 1) % 3], vs[(k + 2) % 3]);
            let e = [id(a, &mut m.pts), id(b, &mut m.pts)];
            m.ghosts.push(e);
        } else {
            let e = [id(vs[0], &mut m.pts), id(vs[1], &mut m.pts), id(vs[2], &mut m.pts)];
            m.tris.push(e);
        }
    }
    // neighbour map: every edge of every triangle finds that triangle, and
    // nothing else is in the map
    for t in t.triangles.iter() {
        let (a, b, c) = t.inner_edges();
        for e in [a, b, c].iter() {
            match t_adj(adj, e) {
                Some(u) if **u == **t => {}
                Some(u) => m.adj_faults.push(format!("edge {} of {} maps to {}", e, t, u)),
                None => m.adj_faults.push(format!("edge {} of {} is not in the map", e, t)),
            }
        }
    }
    if adj.len() != 3 * t.triangles.len() {
        m.adj_faults.push(format!("{} map entries for {} triangles", adj.len(), t.triangles.len()));
    }
    m.adj_faults.sort();
    m.digest = dg.0;
    m
}

type Adj = std::collections::HashMap<Rc<Edge>, Rc<Triangle>>;
fn t_adj<'a>(m: &'a Adj, e: &Rc<Edge>) -> Option<&'a Rc<Triangle>> {
    m.get(e)
}

struct Moved(Triangulator);
// A history is one thread of control: each step runs on a fresh OS thread (so
// that std draws a fresh schedule key), strictly after the previous one ended.
unsafe impl Send for Moved {}

fn snap(t: &Triangulator, out: Out, mesh: bool) -> Obs {
    let mut segs: Vec<(P, P)> = t.segments.iter().map(|e| (pt(&e.v1), pt(&e.v2))).collect();
    segs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut verts: Vec<P> = t.vertices.iter().map(|x| pt(x)).collect();
    verts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut holes: Vec<Vec<P>> = t.holes.iter().map(|h| h.vertices.iter().map(|x| pt(x)).collect()).collect();
    holes.sort_by(|a: &Vec<P>, b| a.partial_cmp(b).unwrap());
    Obs {
        out,
        holes,
        segs,
        verts,
        boundary: t.boundary.vertices.iter().map(|x| pt(x)).collect(),
        mesh: if mesh { Some(mesh_of(&t.triangulation.borrow())) } else { None },
        ticks: 0,
    }
}

fn apply(t: &mut Triangulator, op: &Op) -> Out {
    match op {
        Op::Hole(ps) => {
            let h = Rc::new(closed(ps).expect("hole"));
            match t.insert_hole(&h) {
                Ok(_) => Out::Ok,
                Err(vs) => {
                    let mut o: Vec<P> = vs.iter().map(|x| pt(x)).collect();
                    o.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    Out::ErrVerts(o)
                }
            }
        }
        Op::Segments(ss) => {
            let set: HashSet<Rc<Edge>> = ss.iter().map(|(a, b)| Rc::new(Edge::new(&v(*a), &v(*b)))).collect();
            match t.insert_segments(&set) {
                Ok(_) => Out::Ok,
                Err(es) => {
                    let mut o: Vec<(P, P)> = es.iter().map(|e| (pt(&e.v1), pt(&e.v2))).collect();
                    o.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    Out::ErrSegs(o)
                }
            }
        }
        Op::Vertices(ps) => {
            let set: HashSet<Rc<Vertex>> = ps.iter().map(|p| v(*p)).collect();
            match t.insert_vertices(&set) {
                Ok(_) => Out::Ok,
                Err(vs) => {
                    let mut o: Vec<P> = vs.iter().map(|x| pt(x)).collect();
                    o.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    Out::ErrVerts(o)
                }
            }
        }
        Op::Triangulate => {
            t.triangulate();
            Out::Ok
        }
        Op::Refine { quality, max_area } => {
            t.refine(RefineParams { max_area: *max_area, quality_ratio: *quality });
            Out::Ok
        }
    }
}

/// Runs f on a fresh thread under schedule key `key`; Err = panic message.
pub fn on_thread<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(key: Key, f: F) -> Result<T, String> {
    seam::set_key(key);
    seam::enter();
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap();
    let r = h.join();
    seam::leave();
    match r {
        Ok(x) => Ok(x),
        Err(_) => Err(crate::last_panic()),
    }
}

/// Executes a history. Deterministic in `s` and the code under test.
pub fn run(s: &Scen) -> Vec<Obs> {
    let b = s.boundary.clone();
    let mut cur = Moved(Triangulator::new(&Rc::new(closed(&b).expect("boundary"))));
    let mut log = Vec::new();
    for st in s.steps.iter() {
        let op = st.op.clone();
        let t0 = seam::ticks();
        let is_mesh = match op {
            Op::Triangulate | Op::Refine { .. } => true,
            _ => false,
        };
        let r = on_thread(st.key, move || {
            let mut cur = cur;
            let c = &mut cur;
            let out = apply(&mut c.0, &op);
            let o = snap(&c.0, out, is_mesh);
            (cur, o)
        });
        match r {
            Ok((c, mut o)) => {
                cur = c;
                o.ticks = seam::ticks() - t0;
                log.push(o);
            }
            Err(m) => {
                log.push(Obs {
                    out: Out::Panic(m),
                    holes: vec![],
                    segs: vec![],
                    verts: vec![],
                    boundary: b,
                    mesh: None,
                    ticks: 0,
                });
                return log;
            }
        }
    }
    log
}
