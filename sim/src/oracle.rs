//! Checks over an observed mesh against the modelled domain.
use crate::geom::*;
use crate::scen::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn f(p: P) -> String {
    format!("({},{})", p.0, p.1)
}

/// Buckets points for tolerant look-ups.
pub struct Near {
    cell: f64,
    map: HashMap<(i64, i64), Vec<(P, usize)>>,
}
impl Near {
    pub fn new(ps: &[P], cell: f64) -> Near {
        let mut map: HashMap<(i64, i64), Vec<(P, usize)>> = HashMap::new();
        for (i, p) in ps.iter().enumerate() {
            map.entry(Self::key(*p, cell)).or_default().push((*p, i));
        }
        Near { cell, map }
    }
    fn key(p: P, c: f64) -> (i64, i64) {
        ((p.0 / c).floor() as i64, (p.1 / c).floor() as i64)
    }
    pub fn find(&self, p: P, tol: f64) -> Option<usize> {
        let k = Self::key(p, self.cell);
        for dx in -1..=1 {
            for dy in -1..=1 {
                if let Some(v) = self.map.get(&(k.0 + dx, k.1 + dy)) {
                    for (q, i) in v {
                        if (q.0 - p.0).abs() <= tol && (q.1 - p.1).abs() <= tol {
                            return Some(*i);
                        }
                    }
                }
            }
        }
        None
    }
}

pub type Finding = (String, String);

pub struct Adj {
    pub de: BTreeMap<(usize, usize), usize>,
    pub dup: bool,
    pub rim: Vec<(usize, usize)>,
}
pub fn adjacency(m: &Mesh) -> Adj {
    let mut de: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut dup = false;
    for (i, t) in m.tris.iter().enumerate() {
        for k in 0..3 {
            if de.insert((t[k], t[(k + 1) % 3]), i).is_some() {
                dup = true;
            }
        }
    }
    let rim = de.keys().filter(|(a, b)| !de.contains_key(&(*b, *a))).cloned().collect();
    Adj { de, dup, rim }
}

fn apex(t: &[usize; 3], a: usize, b: usize) -> usize {
    *t.iter().find(|x| **x != a && **x != b).unwrap_or(&t[0])
}

pub fn tri_area2(m: &Mesh, t: &[usize; 3]) -> f64 {
    cross(m.pts[t[0]], m.pts[t[1]], m.pts[t[2]])
}

/// Every structural check of a mesh of domain `w`.
pub fn mesh_checks(w: &World, m: &Mesh, refined: bool) -> Vec<Finding> {
    let l = w.l;
    let tol_on = 1e-10 * l;
    let far = reach(&w.boundary);
    let tol_len = 1e-7 * l;
    let mut out: Vec<Finding> = Vec::new();
    let mut add = |c: &str, s: String| out.push((c.to_string(), s));
    let p = |i: usize| m.pts[i];

    if let Some(q) = m.pts.iter().find(|q| !q.0.is_finite() || !q.1.is_finite()) {
        add("orient", format!("vertex {} is not finite", f(*q)));
        return out;
    }
    // tiling: positively oriented triangles, no directed edge twice, the
    // unmatched edges run along the border and cover it, the areas add up
    let neg: Vec<String> = m
        .tris
        .iter()
        .filter(|t| {
            let a = tri_area2(m, t);
            if w.exact && !refined && w.fuzzy.is_empty() {
                orient(p(t[0]), p(t[1]), p(t[2])) <= 0
            } else {
                let e = dist(p(t[0]), p(t[1])).max(dist(p(t[1]), p(t[2]))).max(dist(p(t[2]), p(t[0])));
                a <= 1e-14 * far * e
            }
        })
        .map(|t| format!("{}{}{}", f(p(t[0])), f(p(t[1])), f(p(t[2]))))
        .collect();
    if !neg.is_empty() {
        add("orient", format!("{} flat or inverted triangles, e.g. {}", neg.len(), neg[0]));
    }
    let adj = adjacency(m);
    if adj.dup {
        add("dupedge", "a directed edge belongs to two triangles".into());
    }
    let border = w.border();
    let mut len = vec![0.0; border.len()];
    let mut stray: Vec<String> = vec![];
    for (a, b) in &adj.rim {
        let (pa, pb) = (p(*a), p(*b));
        let mut hit = false;
        for (k, (s, e)) in border.iter().enumerate() {
            let along = (pb.0 - pa.0) * (e.0 - s.0) + (pb.1 - pa.1) * (e.1 - s.1) > 0.0;
            if along && seg_dist(*s, *e, pa) <= tol_on && seg_dist(*s, *e, pb) <= tol_on {
                len[k] += dist(pa, pb);
                hit = true;
                break;
            }
        }
        if !hit {
            stray.push(format!("{}-{}", f(pa), f(pb)));
        }
    }
    if !stray.is_empty() {
        add("stray-rim", format!("{} outer edges off the border, e.g. {}", stray.len(), stray[0]));
    }
    let short: Vec<String> = border
        .iter()
        .enumerate()
        .filter(|(k, (a, b))| (len[*k] - dist(*a, *b)).abs() > tol_len)
        .map(|(_, (a, b))| format!("{}-{}", f(*a), f(*b)))
        .collect();
    if !short.is_empty() {
        add("border", format!("{} border edges not covered once, e.g. {}", short.len(), short[0]));
    }
    let area: f64 = m.tris.iter().map(|t| tri_area2(m, t) / 2.0).sum();
    if (area - w.area()).abs() > 1e-8 * l * l {
        add("area", format!("triangles add up to {}, the domain has {}", area, w.area()));
    }

    // vertices
    let used: BTreeSet<usize> = m.tris.iter().flat_map(|t| t.iter().cloned()).collect();
    let have: Vec<P> = used.iter().map(|i| p(*i)).collect();
    let want = w.required();
    let tol_v = if w.exact && w.fuzzy.is_empty() { 1e-11 * l } else { 1e-9 * l };
    let nh = Near::new(&have, 1e-6 * l);
    let missing: Vec<String> = want.iter().filter(|x| nh.find(**x, tol_v).is_none()).map(|x| f(*x)).collect();
    if !missing.is_empty() {
        add("missing-vertex", format!("{} missing: {}", missing.len(), missing.join(" ")));
    }
    let nw = Near::new(&want, 1e-6 * l);
    if !refined {
        let extra: Vec<String> = have.iter().filter(|x| nw.find(**x, tol_v).is_none()).map(|x| f(*x)).collect();
        if !extra.is_empty() {
            add("extra-vertex", format!("{} never declared: {}", extra.len(), extra.join(" ")));
        } else if have.len() != want.len() {
            add("extra-vertex", format!("{} vertices for {} declared", have.len(), want.len()));
        }
    } else {
        // no two vertices of a refined mesh coincide
        for i in 0..have.len() {
            if let Some(j) = nh.find(have[i], 1e-12 * l) {
                if j != i {
                    add("extra-vertex", format!("{} twice", f(have[i])));
                    break;
                }
            }
        }
    }

    // constraints: each given segment is covered once by edges of the mesh
    let mut lost: Vec<String> = vec![];
    for (s, e) in &w.given {
        let on: Vec<usize> = used.iter().cloned().filter(|i| seg_dist(*s, *e, p(*i)) <= tol_on).collect();
        let mut ln = 0.0;
        for (ai, a) in on.iter().enumerate() {
            for b in &on[ai + 1..] {
                if adj.de.contains_key(&(*a, *b)) || adj.de.contains_key(&(*b, *a)) {
                    ln += dist(p(*a), p(*b));
                }
            }
        }
        if (ln - dist(*s, *e)).abs() > tol_len {
            lost.push(format!("{}-{}", f(*s), f(*e)));
        }
    }
    if !lost.is_empty() {
        add("segment", format!("{} segments are not edges of the mesh, e.g. {}", lost.len(), lost[0]));
    }

    // constrained Delaunay: an edge that is part of no constraint has the
    // opposite vertex not inside the circumcircle
    let mut bad: Vec<String> = vec![];
    for ((a, b), t) in adj.de.iter() {
        if a > b {
            continue;
        }
        if let Some(u) = adj.de.get(&(*b, *a)) {
            let t = m.tris[*t];
            let o = apex(&m.tris[*u], *a, *b);
            let far = t.iter().map(|v| dist(p(*v), p(o))).fold(0.0, f64::max);
            let tol_det = 1e-13 * far.powi(4).min(1.0);
            if depth(p(t[0]), p(t[1]), p(t[2]), p(o)) > 1e-9 && in_circle_det(p(t[0]), p(t[1]), p(t[2]), p(o)) > tol_det {
                let c = w.segs.iter().chain(border.iter()).any(|(s, e)| {
                    seg_dist(*s, *e, p(*a)) <= tol_on && seg_dist(*s, *e, p(*b)) <= tol_on
                });
                if !c {
                    bad.push(format!("{}-{} depth {:e}", f(p(*a)), f(p(*b)), depth(p(t[0]), p(t[1]), p(t[2]), p(o))));
                }
            }
        }
    }
    if !bad.is_empty() {
        add("delaunay", format!("{} edges are not Delaunay, e.g. {}", bad.len(), bad[0]));
    }

    // neighbour map and ghost ring
    if !m.adj_faults.is_empty() {
        add("adjacency", format!("{} faults, e.g. {}", m.adj_faults.len(), m.adj_faults[0]));
    }
    let gs: BTreeSet<(usize, usize)> = m.ghosts.iter().map(|g| (g[1], g[0])).collect();
    let rs: BTreeSet<(usize, usize)> = adj.rim.iter().cloned().collect();
    if m.malformed_ghosts > 0 || gs != rs || gs.len() != m.ghosts.len() {
        add("ghosts", format!("{} ghost triangles for {} outer edges", m.ghosts.len() + m.malformed_ghosts, rs.len()));
    }
    out
}

pub fn ratio(m: &Mesh, t: &[usize; 3]) -> f64 {
    let (a, b, c) = (m.pts[t[0]], m.pts[t[1]], m.pts[t[2]]);
    let (x, y, z) = (dist(a, b), dist(b, c), dist(c, a));
    x * y * z / (2.0 * cross(a, b, c)) / x.min(y).min(z)
}

/// The pieces of constraints that start at a corner of less than 60 degrees.
/// Refinement does not split them on behalf of a badly shaped triangle.
fn sharp_subsegments(w: &World, m: &Mesh) -> Vec<(P, P)> {
    let mut ends: Vec<(P, P)> = vec![];
    for (a, b) in w.constraints() {
        ends.push((a, b));
        ends.push((b, a));
    }
    let tol = 1e-10 * w.l;
    let dir = |e: &(P, P)| (e.1 .1 - e.0 .1).atan2(e.1 .0 - e.0 .0);
    let two = std::f64::consts::PI * 2.0;
    let mut out = vec![];
    for e in &ends {
        let sharp = ends.iter().filter(|o| dist(o.0, e.0) <= tol).any(|o| {
            let d = (dir(o) - dir(e)).rem_euclid(two);
            let d = d.min(two - d);
            d > 1e-7 && d < std::f64::consts::PI / 3.0 + 1e-6
        });
        if !sharp {
            continue;
        }
        for t in &m.tris {
            for k in 0..3 {
                let (p, q) = (m.pts[t[k]], m.pts[t[(k + 1) % 3]]);
                for (p, q) in &[(p, q), (q, p)] {
                    if dist(*p, e.0) <= tol && seg_dist(e.0, e.1, *q) <= tol {
                        out.push((*p, *q));
                    }
                }
            }
        }
    }
    out
}

/// Pieces of constraints whose diametral circle holds the vertex opposite to
/// them, which lies on no other constraint that leaves one of their ends at
/// less than 60 degrees.
fn encroached(w: &World, m: &Mesh) -> Vec<String> {
    let cs = w.constraints();
    let tol = 1e-10 * w.l;
    let mut out = vec![];
    for t in &m.tris {
        for k in 0..3 {
            let (a, b, c) = (m.pts[t[k]], m.pts[t[(k + 1) % 3]], m.pts[t[(k + 2) % 3]]);
            let cosine = ((a.0 - c.0) * (b.0 - c.0) + (a.1 - c.1) * (b.1 - c.1)) / (dist(a, c) * dist(b, c));
            if !(cosine < -1e-7) || !cs.iter().any(|(s, e)| seg_dist(*s, *e, a) <= tol && seg_dist(*s, *e, b) <= tol) {
                continue;
            }
            let beside = |p: P, q: P| cs.iter().any(|(s, e)| {
                (dist(*s, p) <= tol || dist(*e, p) <= tol) && seg_dist(*s, *e, c) <= tol && {
                    let (u, v) = ((q.0 - p.0, q.1 - p.1), (c.0 - p.0, c.1 - p.1));
                    (u.0 * v.0 + u.1 * v.1) / (dist(p, q) * dist(p, c)) > 0.5 - 1e-6
                }
            });
            if !beside(a, b) && !beside(b, a) {
                out.push(format!("{:?}-{:?} by {:?}, cosine {:e}", a, b, c, cosine));
            }
        }
    }
    out
}

/// The circumcentre of the triangle encroaches a piece at a sharp corner, or
/// lies beyond one.
fn at_sharp_corner(m: &Mesh, t: &[usize; 3], sharp: &[(P, P)]) -> bool {
    let (a, b, c) = (m.pts[t[0]], m.pts[t[1]], m.pts[t[2]]);
    let (bx, by, cx, cy) = (b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1);
    let dd = 2.0 * (bx * cy - by * cx);
    let o = (
        a.0 + (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / dd,
        a.1 + (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / dd,
    );
    let g = ((a.0 + b.0 + c.0) / 3.0, (a.1 + b.1 + c.1) / 3.0);
    sharp.iter().any(|(p, q)| {
        let inside = (o.0 - p.0) * (o.0 - q.0) + (o.1 - p.1) * (o.1 - q.1) <= 1e-9 * dist(*p, *q).powi(2);
        inside || seg_touch(*p, *q, g, o)
    })
}

pub fn quality_checks(w: &World, m: &Mesh, quality: f64, max_area: Option<f64>) -> Vec<Finding> {
    let mut out = vec![];
    if let Some(ma) = max_area {
        let n = m.tris.iter().filter(|t| tri_area2(m, t) / 2.0 > ma * (1.0 + 1e-9)).count();
        if n > 0 {
            let worst = m.tris.iter().map(|t| tri_area2(m, t) / 2.0).fold(0.0, f64::max);
            out.push(("max-area".into(), format!("{} triangles larger than {}, up to {}", n, ma, worst)));
        }
    }
    let wide = w.min_angle() >= std::f64::consts::PI / 3.0 - 1e-9;
    let enc = encroached(w, m);
    if let Some(x) = enc.first() {
        out.push(("encroached".into(), format!("{} pieces of constraints are encroached, e.g. {}", enc.len(), x)));
    }
    if quality >= if wide { 1.0 } else { std::f64::consts::SQRT_2 } {
        let bad: Vec<&[usize; 3]> = m.tris.iter().filter(|t| !(ratio(m, t) <= quality * (1.0 + 1e-9))).collect();
        let sharp = if wide || bad.is_empty() { vec![] } else { sharp_subsegments(w, m) };
        let bad: Vec<&&[usize; 3]> = bad.iter().filter(|t| !at_sharp_corner(m, t, &sharp)).collect();
        if bad.len() > 0 {
            let worst = bad.iter().map(|t| ratio(m, t)).fold(0.0, f64::max);
            out.push(("quality".into(), format!("{} triangles beyond radius-edge ratio {}, up to {}{}", bad.len(), quality, worst,
                if wide { "" } else { ", away from the sharp corners" })));
        }
    }
    out
}

/// Edges every constrained Delaunay triangulation of the same input must have:
/// border, constraints, and the interior edges that are strictly Delaunay.
/// Returned with the edges that only a tie decides.
pub fn strict_edges(m: &Mesh, pt_id: &dyn Fn(P) -> usize) -> (BTreeSet<(usize, usize)>, BTreeSet<(usize, usize)>) {
    let adj = adjacency(m);
    let (mut strict, mut tied) = (BTreeSet::new(), BTreeSet::new());
    for ((a, b), t) in adj.de.iter() {
        let (pa, pb) = (m.pts[*a], m.pts[*b]);
        let (i, j) = (pt_id(pa), pt_id(pb));
        let e = if i < j { (i, j) } else { (j, i) };
        let mut tie = false;
        if let Some(u) = adj.de.get(&(*b, *a)) {
            let t = m.tris[*t];
            let o = apex(&m.tris[*u], *a, *b);
            tie = depth(m.pts[t[0]], m.pts[t[1]], m.pts[t[2]], m.pts[o]).abs() <= 1e-7;
        }
        if tie {
            tied.insert(e);
        } else {
            strict.insert(e);
        }
    }
    (strict, tied)
}
