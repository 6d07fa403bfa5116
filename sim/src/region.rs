//! Point sets bounded by straight edges: vertical slabs cut at every end and
//! crossing, so that no edge ends or crosses inside a slab. Areas, components
//! and sample points of any predicate that only changes across the edges.
use crate::geom::*;

const EPS: f64 = 1e-9;

#[derive(Clone, Debug)]
pub struct Face {
    /// a point inside
    pub at: P,
    pub area: f64,
    pub outer: bool,
    slab: usize,
    /// lower and upper y at both walls
    lo: (f64, f64),
    hi: (f64, f64),
    /// thinnest extent
    pub width: f64,
}

pub fn crossing(a: P, b: P, c: P, d: P) -> Option<P> {
    if !seg_cross(a, b, c, d) {
        return None;
    }
    let (r, s) = ((b.0 - a.0, b.1 - a.1), (d.0 - c.0, d.1 - c.1));
    let den = r.0 * s.1 - r.1 * s.0;
    let t = ((c.0 - a.0) * s.1 - (c.1 - a.1) * s.0) / den;
    Some((a.0 + t * r.0, a.1 + t * r.1))
}

/// ends and crossings, each once
pub fn nodes(edges: &[(P, P)]) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    let mut put = |p: P| {
        if !v.iter().any(|q| dist(*q, p) < EPS) {
            v.push(p);
        }
    };
    for (i, e) in edges.iter().enumerate() {
        put(e.0);
        put(e.1);
        for f in &edges[..i] {
            if let Some(p) = crossing(e.0, e.1, f.0, f.1) {
                put(p);
            }
        }
    }
    v
}

pub fn faces(edges: &[(P, P)]) -> Vec<Face> {
    let ns = nodes(edges);
    let mut xs: Vec<f64> = ns.iter().map(|p| p.0).collect();
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut ux: Vec<f64> = vec![];
    for x in xs {
        if ux.last().map(|l| x - l > EPS).unwrap_or(true) {
            ux.push(x);
        }
    }
    let big = 1e6;
    let mut out = vec![];
    let mut slab = 0;
    out.push(Face { at: (ux[0] - 1.0, 0.0), area: 0.0, outer: true, slab, lo: (-big, -big), hi: (big, big), width: 1.0 });
    for w in ux.windows(2) {
        slab += 1;
        let (x0, x1) = (w[0], w[1]);
        let xm = (x0 + x1) / 2.0;
        let y = |e: &(P, P), x: f64| e.0 .1 + (x - e.0 .0) / (e.1 .0 - e.0 .0) * (e.1 .1 - e.0 .1);
        let mut es: Vec<&(P, P)> = edges
            .iter()
            .filter(|e| {
                let (l, h) = (e.0 .0.min(e.1 .0), e.0 .0.max(e.1 .0));
                h - l > EPS && l <= x0 + EPS && h >= x1 - EPS
            })
            .collect();
        es.sort_by(|a, b| y(a, xm).partial_cmp(&y(b, xm)).unwrap());
        let mut lines: Vec<(f64, f64)> = vec![(-big, -big)];
        for e in es {
            lines.push((y(e, x0), y(e, x1)));
        }
        lines.push((big, big));
        for k in 0..lines.len() - 1 {
            let (lo, hi) = (lines[k], lines[k + 1]);
            let (ylo, yhi) = ((lo.0 + lo.1) / 2.0, (hi.0 + hi.1) / 2.0);
            if yhi - ylo < EPS {
                continue;
            }
            let outer = k == 0 || k == lines.len() - 2;
            let ym = if lines.len() == 2 {
                0.0
            } else if k == 0 {
                yhi - 1.0
            } else if k == lines.len() - 2 {
                ylo + 1.0
            } else {
                (ylo + yhi) / 2.0
            };
            let area = if outer { 0.0 } else { (x1 - x0) * (yhi - ylo) };
            out.push(Face { at: (xm, ym), area, outer, slab, lo, hi, width: (x1 - x0).min(yhi - ylo) });
        }
    }
    let xl = *ux.last().unwrap();
    out.push(Face { at: (xl + 1.0, 0.0), area: 0.0, outer: true, slab: slab + 1, lo: (-big, -big), hi: (big, big), width: 1.0 });
    out
}

pub struct Region {
    pub faces: Vec<Face>,
    pub inside: Vec<bool>,
    pub comp: Vec<usize>,
}

impl Region {
    pub fn new(edges: &[(P, P)], f: &dyn Fn(P) -> bool) -> Region {
        let fs = faces(edges);
        let inside: Vec<bool> = fs.iter().map(|x| !x.outer && f(x.at)).collect();
        let mut up: Vec<usize> = (0..fs.len()).collect();
        fn root(up: &mut Vec<usize>, i: usize) -> usize {
            let mut i = i;
            while up[i] != i {
                up[i] = up[up[i]];
                i = up[i];
            }
            i
        }
        for i in 0..fs.len() {
            for j in 0..i {
                if inside[i] != inside[j] {
                    continue;
                }
                let (a, b) = (&fs[j], &fs[i]);
                let touch = if a.slab == b.slab {
                    // consecutive faces of one slab share an edge
                    (a.hi == b.lo || b.hi == a.lo) || (a.hi.0 - b.lo.0).abs() + (a.hi.1 - b.lo.1).abs() < EPS
                } else if a.slab + 1 == b.slab {
                    a.hi.1.min(b.hi.0) - a.lo.1.max(b.lo.0) > EPS
                } else {
                    false
                };
                if touch {
                    let (x, y) = (root(&mut up, i), root(&mut up, j));
                    up[x] = y;
                }
            }
        }
        let comp = (0..fs.len()).map(|i| root(&mut up, i)).collect();
        Region { faces: fs, inside, comp }
    }
    pub fn area(&self) -> f64 {
        self.faces.iter().zip(&self.inside).filter(|(_, i)| **i).map(|(f, _)| f.area).sum()
    }
    /// components of the inside
    pub fn parts(&self) -> usize {
        let mut c: Vec<usize> = (0..self.faces.len())
            .filter(|i| self.inside[*i] && self.faces[*i].area > EPS)
            .map(|i| self.comp[i])
            .collect();
        c.sort();
        c.dedup();
        c.len()
    }
    /// faces outside that no path outside leads away from
    pub fn voids(&self) -> Vec<usize> {
        let o = self.comp[0];
        (0..self.faces.len()).filter(|i| !self.inside[*i] && self.comp[*i] != o && !self.faces[*i].outer).collect()
    }
}

/// nodes around which the region comes and goes more than once
pub fn pinches(edges: &[(P, P)], f: &dyn Fn(P) -> bool) -> usize {
    let eps = 1e-6;
    let mut n = 0;
    for v in nodes(edges) {
        let mut dirs: Vec<f64> = vec![];
        for (a, b) in edges {
            if seg_dist(*a, *b, v) > EPS {
                continue;
            }
            for q in [a, b].iter() {
                if dist(**q, v) > 2.0 * EPS {
                    dirs.push((q.1 - v.1).atan2(q.0 - v.0));
                }
            }
        }
        dirs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut seen: Vec<bool> = vec![];
        for k in 0..dirs.len() {
            let a = dirs[k];
            let b = if k + 1 < dirs.len() { dirs[k + 1] } else { dirs[0] + 2.0 * std::f64::consts::PI };
            if b - a > 1e-6 {
                let m = (a + b) / 2.0;
                seen.push(f((v.0 + eps * m.cos(), v.1 + eps * m.sin())));
            }
        }
        let turns = (0..seen.len()).filter(|k| seen[*k] != seen[(*k + 1) % seen.len()]).count();
        if turns > 2 {
            n += 1;
        }
    }
    n
}

/// a vertex of one is near the border of the other, but not exactly on it
pub fn nearly(a: &[P], b: &[P], tol: f64) -> bool {
    let one = |a: &[P], b: &[P]| {
        a.iter().any(|p| poly_edges(b).iter().any(|(s, t)| seg_dist(*s, *t, *p) < tol && !on_segment(*s, *t, *p)))
    };
    one(a, b) || one(b, a)
}
