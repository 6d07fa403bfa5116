//! Reference model of a Triangulator's declared domain: which operations must
//! be accepted, what they must conflict with, and the state they must leave.
//! It is written from the documented contract with exact predicates, and shares
//! no code with the library. Decisions that rounding could legitimately tip are
//! answered `Ambiguous`, and end the judged part of a history.
use crate::geom::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    /// conflicting vertices (holes, vertices)
    RejectVerts(Vec<P>),
    RejectSegs(Vec<(P, P)>),
    Ambiguous,
}

#[derive(Clone, Debug)]
pub struct World {
    pub exact: bool,
    pub l: f64,
    pub boundary: Vec<P>,
    pub holes: Vec<Vec<P>>,
    pub segs: Vec<(P, P)>,
    pub verts: Vec<P>,
    /// accepted segments as they were given
    pub given: Vec<(P, P)>,
    /// computed (rounded) crossing points
    pub fuzzy: Vec<P>,
}

/// The extent of the points; far from the origin, where coordinates have fewer
/// digits, somewhat more.
pub fn span(ps: &[P]) -> f64 {
    let ext = |f: &dyn Fn(&P) -> f64| {
        let (lo, hi) = ps.iter().map(|p| f(p)).fold((f64::MAX, f64::MIN), |(l, h), v| (l.min(v), h.max(v)));
        (hi - lo).max(0.0)
    };
    ext(&|p| p.0).max(ext(&|p| p.1)) + 1e-4 * reach(ps)
}

/// The largest coordinate.
pub fn reach(ps: &[P]) -> f64 {
    ps.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max)
}

/// of the angle between the lines of two segments
fn sine(s: (P, P), t: (P, P)) -> f64 {
    let (a, b) = ((s.1 .0 - s.0 .0, s.1 .1 - s.0 .1), (t.1 .0 - t.0 .0, t.1 .1 - t.0 .1));
    ((a.0 * b.1 - a.1 * b.0) / (a.0.hypot(a.1) * b.0.hypot(b.1))).abs()
}

pub fn cmp(a: &P, b: &P) -> std::cmp::Ordering {
    a.partial_cmp(b).unwrap()
}
pub fn undirected(s: (P, P)) -> (P, P) {
    if cmp(&s.0, &s.1) == std::cmp::Ordering::Greater {
        (s.1, s.0)
    } else {
        s
    }
}
pub fn sort_p(mut v: Vec<P>) -> Vec<P> {
    v.sort_by(cmp);
    v.dedup();
    v
}
pub fn sort_s(mut v: Vec<(P, P)>) -> Vec<(P, P)> {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    In,
    On,
    Out,
    Amb,
}

impl World {
    pub fn new(boundary: &[P], exact: bool) -> World {
        World {
            exact,
            l: span(boundary),
            boundary: boundary.to_vec(),
            holes: vec![],
            segs: vec![],
            verts: vec![],
            given: vec![],
            fuzzy: vec![],
        }
    }
    fn hi(&self) -> f64 {
        1e-7 * self.l
    }
    pub fn at(&self, poly: &[P], p: P) -> At {
        if poly.contains(&p) {
            return At::On;
        }
        if !self.exact && poly_edges(poly).iter().any(|(a, b)| seg_dist(*a, *b, p) < self.hi()) {
            return At::Amb;
        }
        match point_in_poly(poly, p) {
            1 => At::In,
            0 => At::On,
            _ => At::Out,
        }
    }
    /// closed segments meet
    fn meet(&self, s: (P, P), t: (P, P)) -> Option<bool> {
        if s.0 == t.0 || s.0 == t.1 || s.1 == t.0 || s.1 == t.1 {
            return Some(true);
        }
        let fz = |p: &P| self.fuzzy.contains(p);
        if !self.exact || fz(&s.0) || fz(&s.1) || fz(&t.0) || fz(&t.1) {
            let h = self.hi();
            if seg_dist(s.0, s.1, t.0) < h
                || seg_dist(s.0, s.1, t.1) < h
                || seg_dist(t.0, t.1, s.0) < h
                || seg_dist(t.0, t.1, s.1) < h
            {
                return None;
            }
        }
        Some(seg_touch(s.0, s.1, t.0, t.1))
    }
    fn meets_any(&self, s: (P, P), es: &[(P, P)]) -> Option<bool> {
        let mut amb = false;
        for e in es {
            match self.meet(s, *e) {
                Some(true) => return Some(true),
                Some(false) => {}
                None => amb = true,
            }
        }
        if amb {
            None
        } else {
            Some(false)
        }
    }
    /// every point of the closed segment is strictly on side `want` of poly
    fn seg_strict(&self, poly: &[P], s: (P, P), want: At) -> Option<bool> {
        let m = self.meets_any(s, &poly_edges(poly));
        if m == Some(true) {
            return Some(false);
        }
        let a = self.at(poly, s.0);
        if a == At::Amb || m.is_none() {
            return None;
        }
        Some(a == want)
    }
    fn on(&self, s: (P, P), p: P) -> Option<bool> {
        if p == s.0 || p == s.1 {
            return Some(true);
        }
        if self.exact && !self.fuzzy.contains(&s.0) && !self.fuzzy.contains(&s.1) {
            return Some(on_segment(s.0, s.1, p));
        }
        // a piece of a crossed segment: p is a lattice point, so either on it
        // up to rounding or well off
        let d = seg_dist(s.0, s.1, p);
        if d > 1e-6 * self.l {
            Some(false)
        } else if self.exact && d < 1e-11 * self.l && !self.near_fuzzy(p) {
            Some(true)
        } else {
            None
        }
    }
    fn near_fuzzy(&self, p: P) -> bool {
        self.fuzzy.iter().any(|f| dist(*f, p) < 1e-6 * self.l)
    }

    pub fn insert_vertices(&mut self, vs: &[P]) -> Verdict {
        let mut bad = vec![];
        for v in vs {
            if self.near_fuzzy(*v) {
                return Verdict::Ambiguous;
            }
            let mut b = match self.at(&self.boundary, *v) {
                At::In => false,
                At::Amb => return Verdict::Ambiguous,
                _ => true,
            };
            for h in &self.holes {
                match self.at(h, *v) {
                    At::Out => {}
                    At::Amb => return Verdict::Ambiguous,
                    _ => b = true,
                }
            }
            if b {
                bad.push(*v);
            }
        }
        if !bad.is_empty() {
            return Verdict::RejectVerts(sort_p(bad));
        }
        let mut w = self.clone();
        for v in vs {
            let mut on_any = false;
            let mut segs = vec![];
            for s in &w.segs {
                match w.on(*s, *v) {
                    None => return Verdict::Ambiguous,
                    Some(false) => segs.push(*s),
                    Some(true) => {
                        on_any = true;
                        if *v == s.0 || *v == s.1 {
                            segs.push(*s);
                        } else {
                            segs.push((s.0, *v));
                            segs.push((*v, s.1));
                        }
                    }
                }
            }
            w.segs = segs;
            if !on_any {
                w.verts.push(*v);
            }
        }
        w.verts = sort_p(w.verts);
        *self = w;
        Verdict::Accept
    }

    pub fn insert_segments(&mut self, es: &[(P, P)]) -> Verdict {
        let mut bad = vec![];
        for e in es {
            if self.fuzzy.iter().any(|f| seg_dist(e.0, e.1, *f) < 1e-6 * self.l) {
                return Verdict::Ambiguous;
            }
            let mut b = match self.seg_strict(&self.boundary, *e, At::In) {
                None => return Verdict::Ambiguous,
                Some(x) => !x,
            };
            for h in &self.holes {
                match self.seg_strict(h, *e, At::Out) {
                    None => return Verdict::Ambiguous,
                    Some(x) => b = b || !x,
                }
            }
            if b {
                bad.push(*e);
            }
        }
        if !bad.is_empty() {
            return Verdict::RejectSegs(sort_s(bad));
        }
        if es.is_empty() {
            return Verdict::Accept;
        }
        // arrangement of old pieces and new segments
        let mut w = self.clone();
        let all: Vec<(P, P)> = w.segs.iter().chain(es.iter()).cloned().collect();
        let mut out: Vec<(P, P)> = vec![];
        let mut crossings: Vec<P> = vec![];
        for (i, s) in all.iter().enumerate() {
            let mut cuts: Vec<P> = vec![];
            for (j, t) in all.iter().enumerate() {
                if i == j {
                    continue;
                }
                let mut shared = false;
                for p in &[t.0, t.1] {
                    match w.on(*s, *p) {
                        None => return Verdict::Ambiguous,
                        Some(true) => {
                            cuts.push(*p);
                            shared = true;
                        }
                        Some(false) => {}
                    }
                }
                for p in &[s.0, s.1] {
                    match w.on(*t, *p) {
                        None => return Verdict::Ambiguous,
                        Some(true) => shared = true,
                        Some(false) => {}
                    }
                }
                if shared {
                    continue;
                }
                match w.meet(*s, *t) {
                    None => return Verdict::Ambiguous,
                    Some(false) => {}
                    Some(true) => {
                        let c = if i < j { cross_point(*s, *t) } else { cross_point(*t, *s) };
                        // at a narrow angle a crossing is only as sharp as its segments
                        let sine = sine(*s, *t);
                        let blur = 4.0 * f64::EPSILON * reach(&[s.0, s.1, t.0, t.1]) / sine;
                        let crowded = |c: P| {
                            w.verts.iter().any(|v| dist(*v, c) < w.hi())
                                || all.iter().enumerate().any(|(k, u)| k != i && k != j && seg_dist(u.0, u.1, c) < w.hi())
                        };
                        if blur > 1e-10 * w.l || sine < 4e-3 && crowded(c) {
                            return Verdict::Ambiguous;
                        }
                        let c = match crossings.iter().find(|q| dist(**q, c) < 1e-9 * w.l) {
                            Some(q) => *q,
                            None => {
                                crossings.push(c);
                                c
                            }
                        };
                        cuts.push(c);
                    }
                }
            }
            for v in &w.verts {
                match w.on(*s, *v) {
                    None => return Verdict::Ambiguous,
                    Some(true) => cuts.push(*v),
                    Some(false) => {}
                }
            }
            cuts.push(s.0);
            cuts.push(s.1);
            cuts.sort_by(|a, b| dist(s.0, *a).partial_cmp(&dist(s.0, *b)).unwrap());
            // a computed crossing at an existing point is that point
            let mut c2: Vec<P> = vec![];
            for c in cuts {
                match c2.last() {
                    Some(q) if dist(*q, c) < 1e-9 * w.l => {
                        if crossings.contains(q) && !crossings.contains(&c) {
                            *c2.last_mut().unwrap() = c;
                        }
                    }
                    _ => c2.push(c),
                }
            }
            for k in 1..c2.len() {
                out.push(undirected((c2[k - 1], c2[k])));
            }
        }
        let mut vs = vec![];
        for v in &w.verts {
            let mut on = false;
            for e in es {
                match w.on(*e, *v) {
                    None => return Verdict::Ambiguous,
                    Some(x) => on = on || x,
                }
            }
            if !on {
                vs.push(*v);
            }
        }
        w.verts = vs;
        w.segs = sort_s(out);
        w.given.extend(es.iter());
        let used: Vec<P> = w.segs.iter().flat_map(|s| vec![s.0, s.1]).collect();
        w.fuzzy.extend(crossings.into_iter().filter(|c| used.contains(c)));
        *self = w;
        Verdict::Accept
    }

    /// closed polygons a and b have no point in common
    fn apart(&self, a: &[P], b: &[P]) -> Option<bool> {
        let eb = poly_edges(b);
        let mut amb = false;
        for e in poly_edges(a) {
            match self.meets_any(e, &eb) {
                Some(true) => return Some(false),
                Some(false) => {}
                None => amb = true,
            }
        }
        if amb {
            return None;
        }
        match (self.at(a, b[0]), self.at(b, a[0])) {
            (At::Out, At::Out) => Some(true),
            (At::Amb, _) | (_, At::Amb) => None,
            _ => Some(false),
        }
    }

    pub fn insert_hole(&mut self, h: &[P]) -> Verdict {
        if poly_edges(h).iter().any(|e| self.fuzzy.iter().any(|f| seg_dist(e.0, e.1, *f) < 1e-6 * self.l)) {
            return Verdict::Ambiguous;
        }
        let mut bad: Vec<P> = vec![];
        let mut inside = Some(true);
        for e in poly_edges(h) {
            match self.seg_strict(&self.boundary, e, At::In) {
                Some(true) => {}
                Some(false) => {
                    inside = Some(false);
                    break;
                }
                None => inside = None,
            }
        }
        match inside {
            None => return Verdict::Ambiguous,
            Some(true) => {}
            Some(false) => bad.extend(self.boundary.iter()),
        }
        for o in &self.holes {
            match self.apart(o, h) {
                None => return Verdict::Ambiguous,
                Some(true) => {}
                Some(false) => bad.extend(o.iter()),
            }
        }
        if !bad.is_empty() {
            return Verdict::RejectVerts(sort_p(bad));
        }
        for s in &self.segs {
            match self.seg_strict(h, *s, At::Out) {
                None => return Verdict::Ambiguous,
                Some(true) => {}
                Some(false) => {
                    bad.push(s.0);
                    bad.push(s.1);
                }
            }
        }
        if !bad.is_empty() {
            return Verdict::RejectVerts(sort_p(bad));
        }
        let mut vs = vec![];
        for v in &self.verts {
            match self.at(h, *v) {
                At::Out => vs.push(*v),
                At::Amb => return Verdict::Ambiguous,
                _ => {}
            }
        }
        self.verts = vs;
        self.holes.push(h.to_vec());
        Verdict::Accept
    }

    pub fn area(&self) -> f64 {
        (area2(&self.boundary) - self.holes.iter().map(|h| area2(h)).sum::<f64>()) / 2.0
    }
    /// vertices that every mesh of this domain must have
    pub fn required(&self) -> Vec<P> {
        let mut v: Vec<P> = self.boundary.to_vec();
        for h in &self.holes {
            v.extend(h.iter());
        }
        for s in &self.segs {
            v.push(s.0);
            v.push(s.1);
        }
        v.extend(self.verts.iter());
        sort_p(v)
    }
    /// directed so that the domain lies to the left
    pub fn border(&self) -> Vec<(P, P)> {
        let mut e = poly_edges(&self.boundary);
        for h in &self.holes {
            e.extend(poly_edges(h).iter().map(|(a, b)| (*b, *a)));
        }
        e
    }
    pub fn constraints(&self) -> Vec<(P, P)> {
        self.border().into_iter().chain(self.segs.iter().cloned()).collect()
    }
    /// smallest angle between two constraints that share an end (radians)
    pub fn min_angle(&self) -> f64 {
        let cons = self.constraints();
        let mut at: std::collections::BTreeMap<(u64, u64), (P, Vec<f64>)> = Default::default();
        for (a, b) in cons {
            for (p, q) in &[(a, b), (b, a)] {
                let e = at.entry(((p.0 + 0.0).to_bits(), (p.1 + 0.0).to_bits())).or_insert((*p, vec![]));
                e.1.push((q.1 - p.1).atan2(q.0 - p.0));
            }
        }
        let two = std::f64::consts::PI * 2.0;
        let mut m = two;
        for (_, (_, mut v)) in at {
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for i in 0..v.len() {
                let d = if i + 1 < v.len() { v[i + 1] - v[i] } else { v[0] + two - v[i] };
                m = m.min(d);
            }
        }
        m
    }
}

pub fn cross_point(s: (P, P), t: (P, P)) -> P {
    let (dx, dy) = (s.1 .0 - s.0 .0, s.1 .1 - s.0 .1);
    let (ex, ey) = (t.1 .0 - t.0 .0, t.1 .1 - t.0 .1);
    let (fx, fy) = (t.0 .0 - s.0 .0, t.0 .1 - s.0 .1);
    let k = (fx * ey - fy * ex) / (dx * ey - dy * ex);
    (s.0 .0 + k * dx, s.0 .1 + k * dy)
}
