//! Chains of polyline operations, each under its own schedule key, against
//! point sets.
use crate::case::*;
use crate::gen;
use crate::genlib;
use crate::geom::*;
use crate::region::*;
use crate::rng::*;
use crate::scen::*;
use nlsn_delaunay::elements::polyline::Polyline;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum PolyOp {
    Union(Vec<P>),
    Subtract(Vec<P>),
    /// the other one minus the current one
    SubtractFrom(Vec<P>),
    Intersect(Vec<P>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Poly {
    pub base: Vec<P>,
    pub steps: Vec<(Key, PolyOp)>,
}

fn other(o: &PolyOp) -> &Vec<P> {
    match o {
        PolyOp::Union(q) | PolyOp::Subtract(q) | PolyOp::SubtractFrom(q) | PolyOp::Intersect(q) => q,
    }
}
fn other_mut(o: &mut PolyOp) -> &mut Vec<P> {
    match o {
        PolyOp::Union(q) | PolyOp::Subtract(q) | PolyOp::SubtractFrom(q) | PolyOp::Intersect(q) => q,
    }
}

fn shape(r: &mut Rng, n: i64) -> Vec<P> {
    loop {
        let m = r.range((n / 3).max(2), n);
        let p = match r.below(7) {
            0 => gen::rect(r, m),
            1 => gen::rectilinear(r, m),
            2 => {
                let k = r.range(3, 12) as usize;
                gen::convex(r, m, k)
            }
            3 => {
                let k = r.range(4, 12) as usize;
                gen::star(r, m, k)
            }
            4 => {
                let q = gen::rectilinear(r, m);
                gen::subdivide(r, &q, 0.4)
            }
            5 => {
                let q = gen::rect(r, m);
                gen::subdivide(r, &q, 0.4)
            }
            _ => {
                let h = hull((0..3).map(|_| gen::lattice(r, m)).collect());
                h
            }
        };
        if p.len() >= 3 && simple(&p) && area2(&p) > 0.0 {
            return gen::rot(r, p);
        }
    }
}

pub fn gen(r: &mut Rng) -> Poly {
    let n = *r.pick(&[4, 6, 10, 16, 24]);
    let base = shape(r, n);
    let k = *r.pick(&[1, 1, 1, 2, 3, 4, 5]);
    let mut steps = vec![];
    for i in 0..k {
        let m = if r.chance(0.5) { n } else { (n / 2).max(3) };
        let mut q = shape(r, m);
        let reach = if r.chance(0.2) { n } else { (n / 2).max(1) };
        let (dx, dy) = (r.range(-reach, reach) as f64, r.range(-reach, reach) as f64);
        q.iter_mut().for_each(|p| {
            p.0 += dx;
            p.1 += dy;
        });
        if r.chance(0.08) {
            // something of the polyline itself: one vertex moved, or none
            q = base.clone();
            let j = r.below(q.len() as u64) as usize;
            let p = (q[j].0 + r.range(-2, 2) as f64, q[j].1 + r.range(-2, 2) as f64);
            q[j] = p;
            if !simple(&q) || area2(&q) <= 0.0 {
                q = gen::rot(r, base.clone());
            }
        } else if r.chance(0.1) {
            // against one of its edges, from outside
            let j = r.below(base.len() as u64) as usize;
            let (a, b) = (base[j], base[(j + 1) % base.len()]);
            let d = (b.1 - a.1, a.0 - b.0);
            q = vec![a, (a.0 + d.0, a.1 + d.1), (b.0 + d.0, b.1 + d.1), b];
        }
        let op = match r.below(7) {
            0 | 1 => PolyOp::Union(q),
            2 | 3 => PolyOp::Subtract(q),
            4 if i + 1 == k => PolyOp::SubtractFrom(q),
            4 | 5 => PolyOp::Intersect(q),
            _ => PolyOp::Union(q),
        };
        steps.push((genlib::key(r), op));
    }
    let mut c = Poly { base, steps };
    match r.below(10) {
        0..=4 => {}
        5 | 6 => {
            let k = *r.pick(&[0.125, 0.5, 2.0, 32.0]);
            let off = (r.range(-400, 400) as f64 * 0.5, r.range(-400, 400) as f64 * 0.25);
            map(&mut c, &|p: P| (p.0 * k + off.0, p.1 * k + off.1));
        }
        _ => {
            let th = r.range(1, 1000) as f64 / 100.0;
            let k = *r.pick(&[0.1, 1.0, 3.7, 20.0]);
            let off = (r.range(-100, 100) as f64 / 7.0, r.range(-100, 100) as f64 / 3.0);
            let (cs, sn) = (th.cos(), th.sin());
            map(&mut c, &|p: P| (k * (p.0 * cs - p.1 * sn) + off.0, k * (p.0 * sn + p.1 * cs) + off.1));
        }
    }
    if r.chance(0.2) {
        // -0.0 and 0.0 are the same number
        let g = std::cell::RefCell::new(Rng::new(r.next()));
        let sign = |x: f64| if x == 0.0 && g.borrow_mut().chance(0.5) { -x } else { x };
        map(&mut c, &|p: P| (sign(p.0), sign(p.1)));
    }
    c
}

fn map(c: &mut Poly, g: &dyn Fn(P) -> P) {
    c.base.iter_mut().for_each(|p| *p = g(*p));
    for (_, o) in c.steps.iter_mut() {
        other_mut(o).iter_mut().for_each(|p| *p = g(*p));
    }
}

struct Got {
    union: Option<Vec<P>>,
    list: Vec<Vec<P>>,
    unused: Vec<(P, P)>,
    touch: Vec<P>,
    inside: Option<String>,
}

fn exec(op: &PolyOp, p: &[P], key: Key) -> Result<Got, String> {
    let (op, p) = (op.clone(), p.to_vec());
    on_thread(key, move || {
        let x = closed(&p).unwrap();
        let y = closed(other(&op)).unwrap();
        let pv = |p: &Polyline| p.vertices.iter().map(|v| (v.x, v.y)).collect::<Vec<P>>();
        let mut g = Got { union: None, list: vec![], unused: vec![], touch: vec![], inside: None };
        let unused = match op {
            PolyOp::Union(_) => match Polyline::union(&x, &y) {
                Some((u, s)) => {
                    g.union = Some(pv(&u));
                    s
                }
                None => Default::default(),
            },
            PolyOp::Subtract(_) => {
                let (l, s) = Polyline::subtraction(&x, &y);
                g.list = l.iter().map(|p| pv(p)).collect();
                s
            }
            PolyOp::SubtractFrom(_) => {
                let (l, s) = Polyline::subtraction(&y, &x);
                g.list = l.iter().map(|p| pv(p)).collect();
                s
            }
            PolyOp::Intersect(_) => {
                let (l, s) = Polyline::intersection(&x, &y);
                g.list = l.iter().map(|p| pv(p)).collect();
                s
            }
        };
        g.unused = unused.iter().map(|(a, b)| ((a.x, a.y), (b.x, b.y))).collect();
        g.touch = Polyline::intersection_vertices(&x, &y).iter().map(|v| (v.x, v.y)).collect();
        g.inside = Polyline::continence(&x, &y).map(|c| format!("{:?}", c));
        g
    })
}

fn inn(p: &[P], x: P) -> bool {
    point_in_poly(p, x) > 0
}

/// closed, not crossing itself, nowhere flat or doubled back
fn weakly_simple(p: &[P]) -> bool {
    let e = poly_edges(p);
    for i in 0..e.len() {
        if dist(e[i].0, e[i].1) < 1e-12 {
            return false;
        }
        for j in 0..i {
            if seg_cross(e[i].0, e[i].1, e[j].0, e[j].1) && crossing(e[i].0, e[i].1, e[j].0, e[j].1).map(|x| p.iter().all(|v| dist(*v, x) > 1e-9)).unwrap_or(false) {
                return false;
            }
            if (e[i].0 == e[j].0 && e[i].1 == e[j].1) || (e[i].0 == e[j].1 && e[i].1 == e[j].0) {
                return false;
            }
        }
    }
    true
}

/// runs of vertices not further than their rounding from one line are one side
pub fn judge(c: &Poly) -> Report {
    let mut rep = Report::default();
    let mut dg = Digest::new();
    let mut p = c.base.clone();
    let t0 = crate::seam::ticks();
    for (i, (key, op)) in c.steps.iter().enumerate() {
        let q = other(op);
        let scale = p.iter().chain(q.iter()).map(|x| x.0.abs().max(x.1.abs())).fold(0.0, f64::max);
        let size = {
            let xs = |k: usize| p.iter().chain(q.iter()).map(move |x| if k == 0 { x.0 } else { x.1 });
            (0..2).map(|k| xs(k).fold(-1e300, f64::max) - xs(k).fold(1e300, f64::min)).fold(0.0, f64::max)
        };
        let edges: Vec<(P, P)> = poly_edges(&p).into_iter().chain(poly_edges(q)).collect();
        // close but apart, or a crossing close to a corner: rounding decides
        let tol = 1e-7 * size.max(0.01) + 1e-12 * scale;
        let cross: Vec<P> = nodes(&edges);
        let too_close = nearly(&p, q, tol)
            || (0..cross.len()).any(|a| (0..a).any(|b| dist(cross[a], cross[b]) < 4.0 * tol))
            || cross.iter().any(|x| edges.iter().any(|(a, b)| {
                let d = seg_dist(*a, *b, *x);
                d < 2.0 * tol && d > 1e-9 * size.max(0.01)
            }));
        if too_close {
            rep.tag("ambiguous_end");
            break;
        }
        let (a, b) = (p.clone(), q.clone());
        let name = match op {
            PolyOp::Union(_) => "union",
            PolyOp::Subtract(_) => "subtract",
            PolyOp::SubtractFrom(_) => "subtract",
            PolyOp::Intersect(_) => "intersect",
        };
        rep.tag(name);
        let pred: Box<dyn Fn(P) -> bool> = match op {
            PolyOp::Union(_) => Box::new(move |x| inn(&a, x) || inn(&b, x)),
            PolyOp::Subtract(_) => Box::new(move |x| inn(&a, x) && !inn(&b, x)),
            PolyOp::SubtractFrom(_) => Box::new(move |x| !inn(&a, x) && inn(&b, x)),
            PolyOp::Intersect(_) => Box::new(move |x| inn(&a, x) && inn(&b, x)),
        };
        let g = match exec(op, &p, *key) {
            Ok(g) => g,
            Err(m) => {
                rep.add("panic", i, format!("panicked: {}", m));
                dg.str("panic");
                break;
            }
        };
        let reg = Region::new(&edges, &*pred);
        let area = reg.area();
        let parts = reg.parts();
        let voids = reg.voids();
        let pinch = pinches(&edges, &*pred);
        if pinch > 0 {
            rep.tag("pinched");
        }
        let touching = poly_edges(&p).iter().any(|(a, b)| poly_edges(q).iter().any(|(s, t)| seg_touch(*a, *b, *s, *t)));
        rep.tag(if !touching { "apart_or_nested" } else if nodes(&edges).len() == p.len() + q.len() { "touching" } else { "crossing" });
        let (outer, inner) = match op {
            PolyOp::SubtractFrom(_) => (q.clone(), p.clone()),
            _ => (p.clone(), q.clone()),
        };
        let inner_in_outer = !touching && inn(&outer, inner[0]);
        let is_union = if let PolyOp::Union(_) = op { true } else { false };
        let result: Vec<Vec<P>> = if is_union { g.union.iter().cloned().collect() } else { g.list.clone() };
        for l in &result {
            dg.u64(l.len() as u64);
            // where a loop starts is the schedule's choice
            for x in l {
                dg.f64(x.0);
                dg.f64(x.1);
            }
        }
        dg.u64(crate::seam::ticks());
        // where the documentation leaves the result empty
        let empty_ok = match op {
            PolyOp::Union(_) => parts != 1 || pinch > 0,
            PolyOp::Subtract(_) | PolyOp::SubtractFrom(_) => area < 1e-9 || inner_in_outer || (!touching && !inn(&outer, inner[0]) && !inn(&inner, outer[0])),
            PolyOp::Intersect(_) => area < 1e-9,
        };
        let must_be_empty = match op {
            // two that meet in several points only may be joined around the void
            PolyOp::Union(_) => parts != 1 && !(pinch > 1 && !voids.is_empty()),
            PolyOp::Subtract(_) | PolyOp::SubtractFrom(_) => area < 1e-9 || inner_in_outer,
            PolyOp::Intersect(_) => area < 1e-9,
        };
        if result.is_empty() {
            if !empty_ok {
                rep.add(name, i, format!("nothing, expected an area of {} in {} parts", area, parts));
                break;
            }
            rep.tag("empty_result");
            continue;
        }
        if must_be_empty {
            rep.add(name, i, format!("{} polylines where there should be none", result.len()));
            break;
        }
        rep.tag("results");
        let void_set: std::collections::HashSet<usize> = if is_union { voids.iter().cloned().collect() } else { Default::default() };
        let mut bad = None;
        for (k, f) in reg.faces.iter().enumerate() {
            if f.outer || f.width < 20.0 * tol {
                continue;
            }
            let want = reg.inside[k] || void_set.contains(&k);
            let n = result.iter().filter(|l| inn(l, f.at)).count();
            if (want && n != 1) || (!want && n != 0) {
                bad = Some(format!("({},{}) lies in {} of the polylines, expected {}", f.at.0, f.at.1, n, want as u8));
                break;
            }
        }
        let want_area: f64 = area + void_set.iter().map(|k| reg.faces[*k].area).sum::<f64>();
        let got_area: f64 = result.iter().map(|l| area2(l) / 2.0).sum();
        if bad.is_none() && (want_area - got_area).abs() > 1e-6 * size * size {
            bad = Some(format!("area {}, expected {}", got_area, want_area));
        }
        for l in &result {
            if bad.is_some() {
                break;
            }
            if area2(l) <= 0.0 {
                bad = Some(format!("a clockwise polyline {:?}", l));
            } else if !weakly_simple(l) {
                bad = Some(format!("a polyline that crosses itself {:?}", l));
            } else if let Some(v) = l.iter().find(|v| !cross.iter().any(|x| dist(*x, **v) < 1e-8 * size.max(0.01) + 1e-12 * scale)) {
                bad = Some(format!("({},{}) is no vertex and no crossing", v.0, v.1));
            }
        }
        if bad.is_none() && pinch == 0 && voids.is_empty() && result.len() != parts {
            bad = Some(format!("{} polylines, expected {}", result.len(), parts));
        }
        // what is left over is not in use
        if bad.is_none() {
            for (a, b) in &g.unused {
                if result.iter().any(|l| poly_edges(l).contains(&(*a, *b))) {
                    bad = Some(format!("({},{})-({},{}) is both in use and left over", a.0, a.1, b.0, b.1));
                    break;
                }
            }
        }
        if let Some(m) = bad {
            rep.add(name, i, m);
            break;
        }
        // points both borders share
        let near = 1e-8 * size.max(0.01) + 1e-12 * scale;
        let on = |l: &[P], x: P| poly_edges(l).iter().any(|(a, b)| seg_dist(*a, *b, x) < near);
        if let Some(x) = g.touch.iter().find(|x| !on(&p, **x) || !on(q, **x)) {
            rep.add("contact", i, format!("({},{}) is not on both borders", x.0, x.1));
            break;
        }
        for (a, b) in poly_edges(&p) {
            for (s, t) in poly_edges(q) {
                if let Some(x) = crossing(a, b, s, t) {
                    if !g.touch.iter().any(|y| dist(x, *y) < near) {
                        rep.add("contact", i, format!("the crossing ({},{}) is missing", x.0, x.1));
                    }
                }
            }
        }
        // go on with what came out, if it is one plain polygon
        if result.len() == 1 && pinch == 0 && simple(&result[0]) {
            p = result[0].clone();
            rep.tag("chained");
        }
    }
    rep.ticks = crate::seam::ticks() - t0;
    rep.digest = dg.0;
    rep
}

fn good(h: &[P]) -> bool {
    h.len() >= 3 && simple(h) && area2(h) > 0.0
}

pub fn shrink(c: &Poly) -> Vec<Poly> {
    let mut out = vec![];
    for i in 0..c.steps.len() {
        if c.steps.len() > 1 {
            let mut t = c.clone();
            t.steps.remove(i);
            out.push(t);
        }
    }
    for k in 0..c.base.len() {
        let mut t = c.clone();
        t.base.remove(k);
        out.push(t);
    }
    for i in 0..c.steps.len() {
        for k in 0..other(&c.steps[i].1).len() {
            let mut t = c.clone();
            other_mut(&mut t.steps[i].1).remove(k);
            out.push(t);
        }
        if c.steps[i].0 != (0, 0) {
            let mut t = c.clone();
            t.steps[i].0 = (0, 0);
            out.push(t);
        }
    }
    out.retain(|t| good(&t.base) && t.steps.iter().all(|s| good(other(&s.1))));
    out
}
