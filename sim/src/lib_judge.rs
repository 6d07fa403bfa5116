//! Judges one simulated history of the Triangulator against the model.
use crate::case::*;
use crate::geom::*;
use crate::oracle::*;
use crate::rng::*;
use crate::scen::*;
use crate::world::*;

pub fn short_panic(m: &str) -> String {
    format!("panicked: {}", m)
}

/// model-side effect of an operation
pub fn model(w: &mut World, op: &Op) -> Option<Verdict> {
    match op {
        Op::Hole(h) => Some(w.insert_hole(h)),
        Op::Segments(s) => Some(w.insert_segments(s)),
        Op::Vertices(v) => Some(w.insert_vertices(v)),
        _ => None,
    }
}

fn same_p(a: &[P], b: &[P], tol: f64) -> bool {
    a.len() == b.len() && a.iter().all(|p| b.iter().any(|q| (p.0 - q.0).abs() <= tol && (p.1 - q.1).abs() <= tol))
}
fn near(a: P, b: P, tol: f64) -> bool {
    (a.0 - b.0).abs() <= tol && (a.1 - b.1).abs() <= tol
}
fn same_s(a: &[(P, P)], b: &[(P, P)], tol: f64) -> bool {
    let within = |x: &[(P, P)], y: &[(P, P)]| {
        x.iter().all(|s| {
            y.iter().any(|t| (near(s.0, t.0, tol) && near(s.1, t.1, tol)) || (near(s.0, t.1, tol) && near(s.1, t.0, tol)))
        })
    };
    a.len() == b.len() && within(a, b) && within(b, a)
}
/// the same closed loop, wherever it starts
fn same_loop(a: &[P], b: &[P]) -> bool {
    a.len() == b.len() && (0..a.len()).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i]))
}
fn same_loops(a: &[Vec<P>], b: &[Vec<P>]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| same_loop(x, y)))
}

fn state_diff(w: &World, o: &Obs) -> Option<String> {
    let tol = if w.exact && w.fuzzy.is_empty() { 1e-11 * w.l } else { 1e-9 * w.l };
    if !same_loop(&w.boundary, &o.boundary) {
        return Some(format!("boundary became {:?}", o.boundary));
    }
    if !same_loops(&w.holes, &o.holes) {
        return Some(format!("holes {:?}, expected {:?}", o.holes, w.holes));
    }
    if !same_p(&sort_p(o.verts.clone()), &w.verts, tol) || o.verts.len() != w.verts.len() {
        return Some(format!("vertices {:?}, expected {:?}", o.verts, w.verts));
    }
    let mut got = sort_s(o.segs.iter().map(|s| undirected(*s)).collect());
    // crossing points may be rounded in two ways
    let mut want = w.segs.clone();
    let dd = |v: &mut Vec<(P, P)>| {
        let mut k: Vec<(P, P)> = vec![];
        for s in v.iter() {
            if !k.iter().any(|t| near(s.0, t.0, tol) && near(s.1, t.1, tol)) {
                k.push(*s);
            }
        }
        *v = k;
    };
    dd(&mut got);
    dd(&mut want);
    if !same_s(&got, &want, tol) {
        return Some(format!("segments {:?}, expected {:?}", o.segs, w.segs));
    }
    None
}

pub fn judge(s: &Scen) -> Report {
    let mut rep = Report::default();
    let mut w = World::new(&s.boundary, s.exact);
    let log = run(s);
    let mut dg = Digest::new();
    let mut prev: Option<Obs> = None;
    for (i, o) in log.iter().enumerate() {
        let op = &s.steps[i].op;
        rep.ticks += o.ticks;
        if let Out::Panic(m) = &o.out {
            rep.add("panic", i, short_panic(m));
            dg.str("panic");
            break;
        }
        rep.tag(match op {
            Op::Hole(_) => "insert_hole",
            Op::Segments(_) => "insert_segments",
            Op::Vertices(_) => "insert_vertices",
            Op::Triangulate => "triangulate",
            Op::Refine { .. } => "refine",
        });
        let before = w.clone();
        if let Some(v) = model(&mut w, op) {
            match (&v, &o.out) {
                (Verdict::Ambiguous, _) => {
                    rep.tag("ambiguous_end");
                    break;
                }
                (Verdict::Accept, Out::Ok) => rep.tag("accepted"),
                (Verdict::Accept, x) => {
                    rep.add("accept", i, format!("valid input rejected with {:?}", x));
                    break;
                }
                (_, Out::Ok) => {
                    rep.add("accept", i, format!("invalid input accepted, expected {:?}", v));
                    break;
                }
                (Verdict::RejectVerts(want), Out::ErrVerts(got)) => {
                    rep.tag("rejected");
                    let tol = 1e-9 * w.l;
                    if !(same_p(got, want, tol) && same_p(want, got, tol)) {
                        rep.add("conflict", i, format!("conflicting vertices {:?}, expected {:?}", got, want));
                    }
                }
                (Verdict::RejectSegs(want), Out::ErrSegs(got)) => {
                    rep.tag("rejected");
                    if got != want {
                        rep.add("conflict", i, format!("conflicting segments {:?}, expected {:?}", got, want));
                    }
                }
                (v, x) => rep.add("conflict", i, format!("{:?} for {:?}", x, v)),
            }
            if let (Out::ErrVerts(_), Some(p)) | (Out::ErrSegs(_), Some(p)) = (&o.out, &prev) {
                if p.segs != o.segs || p.verts != o.verts || p.holes != o.holes {
                    rep.add("reject-changed", i, "a rejected operation changed the triangulator".into());
                }
            }
        }
        if let Some(d) = state_diff(&w, o) {
            let c = match o.out {
                Out::ErrVerts(_) | Out::ErrSegs(_) => "reject-changed",
                _ => match op {
                    Op::Triangulate | Op::Refine { .. } => "declared-changed",
                    _ => "state",
                },
            };
            // an earlier divergence is reported once
            let dup = rep.viol.iter().any(|v| v.class == c);
            if !dup {
                rep.add(c, i, d);
            }
        }
        let _ = before;
        if let Some(m) = &o.mesh {
            let refined = if let Op::Refine { .. } = op { true } else { false };
            for (c, msg) in mesh_checks(&w, m, refined) {
                rep.add(&format!("{}{}", if refined { "refined:" } else { "" }, c), i, msg);
            }
            if let Op::Refine { quality, max_area } = op {
                for (c, msg) in quality_checks(&w, m, *quality, *max_area) {
                    rep.add(&c, i, msg);
                }
                if w.min_angle() >= std::f64::consts::PI / 3.0 - 1e-9 {
                    rep.tag("refine_wide_angles");
                }
                if max_area.is_some() {
                    rep.tag("refine_max_area");
                }
                rep.count("steiner_points", m.pts.len().saturating_sub(w.required().len()) as u64);
            }
            rep.count("triangles", m.tris.len() as u64);
            rep.max("max_triangles", m.tris.len() as u64);
            dg.u64(m.digest);
        }
        dg.u64(o.ticks);
        for x in &o.verts {
            dg.f64(x.0);
            dg.f64(x.1);
        }
        for x in &o.segs {
            dg.f64((x.0).0);
            dg.f64((x.1).1);
        }
        prev = Some(o.clone());
    }
    if w.fuzzy.len() > 0 {
        rep.tag("segments_crossed");
    }
    if !w.holes.is_empty() {
        rep.tag("with_holes");
    }
    if !w.segs.is_empty() {
        rep.tag("with_segments");
    }
    if !w.verts.is_empty() {
        rep.tag("with_vertices");
    }
    rep.digest = dg.0;
    rep
}
