//! The shipped command line program as a process under the simulated operating
//! system of shim.c: documents, schedules, faults and crashes in, files and
//! exit codes out. A history is a sequence of runs over one directory; what is
//! on disk is all that survives from one run to the next.
use crate::case::*;
use crate::gen;
use crate::genlib;
use crate::geom::*;
use crate::oracle::*;
use crate::region::*;
use crate::rng::*;
use crate::scen::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Shape {
    Poly(Vec<P>),
    Circle { c: P, r: f64, res: Option<usize> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Doc {
    pub name: String,
    pub id: Option<String>,
    pub date: Option<String>,
    pub include: Vec<Shape>,
    pub remove: Vec<Shape>,
    pub segs: Vec<(P, P)>,
    pub verts: Vec<P>,
    pub quality: f64,
    pub max_area: Option<f64>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub cls: String,
    pub idx: u64,
    pub act: String,
    pub arg: i64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Run {
    pub key: u64,
    /// seed of everything about the document that must not matter
    pub style: u64,
    pub to_file: bool,
    pub clock: u64,
    pub plan: Vec<Fault>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Cli {
    pub doc: Doc,
    /// what is done to a good document, and where
    pub bad: Option<(String, u64)>,
    /// bytes already in the output file
    pub before: Option<usize>,
    pub runs: Vec<Run>,
}

// ---------------------------------------------------------------- domains

fn corners(s: &Shape) -> Vec<P> {
    match s {
        Shape::Poly(p) => p.clone(),
        Shape::Circle { c, r, res } => {
            let n = res.unwrap_or(100);
            let d = std::f64::consts::PI * 2.0 / n as f64;
            (0..n)
                .map(|i| {
                    let a = d * i as f64;
                    (c.0 + r * a.cos(), c.1 + r * a.sin())
                })
                .collect()
        }
    }
}

pub enum Expect {
    Ok(World),
    Reject(&'static str),
    Skip,
}

fn in_any(ps: &[&Vec<P>], x: P) -> bool {
    ps.iter().any(|p| point_in_poly(p, x) > 0)
}

/// What the documentation says about a document.
pub fn expect(d: &Doc) -> Expect {
    let inc: Vec<Vec<P>> = d.include.iter().map(corners).collect();
    let rem: Vec<Vec<P>> = d.remove.iter().map(corners).collect();
    if inc.is_empty() {
        return Expect::Reject("no include");
    }
    if inc.iter().chain(rem.iter()).any(|p| p.len() < 3) {
        return Expect::Skip;
    }
    let all: Vec<&Vec<P>> = inc.iter().chain(rem.iter()).collect();
    if inc.len() > 5 || rem.len() > 6 || all.iter().any(|p| !simple(p) || area2(p) == 0.0) {
        return Expect::Skip;
    }
    let edges: Vec<(P, P)> = all.iter().flat_map(|p| poly_edges(p)).collect();
    let ns = nodes(&edges);
    let ext = |k: usize| {
        let v: Vec<f64> = ns.iter().map(|p| if k == 0 { p.0 } else { p.1 }).collect();
        v.iter().cloned().fold(-1e300, f64::max) - v.iter().cloned().fold(1e300, f64::min)
    };
    let size = ext(0).max(ext(1));
    if !(size > 0.0 && size.is_finite()) {
        return Expect::Skip;
    }
    // general position, unless every corner and crossing is a small dyadic
    let dyadic = |p: &P| (p.0 * 64.0).fract() == 0.0 && (p.1 * 64.0).fract() == 0.0;
    let exact = ns.iter().all(dyadic);
    let tol = 2e-3 * size;
    for (i, v) in ns.iter().enumerate() {
        if ns[..i].iter().any(|u| dist(*u, *v) < tol) {
            return Expect::Skip;
        }
        for (a, b) in &edges {
            let t = seg_dist(*a, *b, *v);
            if t < tol && !(exact && on_segment(*a, *b, *v)) {
                // an end or a crossing of this very edge
                let own = *a == *v || *b == *v;
                let crossed = !all.iter().any(|p| p.contains(v)) && t < 1e-9 * size;
                if !own && !crossed {
                    return Expect::Skip;
                }
            }
        }
        if !exact && !all.iter().any(|p| p.contains(v)) && edges.iter().filter(|(a, b)| seg_dist(*a, *b, *v) < tol).count() != 2 {
            return Expect::Skip;
        }
        if !exact && all.iter().filter(|p| p.contains(v)).count() > 1 {
            return Expect::Skip;
        }
    }
    // includes
    let (ni, nr) = (inc.len(), rem.len());
    let pick = |v: &'_ [Vec<P>], m: usize| -> Vec<usize> { (0..v.len()).filter(|i| m >> i & 1 == 1).collect() };
    for m in 1..1usize << ni {
        let sub: Vec<&Vec<P>> = pick(&inc, m).into_iter().map(|i| &inc[i]).collect();
        let e: Vec<(P, P)> = sub.iter().flat_map(|p| poly_edges(p)).collect();
        if sub.len() > 1 && pinches(&e, &|x| in_any(&sub, x)) > 0 {
            return Expect::Skip;
        }
        if m + 1 == 1 << ni {
            let r = Region::new(&e, &|x| in_any(&sub, x));
            if !r.voids().is_empty() {
                return Expect::Skip;
            }
            if r.parts() > 1 {
                return Expect::Reject("separate includes");
            }
        }
    }
    let every: Vec<&Vec<P>> = inc.iter().collect();
    // removals, in any order
    let mut parts = vec![];
    for m in 0..1usize << nr {
        let sub: Vec<&Vec<P>> = pick(&rem, m).into_iter().map(|i| &rem[i]).collect();
        let e: Vec<(P, P)> = every.iter().chain(sub.iter()).flat_map(|p| poly_edges(p)).collect();
        let f = |x: P| in_any(&every, x) && !in_any(&sub, x);
        if pinches(&e, &f) > 0 {
            return Expect::Skip;
        }
        let r = Region::new(&e, &f);
        parts.push(if r.area() < 1e-9 * size * size { 0 } else { r.parts() });
    }
    if parts.iter().any(|n| *n != 1) {
        let sure = (0..nr).any(|i| (0..parts.len()).filter(|m| m >> i & 1 == 1).all(|m| parts[m] != 1));
        return if sure { Expect::Reject("removal that splits or leaves nothing") } else { Expect::Skip };
    }
    // the rim, as loops with the domain on their left
    let rems: Vec<&Vec<P>> = rem.iter().collect();
    let f = |x: P| in_any(&every, x) && !in_any(&rems, x);
    let mut rim: Vec<(P, P)> = vec![];
    let mut done: Vec<(P, P)> = vec![];
    for (a, b) in &edges {
        let mut on: Vec<(f64, P)> = ns.iter().filter(|v| seg_dist(*a, *b, **v) < 1e-9 * size).map(|v| (dist(*a, *v), *v)).collect();
        on.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
        for w in on.windows(2) {
            let (p, q) = (w[0].1, w[1].1);
            if done.contains(&undirected((p, q))) {
                continue;
            }
            done.push(undirected((p, q)));
            let m = ((p.0 + q.0) / 2.0, (p.1 + q.1) / 2.0);
            let l = dist(p, q);
            let h = 1e-6 * size / l;
            let n = (-(q.1 - p.1) * h, (q.0 - p.0) * h);
            match (f((m.0 + n.0, m.1 + n.1)), f((m.0 - n.0, m.1 - n.1))) {
                (true, false) => rim.push((p, q)),
                (false, true) => rim.push((q, p)),
                _ => {}
            }
        }
    }
    let mut loops: Vec<Vec<P>> = vec![];
    while let Some(s) = rim.pop() {
        let mut l = vec![s.0];
        let mut at = s.1;
        while at != s.0 {
            l.push(at);
            match rim.iter().position(|e| e.0 == at) {
                Some(k) => at = rim.remove(k).1,
                None => return Expect::Skip,
            }
        }
        // corners only
        let n = l.len();
        let c: Vec<P> = (0..n)
            .filter(|i| {
                let (a, b, c) = (l[(i + n - 1) % n], l[*i], l[(i + 1) % n]);
                cross(a, b, c).abs() > 1e-9 * dist(a, b) * dist(b, c)
            })
            .map(|i| l[i])
            .collect();
        if c.len() < 3 || !simple(&c) {
            return Expect::Skip;
        }
        loops.push(c);
    }
    let outer: Vec<usize> = (0..loops.len()).filter(|i| area2(&loops[*i]) > 0.0).collect();
    if outer.len() != 1 {
        return Expect::Skip;
    }
    let mut w = World::new(&loops[outer[0]], false);
    w.l = span(&loops[outer[0]]);
    for (i, l) in loops.iter().enumerate() {
        if i != outer[0] {
            let mut h = l.clone();
            h.reverse();
            w.holes.push(h);
        }
    }
    // constraints: not too close to anything, or clearly refused
    let pts: Vec<P> = d.verts.iter().cloned().chain(d.segs.iter().flat_map(|s| vec![s.0, s.1])).collect();
    if d.segs.iter().any(|s| s.0 == s.1) {
        return Expect::Skip;
    }
    let border = w.border();
    let near = |p: &P| border.iter().any(|(a, b)| seg_dist(*a, *b, *p) < tol);
    if pts.iter().any(near) || d.segs.iter().any(|(s, t)| border.iter().any(|(a, b)| seg_dist(*s, *t, *a) < tol || seg_dist(*s, *t, *b) < tol)) {
        return Expect::Skip;
    }
    for (i, p) in pts.iter().enumerate() {
        if pts[..i].iter().any(|q| p != q && dist(*p, *q) < tol) {
            return Expect::Skip;
        }
        if d.segs.iter().any(|(a, b)| p != a && p != b && seg_dist(*a, *b, *p) < tol) {
            return Expect::Skip;
        }
    }
    let sn = nodes(&d.segs);
    if (0..sn.len()).any(|i| (0..i).any(|j| dist(sn[i], sn[j]) < tol) || d.verts.iter().any(|v| *v != sn[i] && dist(*v, sn[i]) < tol)) {
        return Expect::Skip;
    }
    if sn.iter().any(|v| !pts.contains(v) && d.segs.iter().filter(|(a, b)| seg_dist(*a, *b, *v) < tol).count() != 2) {
        return Expect::Skip;
    }
    for v in [w.insert_segments(&d.segs), w.insert_vertices(&d.verts)].iter() {
        match v {
            Verdict::Accept => {}
            Verdict::Ambiguous => return Expect::Skip,
            _ => return Expect::Reject("constraint outside the domain"),
        }
    }
    if !genlib::refinable(&w) || (d.quality < std::f64::consts::SQRT_2 && w.min_angle() < std::f64::consts::PI / 3.0 - 1e-9) {
        return Expect::Skip;
    }
    Expect::Ok(w)
}

// ---------------------------------------------------------------- documents

#[derive(Clone, Debug)]
enum J {
    Raw(String),
    Obj(Vec<(String, J)>),
    Arr(Vec<J>),
}

fn num(x: f64, how: u64) -> J {
    J::Raw(match how % 3 {
        0 => format!("{}", x),
        1 => format!("{:?}", x),
        _ => format!("{:e}", x),
    })
}
fn text(s: &str) -> J {
    J::Raw(serde_json::to_string(s).unwrap())
}
fn point(p: P, r: &mut Rng, how: u64) -> J {
    let mut sign = |x: f64| if x == 0.0 && r.chance(0.3) { -x } else { x };
    let p = (sign(p.0), sign(p.1));
    let mut v = vec![("x".to_string(), num(p.0, how)), ("y".to_string(), num(p.1, how))];
    if r.chance(0.2) {
        v.push(("z".into(), num(0.0, how)));
    }
    J::Obj(v)
}

fn build(d: &Doc, style: u64) -> J {
    let mut r = Rng::new(style);
    let plain = style == 0;
    let how = if plain { 0 } else { r.below(3) };
    let mut acts: Vec<J> = vec![];
    let act = |intent: &str, geometry: &str, more: Vec<(String, J)>| {
        let mut v = vec![("intent".to_string(), text(intent)), ("geometry".to_string(), text(geometry))];
        v.extend(more);
        J::Obj(v)
    };
    for (intent, list) in [("include", &d.include), ("remove", &d.remove)].iter() {
        for s in list.iter() {
            match s {
                Shape::Poly(p) => {
                    let mut p = p.clone();
                    if !plain && !p.is_empty() {
                        p = gen::rot(&mut r, p);
                        if r.chance(0.5) {
                            p.reverse();
                        }
                        // a point given twice, or the first one again at the end
                        if r.chance(0.15) {
                            let i = r.below(p.len() as u64) as usize;
                            if r.chance(0.5) {
                                p.insert(i, p[i]);
                            } else {
                                p.push(p[0]);
                            }
                        }
                    }
                    let pts = p.iter().map(|p| point(*p, &mut r, how)).collect();
                    acts.push(act(intent, "polyline", vec![("points".into(), J::Arr(pts))]));
                }
                Shape::Circle { c, r: rad, res } => {
                    let mut sc = vec![num(*rad, how)];
                    if let Some(n) = res {
                        sc.push(num(*n as f64, how));
                    }
                    let pts = vec![point(*c, &mut r, how)];
                    acts.push(act(intent, "circle", vec![("points".into(), J::Arr(pts)), ("scalars".into(), J::Arr(sc))]));
                }
            }
        }
    }
    let mut segs = d.segs.clone();
    let mut vs = d.verts.clone();
    if !plain {
        // constraints given twice
        if !segs.is_empty() && r.chance(0.15) {
            let s = *r.pick(&segs);
            segs.push(s);
        }
        if !vs.is_empty() && r.chance(0.15) {
            let v = *r.pick(&vs);
            vs.push(v);
        }
        r.shuffle(&mut segs);
        for s in segs.iter_mut() {
            if r.chance(0.5) {
                *s = (s.1, s.0);
            }
        }
    }
    while !segs.is_empty() {
        let n = if plain || r.chance(0.5) { segs.len() } else { r.range(1, segs.len() as i64) as usize };
        let batch: Vec<(P, P)> = segs.drain(..n).collect();
        if plain || r.chance(0.5) {
            let pts = batch.iter().flat_map(|s| vec![s.0, s.1]).map(|p| point(p, &mut r, how)).collect();
            acts.push(act("constraint", "segments", vec![("points".into(), J::Arr(pts))]));
        } else {
            let mut ps: Vec<P> = batch.iter().flat_map(|s| vec![s.0, s.1]).collect();
            ps.sort_by(cmp);
            ps.dedup();
            r.shuffle(&mut ps);
            let at = |p: P| ps.iter().position(|q| *q == p).unwrap();
            let asm = batch.iter().map(|s| J::Arr(vec![J::Raw(at(s.0).to_string()), J::Raw(at(s.1).to_string())])).collect();
            let pts = ps.iter().map(|p| point(*p, &mut r, how)).collect();
            acts.push(act("constraint", "segments", vec![("points".into(), J::Arr(pts)), ("assemble".into(), J::Arr(asm))]));
        }
    }
    while !vs.is_empty() {
        let n = if plain || r.chance(0.5) { vs.len() } else { r.range(1, vs.len() as i64) as usize };
        let pts = vs.drain(..n).collect::<Vec<P>>().into_iter().map(|p| point(p, &mut r, how)).collect();
        acts.push(act("constraint", "vertices", vec![("points".into(), J::Arr(pts))]));
    }
    if !plain {
        r.shuffle(&mut acts);
    }
    let mut params = vec![("quality".to_string(), num(d.quality, how))];
    match d.max_area {
        Some(a) => params.push(("max_area".into(), num(a, how))),
        None if !plain && r.chance(0.3) => params.push(("max_area".into(), J::Raw("null".into()))),
        None => {}
    }
    if !plain {
        r.shuffle(&mut params);
    }
    let mut top = vec![("name".to_string(), text(&d.name)), ("actions".to_string(), J::Arr(acts)), ("params".to_string(), J::Obj(params))];
    if let Some(i) = &d.id {
        top.push(("id".into(), text(i)));
    }
    if let Some(t) = &d.date {
        top.push(("date".into(), text(t)));
    }
    if !plain {
        r.shuffle(&mut top);
    }
    J::Obj(top)
}

fn emit(j: &J, pretty: bool, depth: usize, out: &mut String) {
    let nl = |out: &mut String, d: usize| {
        if pretty {
            out.push('\n');
            (0..d).for_each(|_| out.push_str("  "));
        }
    };
    match j {
        J::Raw(s) => out.push_str(s),
        J::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                nl(out, depth + 1);
                out.push_str(&format!("\"{}\":", k));
                if pretty {
                    out.push(' ');
                }
                emit(x, pretty, depth + 1, out);
            }
            nl(out, depth);
            out.push('}');
        }
        J::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                nl(out, depth + 1);
                emit(x, pretty, depth + 1, out);
            }
            nl(out, depth);
            out.push(']');
        }
    }
}

fn render(j: &J, style: u64) -> String {
    let mut s = String::new();
    emit(j, style % 2 == 1, 0, &mut s);
    if style % 3 == 1 {
        s.push('\n');
    }
    s
}

fn field<'a>(j: &'a mut J, k: &str) -> Option<&'a mut J> {
    match j {
        J::Obj(v) => v.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1),
        _ => None,
    }
}
fn drop_field(j: &mut J, k: &str) -> bool {
    match j {
        J::Obj(v) => {
            let n = v.len();
            v.retain(|x| x.0 != k);
            v.len() < n
        }
        _ => false,
    }
}
fn actions<'a>(j: &'a mut J) -> &'a mut Vec<J> {
    match field(j, "actions") {
        Some(J::Arr(v)) => v,
        _ => panic!("no actions"),
    }
}
fn is_a(j: &J, geometry: &str) -> bool {
    match j {
        J::Obj(v) => v.iter().any(|x| x.0 == "geometry" && match &x.1 {
            J::Raw(s) => *s == format!("\"{}\"", geometry),
            _ => false,
        }),
        _ => false,
    }
}
fn raw(s: &str) -> J {
    J::Raw(s.to_string())
}
fn add_action(j: &mut J, txt: &str) {
    actions(j).push(raw(txt));
}

pub const BADS: &[&str] = &[
    "truncated", "trailing", "prefix", "not-utf8", "empty", "nested", "absent", "directory", "unreadable", "no-flag", "unknown-flag",
    "missing-name", "missing-actions", "missing-params", "missing-quality", "missing-intent", "missing-geometry", "missing-x", "missing-y",
    "type-name", "type-quality", "type-x", "type-id", "type-actions", "type-assemble", "nan", "huge", "unknown-intent", "unknown-geometry",
    "constraint-polygon", "include-segments", "include-vertices", "remove-vertices", "constraint-circle", "odd-segments", "short-assemble", "far-assemble", "two-points", "no-points",
    "bow-tie", "flat", "circle-no-radius", "circle-two-centres", "circle-two-corners", "no-include",
    "spike", "keyhole", "twice-around", "crossing-at-a-corner", "corner-on-a-side", "circle-of-nothing",
    "quality-too-good", "no-area",
];

/// a corner and a step with nothing but domain within ten steps of it, where
/// an action that should be refused does no other harm
fn room(d: &Doc, r: &mut Rng) -> (P, f64) {
    let all: Vec<P> = d.include.iter().flat_map(corners).collect();
    if let Expect::Ok(w) = expect(d) {
        let f = |g: &dyn Fn(&P) -> f64| (all.iter().map(g).fold(f64::MAX, f64::min), all.iter().map(g).fold(f64::MIN, f64::max));
        let (x, y) = (f(&|p| p.0), f(&|p| p.1));
        for k in 0..6 {
            let e = 0.25f64.powi(k);
            for _ in 0..12 {
                let at = |r: &mut Rng, t: (f64, f64)| ((t.0 + (t.1 - t.0) * r.below(1 << 20) as f64 / (1 << 20) as f64) * 1024.0).floor() / 1024.0;
                let p = (at(r, x), at(r, y));
                let q = |a: f64, b: f64| (p.0 + a * e, p.1 + b * e);
                let sides = [(q(0., 0.), q(10., 0.)), (q(10., 0.), q(10., 10.)), (q(10., 10.), q(0., 10.)), (q(0., 10.), q(0., 0.))];
                if let Verdict::Accept = w.clone().insert_segments(&sides) {
                    return (p, e);
                }
            }
        }
    }
    (corners(&d.include[0])[0], 1.0)
}

/// The document with one thing wrong, as bytes; None when there is no file.
fn corrupt(d: &Doc, style: u64, kind: &str, a: u64) -> Option<Vec<u8>> {
    let mut j = build(d, style);
    let mut r = Rng::new(a);
    let n = actions(&mut j).len().max(1) as u64;
    let k = r.below(n) as usize;
    let shape = {
        let v = actions(&mut j);
        (0..v.len()).map(|i| (i + k) % v.len()).find(|i| is_a(&v[*i], "polyline") || is_a(&v[*i], "circle"))
    };
    let txt = |j: &J| render(j, style).into_bytes();
    let pts = |j: &mut J, i: usize, f: &mut dyn FnMut(&mut J)| match field(&mut actions(j)[i], "points") {
        Some(J::Arr(v)) if !v.is_empty() => {
            let n = v.len();
            f(&mut v[(a as usize / 7) % n])
        }
        _ => {}
    };
    let (p0, unit): (P, f64) = room(d, &mut r);
    let square = |x: f64| { let x = x * unit; format!("[{{\"x\":{:?},\"y\":{:?}}},{{\"x\":{:?},\"y\":{:?}}},{{\"x\":{:?},\"y\":{:?}}},{{\"x\":{:?},\"y\":{:?}}}]", p0.0, p0.1, p0.0 + x, p0.1, p0.0 + x, p0.1 + x, p0.0, p0.1 + x) };
    match kind {
        "truncated" => {
            let t = render(&j, 0);
            let mut t = t.into_bytes();
            t.truncate(r.below(t.len() as u64) as usize);
            return Some(t);
        }
        "trailing" => {
            let mut t = txt(&j);
            let x: &[&[u8]] = &[b"}", b"null", b",", b"{}", b"\0", b"x"];
            t.extend(r.pick(x).iter());
            return Some(t);
        }
        "prefix" => {
            let x: &[&[u8]] = &[b"\xef\xbb\xbf", b"[", b"//\n", b"\0", b"{"];
            let mut t = r.pick(x).to_vec();
            t.extend(txt(&j));
            return Some(t);
        }
        "not-utf8" => {
            if let Some(x) = field(&mut j, "name") {
                *x = raw("\"?NAME?\"");
            }
            let t = String::from_utf8(txt(&j)).unwrap();
            let at = t.find("?NAME?").unwrap();
            let mut b = t.into_bytes();
            b[at] = 0xff;
            return Some(b);
        }
        "empty" => return Some(if r.chance(0.5) { vec![] } else { b"  \n".to_vec() }),
        "nested" => {
            let n = r.range(200, 60000) as usize;
            let mut t = "[".repeat(n);
            if r.chance(0.5) {
                t.push_str(&"]".repeat(n));
            }
            if r.chance(0.5) {
                t = format!("{{\"name\":\"n\",\"params\":{{\"quality\":1}},\"actions\":{}", t);
            }
            return Some(t.into_bytes());
        }
        "absent" | "directory" => return None,
        "unreadable" | "no-flag" | "unknown-flag" => {}
        "missing-name" => {
            drop_field(&mut j, "name");
        }
        "missing-actions" => {
            drop_field(&mut j, "actions");
        }
        "missing-params" => {
            drop_field(&mut j, "params");
        }
        "missing-quality" => {
            drop_field(field(&mut j, "params").unwrap(), "quality");
        }
        "missing-intent" => {
            drop_field(&mut actions(&mut j)[k], "intent");
        }
        "missing-geometry" => {
            drop_field(&mut actions(&mut j)[k], "geometry");
        }
        "missing-x" => pts(&mut j, k, &mut |p| {
            drop_field(p, "x");
        }),
        "missing-y" => pts(&mut j, k, &mut |p| {
            drop_field(p, "y");
        }),
        "type-name" => *field(&mut j, "name").unwrap() = raw(*r.pick(&["1", "null", "[]", "{}"])),
        "type-quality" => *field(field(&mut j, "params").unwrap(), "quality").unwrap() = raw(*r.pick(&["\"1.5\"", "null", "[1.5]", "true"])),
        "type-x" => pts(&mut j, k, &mut |p| *field(p, "x").unwrap() = raw("\"1.0\"")),
        "type-id" => {
            drop_field(&mut j, "id");
            if let J::Obj(v) = &mut j {
                v.push(("id".into(), raw(*r.pick(&["\"\"", "\"not-a-uuid\"", "7", "\"44a111eb-f387-456e-ad9b-6a65ea6e89bg\"", "null"]))));
            }
        }
        "type-actions" => *field(&mut j, "actions").unwrap() = raw(*r.pick(&["{}", "null", "\"include\"", "3"])),
        "type-assemble" => add_action(&mut j, &format!("{{\"intent\":\"constraint\",\"geometry\":\"segments\",\"points\":{},\"assemble\":[[0,{}]]}}", square(1.0), r.pick(&["-1", "1.5", "\"1\"", "null"]))),
        "nan" => pts(&mut j, k, &mut |p| *field(p, "y").unwrap() = raw("NaN")),
        "huge" => pts(&mut j, k, &mut |p| *field(p, "y").unwrap() = raw("1e999")),
        "unknown-intent" => *field(&mut actions(&mut j)[k], "intent").unwrap() = raw(*r.pick(&["\"\"", "\"Include\"", "\"add\"", "\"include \""])),
        "unknown-geometry" => *field(&mut actions(&mut j)[k], "geometry").unwrap() = raw(*r.pick(&["\"\"", "\"polygon\"", "\"Circle\"", "\"spline\""])),
        "constraint-polygon" => *field(&mut actions(&mut j)[shape.unwrap()], "intent").unwrap() = raw("\"constraint\""),
        "constraint-circle" => add_action(&mut j, &format!("{{\"intent\":\"constraint\",\"geometry\":\"circle\",\"scalars\":[1.0],\"points\":[{{\"x\":{:?},\"y\":{:?}}}]}}", p0.0, p0.1)),
        "include-segments" => add_action(&mut j, &format!("{{\"intent\":\"{}\",\"geometry\":\"segments\",\"points\":{}}}", r.pick(&["include", "remove"]), square(1.0))),
        "include-vertices" => add_action(&mut j, &format!("{{\"intent\":\"include\",\"geometry\":\"vertices\",\"points\":{}}}", square(1.0))),
        "remove-vertices" => add_action(&mut j, &format!("{{\"intent\":\"remove\",\"geometry\":\"vertices\",\"points\":{}}}", square(1.0))),
        "odd-segments" => add_action(&mut j, &format!("{{\"intent\":\"constraint\",\"geometry\":\"segments\",\"points\":[{{\"x\":{:?},\"y\":{:?}}}]}}", p0.0, p0.1)),
        "short-assemble" => add_action(&mut j, &format!("{{\"intent\":\"constraint\",\"geometry\":\"segments\",\"points\":{},\"assemble\":[{}]}}", square(1.0), r.pick(&["[0]", "[]"]))),
        "far-assemble" => add_action(&mut j, &format!("{{\"intent\":\"constraint\",\"geometry\":\"segments\",\"points\":{},\"assemble\":[[0,{}]]}}", square(1.0), r.pick(&["4", "5", "1000000"]))),
        "two-points" | "no-points" | "bow-tie" | "flat" | "spike" | "keyhole" | "twice-around" | "crossing-at-a-corner" | "corner-on-a-side" => {
            let e = unit;
            let s = |v: &[P]| v.iter().map(|p| format!("{{\"x\":{:?},\"y\":{:?}}}", p0.0 + p.0 * e, p0.1 + p.1 * e)).collect::<Vec<_>>().join(",");
            let p = match kind {
                "two-points" => s(&[(0.0, 0.0), (1.0, 1.0)]),
                "no-points" => s(&[]),
                // exact whatever p0 is: rounding must not tip the crossing
                "bow-tie" => s(&[(0.0, 0.0), (2.0, 2.0), (2.0, 0.0), (0.0, 2.0)]),
                "flat" => match r.below(3) {
                    0 => s(&[(0.0, 0.0), (1.0, 0.0), (2.0, 0.0)]),
                    1 => s(&[(0.0, 0.0), (2.0, 2.0), (0.0, 0.0)]),
                    _ => s(&[(0.0, 0.0), (0.0, 0.0), (0.0, 0.0), (0.0, 0.0)]),
                },
                _ => {
                    let c = |v: &[(i32, i32)]| v.iter().map(|p| (p.0 as f64, p.1 as f64)).collect::<Vec<P>>();
                    let mut v = match kind {
                        "spike" => match r.below(2) {
                            0 => c(&[(0, 0), (4, 0), (4, 4), (4, 8), (4, 4), (0, 4)]),
                            _ => c(&[(0, 0), (4, 0), (2, 2), (4, 0), (4, 4), (0, 4)]),
                        },
                        "keyhole" => c(&[(0, 0), (9, 0), (9, 9), (0, 9), (0, 0), (3, 3), (3, 6), (6, 6), (6, 3), (3, 3)]),
                        "twice-around" => c(&[(0, 0), (4, 0), (4, 4), (0, 0), (4, 0), (4, 4)]),
                        // upright sides: rounding must not move the corner off
                        "corner-on-a-side" => {
                            let v = match r.below(4) {
                                0 => c(&[(0, 0), (8, 0), (8, 8), (4, 0), (0, 8)]),
                                1 => c(&[(0, 0), (8, 0), (8, 8), (6, 4), (5, 0), (3, 4), (0, 8)]),
                                2 => c(&[(0, 0), (8, 0), (8, 6), (6, 0), (3, 0), (0, 6)]),
                                _ => c(&[(0, 0), (8, 0), (8, 8), (4, 0), (4, 8), (2, 0), (0, 8)]),
                            };
                            if r.chance(0.5) { v } else { v.iter().map(|p| (p.1, p.0)).collect() }
                        }
                        _ => c(&[(0, 0), (2, 2), (3, 3), (3, 1), (2, 2), (0, 4)]),
                    };
                    v = gen::rot(&mut r, v);
                    if r.chance(0.5) {
                        v.reverse();
                    }
                    s(&v)
                }
            };
            add_action(&mut j, &format!("{{\"intent\":\"{}\",\"geometry\":\"polyline\",\"points\":[{}]}}", r.pick(&["include", "remove"]), p));
        }
        "circle-no-radius" => add_action(&mut j, &format!("{{\"intent\":\"include\",\"geometry\":\"circle\",\"points\":[{{\"x\":{:?},\"y\":{:?}}}]}}", p0.0, p0.1)),
        "quality-too-good" => *field(field(&mut j, "params").unwrap(), "quality").unwrap() = raw(*r.pick(&["0", "-1.5", "0.5", "1e-300", "-0.0", "0.57"])),
        "no-area" => {
            let p = field(&mut j, "params").unwrap();
            drop_field(p, "max_area");
            if let J::Obj(v) = p {
                v.push(("max_area".into(), raw(*r.pick(&["0", "-1", "0.0", "-1e-9"]))));
            }
        }
        "circle-of-nothing" => add_action(&mut j, &format!("{{\"intent\":\"{}\",\"geometry\":\"circle\",\"scalars\":[{}],\"points\":[{{\"x\":{:?},\"y\":{:?}}}]}}", r.pick(&["include", "remove"]), r.pick(&["0", "0.0, 8", "-0.0", "0e5, 100"]), p0.0, p0.1)),
        "circle-two-centres" => add_action(&mut j, &format!("{{\"intent\":\"remove\",\"geometry\":\"circle\",\"scalars\":[1.0],\"points\":{}}}", square(1.0))),
        "circle-two-corners" => add_action(&mut j, &format!("{{\"intent\":\"include\",\"geometry\":\"circle\",\"scalars\":[1.0,{}],\"points\":[{{\"x\":{:?},\"y\":{:?}}}]}}", r.pick(&["2", "1", "0", "-3"]), p0.0, p0.1)),
        "no-include" => {
            let v = actions(&mut j);
            v.retain(|x| match x {
                J::Obj(f) => !f.iter().any(|x| match &x.1 {
                    J::Raw(s) => s == "\"include\"",
                    _ => false,
                }),
                _ => true,
            });
        }
        _ => panic!("no corruption {}", kind),
    }
    Some(txt(&j))
}

// ---------------------------------------------------------------- processes

static BASE: Mutex<Option<PathBuf>> = Mutex::new(None);
const NOBODY: u32 = 65534;
const MALLOCS: u64 = 60_000_000;

fn mode(p: &Path, m: u32) {
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
}

pub fn prepare() {
    let exe = std::env::current_exe().unwrap();
    let dir = exe.parent().unwrap();
    let base = PathBuf::from(format!("/tmp/simcli.{}", std::process::id()));
    std::fs::create_dir(&base).expect("scratch directory");
    mode(&base, 0o711);
    std::fs::copy(dir.join("nlsn-delaunay"), base.join("cli")).expect("command line binary");
    std::fs::copy(dir.parent().unwrap().join("shim.so"), base.join("shim.so")).expect("shim.so");
    mode(&base.join("cli"), 0o755);
    mode(&base.join("shim.so"), 0o755);
    *BASE.lock().unwrap() = Some(base);
}
pub fn cleanup() {
    if let Some(b) = BASE.lock().unwrap().take() {
        std::fs::remove_dir_all(&b).ok();
    }
}

#[derive(Clone, Debug, Default)]
struct Seen {
    code: Option<i32>,
    signal: Option<i32>,
    stdout: Vec<u8>,
    file: Option<Vec<u8>>,
    log: Vec<(String, i64, i64, String)>,
    /// the input, or something else in the directory, is not what it was
    stray: Option<String>,
}

impl Seen {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
    fn how(&self) -> String {
        match (self.code, self.signal) {
            (Some(98), _) => "no end within its allocation budget".into(),
            (Some(c), _) => format!("exit status {}", c),
            (_, Some(s)) => format!("signal {}", s),
            _ => "?".into(),
        }
    }
    fn clocks(&self) -> Vec<u64> {
        self.log.iter().filter(|l| l.0 == "clock").map(|l| l.2 as u64).collect()
    }
    fn fired(&self) -> Vec<String> {
        self.log
            .iter()
            .filter(|l| !l.3.is_empty())
            .map(|l| match l.3.as_str() {
                "err" if l.0 == "m" => "m:err".to_string(),
                "err" => format!("{}:err:{}", l.0, -l.2),
                a => format!("{}:{}", l.0, a),
            })
            .collect()
    }
    fn dest(&self, to_file: bool) -> Option<&[u8]> {
        if to_file {
            self.file.as_ref().map(|v| v.as_slice())
        } else {
            Some(&self.stdout)
        }
    }
}

fn plan(p: &[Fault]) -> String {
    p.iter().map(|f| format!("{}:{}:{}:{}", f.cls, f.idx, f.act, f.arg)).collect::<Vec<_>>().join(";")
}

/// faults the program must not let show
fn mild(f: &str) -> bool {
    f.ends_with(":short") || f == "c:jump" || f == "jump:jump" || f.ends_with(":err:4") || f.starts_with("si:err")
}

fn go(dir: &Path, input: Option<&[u8]>, bad: Option<&str>, run: &Run, faults: bool) -> Seen {
    let base = BASE.lock().unwrap().clone().expect("prepared");
    let root = unsafe { libc::geteuid() } == 0;
    let inp = dir.join("in.json");
    let out = dir.join("out.json");
    for p in [&inp].iter() {
        if p.is_dir() {
            std::fs::remove_dir(p).ok();
        } else {
            std::fs::remove_file(p).ok();
        }
    }
    match (input, bad) {
        (_, Some("directory")) => std::fs::create_dir(&inp).unwrap(),
        (None, _) => {}
        (Some(b), _) => {
            std::fs::write(&inp, b).unwrap();
            mode(&inp, if bad == Some("unreadable") { 0 } else { 0o644 });
        }
    }
    let own = |p: &Path| {
        if root {
            let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
            unsafe { libc::chown(c.as_ptr(), NOBODY, NOBODY) };
        }
    };
    own(dir);
    if out.exists() {
        own(&out);
    }
    let side = base.join(format!("io.{}", std::process::id()));
    std::fs::create_dir_all(&side).unwrap();
    own(&side);
    let (so, se, log) = (side.join("out"), side.join("err"), side.join("log"));
    std::fs::remove_file(&log).ok();
    let (fo, fe) = (std::fs::File::create(&so).unwrap(), std::fs::File::create(&se).unwrap());
    let mut c = std::process::Command::new(base.join("cli"));
    if bad != Some("no-flag") {
        c.arg("-i").arg("in.json");
    }
    if run.to_file {
        c.arg("-o").arg("out.json");
    }
    if bad == Some("unknown-flag") {
        c.arg("--nosuch");
    }
    c.env_clear()
        .env("LD_PRELOAD", base.join("shim.so"))
        .env("SIM_DIR", dir)
        .env("SIM_IN", "in.json")
        .env("SIM_LOG", &log)
        .env("SIM_KEY", (run.key >> 1).to_string())
        .env("SIM_CLOCK", run.clock.to_string())
        .env("SIM_TICKS", MALLOCS.to_string())
        .env("SIM_PLAN", if faults { plan(&run.plan) } else { String::new() })
        .current_dir(dir)
        .stdin(std::process::Stdio::null())
        .stdout(fo)
        .stderr(fe);
    unsafe {
        c.pre_exec(move || {
            let lim = |k, n: u64| {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(k, &l);
            };
            lim(libc::RLIMIT_CPU, 40);
            lim(libc::RLIMIT_CORE, 0);
            lim(libc::RLIMIT_FSIZE, 64 << 20);
            lim(libc::RLIMIT_AS, 4 << 30);
            if root {
                libc::setgroups(0, std::ptr::null());
                if libc::setgid(NOBODY) != 0 || libc::setuid(NOBODY) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            Ok(())
        });
    }
    let st = c.status().expect("the program starts");
    let mut s = Seen { code: st.code(), signal: st.signal(), ..Default::default() };
    s.stdout = std::fs::read(&so).unwrap();
    s.file = std::fs::read(&out).ok();
    for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
        let w: Vec<&str> = l.split(' ').collect();
        if w.len() >= 3 {
            s.log.push((w[0].into(), w[1].parse().unwrap_or(0), w[2].parse().unwrap_or(0), w.get(3).unwrap_or(&"").to_string()));
        }
    }
    if s.code == Some(97) {
        panic!("plan not understood: {:?}", run.plan);
    }
    let now = std::fs::read(&inp).ok();
    if bad != Some("directory") && now.as_ref().map(|v| v.as_slice()) != input {
        s.stray = Some("the input file changed".into());
    }
    for e in std::fs::read_dir(dir).unwrap().filter_map(|e| e.ok()) {
        let n = e.file_name();
        if n != "in.json" && n != "out.json" {
            // a killed run may leave a temporary file behind
            if s.signal.is_none() {
                s.stray = Some(format!("left {:?} behind", n));
            }
            std::fs::remove_file(e.path()).ok();
        }
    }
    if std::env::var("SIM_STDERR").is_ok() {
        eprintln!("{:?} {} {}", run, s.how(), std::fs::read_to_string(&se).unwrap_or_default());
    }
    s
}

// ---------------------------------------------------------------- oracles

type Bad = Vec<(String, String)>;

fn number(v: &Value) -> Option<f64> {
    v.as_f64().filter(|x| x.is_finite())
}

/// everything a reader of the output relies on
fn output(d: &Doc, w: &World, bytes: &[u8], clocks: &[u64], bad: &mut Bad) -> Option<usize> {
    let mut say = |c: &str, m: String| bad.push((c.to_string(), m));
    let v: Value = match serde_json::from_slice(bytes) {
        Ok(v) => v,
        Err(e) => {
            say("shape", format!("the output is no JSON document: {}", e));
            return None;
        }
    };
    let o = match v.as_object() {
        Some(o) => o,
        None => {
            say("shape", "the output is no object".into());
            return None;
        }
    };
    let mut keys: Vec<&str> = o.keys().map(|k| k.as_str()).collect();
    keys.sort();
    if keys != ["coordinates", "date", "id", "name", "tetrahedrons", "triangles"] {
        say("shape", format!("fields {:?}", keys));
        return None;
    }
    if o["name"].as_str() != Some(&d.name) {
        say("echo", format!("name {} for {:?}", o["name"], d.name));
    }
    let id = o["id"].as_str().unwrap_or("").to_lowercase();
    let uuid = |s: &str| {
        let b = s.as_bytes();
        b.len() == 36 && b.iter().enumerate().all(|(i, c)| if [8, 13, 18, 23].contains(&i) { *c == b'-' } else { c.is_ascii_hexdigit() })
    };
    match &d.id {
        Some(i) => {
            if id.replace("-", "") != i.to_lowercase().replace("-", "") {
                say("echo", format!("id {} for {}", id, i));
            }
        }
        None => {
            if !uuid(&id) || &id[14..15] != "4" {
                say("echo", format!("no version 4 id: {}", id));
            }
        }
    }
    let date = o["date"].as_str().unwrap_or("").to_string();
    match &d.date {
        Some(x) => {
            if *x != date {
                say("echo", format!("date {:?} for {:?}", date, x));
            }
        }
        None => {
            if !clocks.iter().any(|c| rfc3339(*c) == date) {
                say("echo", format!("date {:?} at no time the clock showed", date));
            }
        }
    }
    if o["tetrahedrons"].as_array().map(|a| !a.is_empty()).unwrap_or(true) {
        say("shape", "tetrahedrons in the plane".into());
    }
    let (cs, ts) = match (o["coordinates"].as_array(), o["triangles"].as_array()) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            say("shape", "no lists of coordinates and triangles".into());
            return None;
        }
    };
    let mut m = Mesh::default();
    for c in cs {
        let ok = c.as_object().map(|x| x.len() == 3).unwrap_or(false);
        match (number(&c["x"]), number(&c["y"]), number(&c["z"])) {
            (Some(x), Some(y), Some(z)) if ok && z == 0.0 => m.pts.push((x, y)),
            _ => {
                say("shape", format!("coordinate {}", c));
                return None;
            }
        }
    }
    for t in ts {
        let ok = t.as_object().map(|x| x.len() == 3).unwrap_or(false);
        let i = |k: &str| t[k].as_u64().map(|x| x as usize).filter(|x| *x < m.pts.len());
        match (i("v1"), i("v2"), i("v3")) {
            (Some(a), Some(b), Some(c)) if ok && a != b && b != c && a != c => m.tris.push([a, b, c]),
            _ => {
                say("indices", format!("triangle {} with {} coordinates", t, m.pts.len()));
                return None;
            }
        }
    }
    let mut used = vec![false; m.pts.len()];
    m.tris.iter().for_each(|t| t.iter().for_each(|i| used[*i] = true));
    if let Some(i) = used.iter().position(|u| !u) {
        say("indices", format!("coordinate {} ({:?}) belongs to no triangle", i, m.pts[i]));
    }
    for (c, s) in mesh_checks(w, &m, true) {
        match c.as_str() {
            "ghosts" | "adjacency" => {}
            "missing-vertex" | "extra-vertex" | "segment" | "delaunay" => say("mesh", s),
            _ => say("domain", s),
        }
    }
    for (_, s) in quality_checks(w, &m, d.quality, d.max_area).into_iter().filter(|f| f.0 != "encroached") {
        say("bounds", s);
    }
    Some(m.tris.len())
}

fn rfc3339(ns: u64) -> String {
    let (s, ms) = (ns / 1_000_000_000, ns % 1_000_000_000 / 1_000_000);
    let (days, t) = ((s / 86400) as i64, s % 86400);
    // days since 1970-01-01 to a civil date
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1;
    let month = if mp < 10 { mp + 3 } else { mp - 9 };
    let year = yoe + era * 400 + if month <= 2 { 1 } else { 0 };
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}Z", year, month, day, t / 3600, t / 60 % 60, t % 60, ms)
}

/// equal up to the default date, which the clock decides
fn same(d: &Doc, a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    if d.date.is_some() {
        return false;
    }
    let strip = |x: &[u8]| -> Option<String> {
        let s = std::str::from_utf8(x).ok()?;
        let v: Value = serde_json::from_str(s).ok()?;
        let date = serde_json::to_string(v.get("date")?.as_str()?).ok()?;
        Some(s.replacen(&date, "\"\"", 1))
    };
    match (strip(a), strip(b)) {
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}

pub fn judge(c: &Cli) -> Report {
    let base = BASE.lock().unwrap().clone().expect("prepared");
    let dir = base.join(format!("d.{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let r = history(c, &dir);
    std::fs::remove_dir_all(&dir).ok();
    std::fs::remove_dir_all(base.join(format!("io.{}", std::process::id()))).ok();
    r
}

fn history(c: &Cli, dir: &Path) -> Report {
    let mut rep = Report::default();
    let mut dg = Digest::new();
    let exp = expect(&c.doc);
    let out = dir.join("out.json");
    let junk: Option<Vec<u8>> = c.before.map(|n| (0..n).map(|i| b"{\"old\": [1, 2]}\n"[i % 16]).collect());
    if let Some(j) = &junk {
        std::fs::write(&out, j).unwrap();
    }
    let mut crashed = false;
    for (i, run) in c.runs.iter().enumerate() {
        let prior = std::fs::read(&out).ok();
        let (input, bad): (Option<Vec<u8>>, Option<&str>) = match &c.bad {
            Some((k, a)) => (corrupt(&c.doc, run.style, k, *a), Some(k.as_str())),
            None => (Some(render(&build(&c.doc, run.style), run.style).into_bytes()), None),
        };
        let inp = input.as_ref().map(|v| v.as_slice());
        let s = go(dir, inp, bad, run, true);
        let mut d = |s: &Seen| {
            dg.u64(s.code.unwrap_or(-1) as u64);
            dg.u64(s.signal.unwrap_or(-1) as u64);
            dg.bytes(&s.stdout);
            dg.bytes(s.file.as_ref().map(|v| v.as_slice()).unwrap_or(b"-"));
            for l in &s.log {
                dg.str(&l.0);
                dg.u64(l.1 as u64);
                dg.u64(l.2 as u64);
                dg.str(&l.3);
            }
        };
        d(&s);
        for f in s.fired() {
            rep.tag(&format!("fault:{}", f));
        }
        if let Some(k) = s.signal {
            rep.tag(&format!("died_of_signal_{}", k));
        }
        if let Some(e) = s.log.iter().find(|l| l.0 == "end") {
            rep.ticks += e.1 as u64;
        }
        if let (Some(a), Some(b)) = (s.clocks().iter().min(), s.clocks().iter().max()) {
            rep.sim_ns += b - a;
        }
        rep.tag("executions");
        if let Some(x) = &s.stray {
            rep.add("touched", i, x.clone());
        }
        if run.to_file && !s.stdout.is_empty() {
            rep.add("stdout-noise", i, format!("{} bytes on stdout besides the output file", s.stdout.len()));
        }
        if !run.to_file && s.file != prior {
            rep.add("touched", i, "a file was written without being asked for".into());
        }
        let hard: Vec<String> = s.fired().into_iter().filter(|f| !mild(f)).collect();
        let refuse = match (&c.bad, &exp) {
            (Some((k, _)), _) => Some(k.as_str()),
            (None, Expect::Reject(m)) => Some(*m),
            _ => None,
        };
        if let Some(why) = refuse {
            rep.tag("refused_documents");
            rep.tag(&format!("bad:{}", why));
            if s.ok() {
                rep.add("accepted-bad", i, format!("a document with {} was accepted", why));
            } else if s.code == Some(98) || s.signal == Some(libc::SIGXCPU) || s.signal == Some(libc::SIGKILL) && hard.is_empty() {
                rep.add("accepted-bad", i, format!("no end on a document with {}: {}", why, s.how()));
            } else if !s.stdout.is_empty() {
                rep.add("stdout-noise", i, format!("{} bytes on stdout for a document with {}", s.stdout.len(), why));
            }
            if s.file != prior {
                rep.add("touched", i, format!("the output file changed for a document with {}", why));
            }
            continue;
        }
        let w = match &exp {
            Expect::Ok(w) => w,
            _ => break,
        };
        rep.tag("valid_documents");
        if !s.ok() {
            if hard.is_empty() {
                let class = if s.fired().is_empty() { "refused" } else { "not-transparent" };
                let m = format!("{} on a valid document after {:?}", s.how(), s.fired());
                rep.add(class, i, m);
                if crashed {
                    rep.add("recover", i, format!("no recovery: {}", s.how()));
                }
                break;
            }
            rep.tag("failed_as_told");
            crashed = true;
            // what is left is the old file, or a beginning of the new one
            if run.to_file {
                let reached = s.log.iter().any(|l| l.0 == "oo" && l.3.is_empty());
                if !reached && s.file != prior {
                    rep.add("touched", i, "the output file changed though it was never opened".into());
                } else if reached && s.file != prior && s.file.is_some() {
                    let clean = reference(c, dir, inp, run, &mut rep);
                    let f = s.file.as_ref().unwrap();
                    let n = f.len();
                    if !(n <= clean.len() && (f[..] == clean[..n] || c.doc.date.is_none())) {
                        rep.add("silent", i, format!("{} bytes that are no beginning of the output are left after {:?}", n, s.fired()));
                    }
                }
            }
            continue;
        }
        if crashed && hard.is_empty() {
            rep.tag("recovered");
        }
        let bytes = match s.dest(run.to_file) {
            Some(b) => b.to_vec(),
            None => {
                rep.add("silent", i, format!("success without an output file after {:?}", s.fired()));
                break;
            }
        };
        if !s.fired().is_empty() {
            // the same execution without the faults
            let clean = reference(c, dir, inp, run, &mut rep);
            if !same(&c.doc, &clean, &bytes) {
                let class = if hard.is_empty() { "not-transparent" } else { "silent" };
                rep.add(class, i, format!("success with {} bytes of other output than the {} without the faults {:?}", bytes.len(), clean.len(), s.fired()));
                break;
            }
            rep.tag(if hard.is_empty() { "faults_absorbed" } else { "hard_fault_harmless" });
        }
        let mut bad = vec![];
        let n = output(&c.doc, w, &bytes, &s.clocks(), &mut bad);
        if bad.iter().any(|b| b.0 == "shape") {
            rep.add(if crashed { "recover" } else { "silent" }, i, format!("success with an incomplete output: {}", bad[0].1));
        }
        for (k, m) in bad {
            rep.add(&k, i, m);
        }
        if let Some(n) = n {
            rep.max("max_triangles", n as u64);
            rep.tag("outputs_checked");
            if let Some(p) = prior {
                if run.to_file && p.len() > bytes.len() {
                    rep.tag("longer_file_replaced");
                }
            }
        }
        if !rep.viol.is_empty() {
            break;
        }
    }
    if let Expect::Ok(w) = &exp {
        rep.max("max_holes", w.holes.len() as u64);
        if w.min_angle() >= std::f64::consts::PI / 3.0 - 1e-9 && c.doc.quality >= std::f64::consts::SQRT_2 {
            rep.tag("quality_decided");
        }
    }
    rep.digest = dg.0;
    rep
}

/// what the same run writes when nothing goes wrong
fn reference(c: &Cli, dir: &Path, inp: Option<&[u8]>, run: &Run, rep: &mut Report) -> Vec<u8> {
    let sub = PathBuf::from(format!("{}.ref", dir.display()));
    std::fs::create_dir_all(&sub).unwrap();
    let s = go(&sub, inp, None, run, false);
    let b = if s.ok() { s.dest(run.to_file).map(|b| b.to_vec()) } else { None };
    std::fs::remove_dir_all(&sub).ok();
    rep.tag("executions");
    let _ = c;
    b.unwrap_or_default()
}

// ---------------------------------------------------------------- generator

fn shape(r: &mut Rng, n: i64, circles: bool) -> Shape {
    if circles && r.chance(0.45) {
        let (x, y) = gen::lattice(r, n);
        let rad = r.range(2, (2 * n).max(3)) as f64 / 4.0;
        let res = if r.chance(0.04) { None } else { Some(r.range(3, 20) as usize) };
        return Shape::Circle { c: (x + r.range(-8, 8) as f64 / 37.0, y + r.range(-8, 8) as f64 / 41.0), r: rad + 0.013, res };
    }
    loop {
        let m = r.range((n / 3).max(2), n);
        let p = match r.below(7) {
            0 | 1 => gen::rect(r, m),
            2 | 3 => gen::rectilinear(r, m),
            4 => {
                let k = r.range(4, 9) as usize;
                gen::convex(r, m, k)
            }
            5 => {
                let k = r.range(4, 9) as usize;
                gen::star(r, m, k)
            }
            _ => hull((0..3).map(|_| gen::lattice(r, m)).collect()),
        };
        if p.len() >= 3 && simple(&p) && area2(&p) > 0.0 {
            return Shape::Poly(p);
        }
    }
}

fn moved(s: Shape, dx: f64, dy: f64) -> Shape {
    match s {
        Shape::Poly(p) => Shape::Poly(p.iter().map(|q| (q.0 + dx, q.1 + dy)).collect()),
        Shape::Circle { c, r, res } => Shape::Circle { c: (c.0 + dx, c.1 + dy), r, res },
    }
}

fn scale(d: &mut Doc, k: f64, off: P) {
    let g = |p: &P| (p.0 * k + off.0, p.1 * k + off.1);
    for s in d.include.iter_mut().chain(d.remove.iter_mut()) {
        match s {
            Shape::Poly(p) => p.iter_mut().for_each(|q| *q = g(q)),
            Shape::Circle { c, r, .. } => {
                *c = g(c);
                *r *= k;
            }
        }
    }
    d.segs.iter_mut().for_each(|s| *s = (g(&s.0), g(&s.1)));
    d.verts.iter_mut().for_each(|s| *s = g(s));
    if let Some(a) = &mut d.max_area {
        *a *= k * k;
    }
}

/// want: a document that must be accepted (true) or refused (false)
fn document(r: &mut Rng, want: bool) -> Doc {
    let names = ["sample", "", "Sample 4 - Circle", "na\"me\\ \n\t\u{1}", "Größe ∑ 網", "/etc/passwd", "{}", "null"];
    let ids = ["44a111eb-f387-456e-ad9b-6a65ea6e89b4", "00000000-0000-0000-0000-000000000000", "44A111EB-F387-456E-AD9B-6A65EA6E89B4", "44a111ebf387456ead9b6a65ea6e89b4"];
    let dates = ["2020-09-04T00:00:00.000Z", "", "yesterday", "9999-12-31T23:59:59.999Z"];
    let mut d = Doc {
        name: r.pick(&names).to_string(),
        id: if r.chance(0.5) { Some(r.pick(&ids).to_string()) } else { None },
        date: if r.chance(0.6) { Some(r.pick(&dates).to_string()) } else { None },
        include: vec![],
        remove: vec![],
        segs: vec![],
        verts: vec![],
        quality: *r.pick(&[1.0, 1.2, 1.42, 1.42, 1.5, 1.5, 2.0, 2.5]),
        max_area: None,
    };
    let n = *r.pick(&[6, 8, 12, 16]);
    let circles = r.chance(0.5);
    let fits = |d: &mut Doc| -> Option<bool> {
        match expect(d) {
            Expect::Ok(_) => Some(true),
            Expect::Reject(_) => Some(false),
            Expect::Skip => {
                if d.quality < 1.42 {
                    d.quality = 1.42;
                    match expect(d) {
                        Expect::Ok(_) => Some(true),
                        Expect::Reject(_) => Some(false),
                        Expect::Skip => None,
                    }
                } else {
                    None
                }
            }
        }
    };
    // grow the domain shape by shape: 1 holes that run into each other within a
    // big shape, 2 a chain of includes, 0 anything
    let mode = *r.pick(&[0, 0, 0, 1, 1, 2]);
    let n = if mode == 1 { 16 } else { n };
    loop {
        d.include = vec![match mode {
            1 => Shape::Poly(vec![(0.0, 0.0), (r.range(12, 20) as f64, 0.0), (r.range(12, 20) as f64, r.range(12, 20) as f64), (0.0, r.range(12, 20) as f64)]),
            2 => shape(r, 6, circles),
            _ => shape(r, n, circles),
        }];
        if fits(&mut d) == Some(true) {
            break;
        }
    }
    let (ki, kr) = match mode {
        1 => (*r.pick(&[0, 0, 1]), r.range(3, 6)),
        2 => (r.range(2, 4), *r.pick(&[0, 0, 1, 2])),
        _ => (*r.pick(&[0, 0, 1, 1, 2, 3]), *r.pick(&[0, 0, 1, 1, 2, 3])),
    };
    for rem in [false, true].iter() {
        let k = if *rem { kr } else { ki };
        let (mut got, mut tries) = (0, 0);
        while got < k && tries < 12 {
            tries += 1;
            let m = match mode {
                1 if *rem => r.range(3, 7),
                2 => r.range(3, 6),
                _ if *rem => (n / 2).max(3),
                _ => n,
            };
            let s = shape(r, m, circles);
            let s = if mode == 2 && !*rem {
                // next to the one before
                let at = corners(d.include.last().unwrap())[0];
                moved(s, at.0.floor() + r.range(-3, 5) as f64, at.1.floor() + r.range(-3, 3) as f64)
            } else if mode == 1 && *rem {
                moved(s, r.range(1, 11) as f64, r.range(1, 11) as f64)
            } else {
                moved(s, r.range(-n / 2, n) as f64, r.range(-n / 2, n) as f64)
            };
            let mut t = d.clone();
            if *rem {
                t.remove.push(s);
            } else {
                t.include.push(s);
            }
            if fits(&mut t) == Some(true) {
                d = t;
                got += 1;
            }
        }
    }
    let (kv, ks) = (*r.pick(&[0, 0, 1, 3, 6]), *r.pick(&[0, 0, 0, 1, 2, 3]));
    let anywhere = |r: &mut Rng| {
        let p = gen::lattice(r, n);
        (p.0 + r.range(-7, 7) as f64 / 16.0, p.1 + r.range(-7, 7) as f64 / 16.0)
    };
    for _ in 0..3 * ks {
        if d.segs.len() < ks {
            let a = if !d.segs.is_empty() && r.chance(0.3) { r.pick(&d.segs).1 } else { anywhere(r) };
            let s = (a, anywhere(r));
            d.segs.push(s);
            if s.0 == s.1 || fits(&mut d.clone()) != Some(true) {
                d.segs.pop();
            }
        }
    }
    for _ in 0..2 * kv {
        if d.verts.len() < kv {
            let p = anywhere(r);
            d.verts.push(p);
            if fits(&mut d.clone()) != Some(true) {
                d.verts.pop();
            }
        }
    }
    fits(&mut d);
    if let Expect::Ok(w) = expect(&d) {
        if r.chance(0.5) {
            d.max_area = Some(w.area() / r.range(3, 60) as f64);
        }
    }
    if !want {
        for _ in 0..40 {
            let mut t = d.clone();
            match r.below(5) {
                0 => t.include.push(moved(shape(r, n / 2 + 2, circles), r.range(-30, 30) as f64, r.range(-30, 30) as f64)),
                1 => {
                    // a bar across everything
                    let (x, w) = (r.range(0, n) as f64 + 0.25, r.range(1, 8) as f64 / 8.0);
                    let b = vec![(x, -60.5), (x + w, -60.5), (x + w, 60.5), (x, 60.5)];
                    t.remove.push(Shape::Poly(if r.chance(0.5) { b } else { b.iter().map(|p| (-p.1, p.0)).collect() }));
                }
                2 => t.remove.push(Shape::Poly(vec![(-60.25, -61.0), (60.5, -62.0), (61.0, 60.0), (-60.0, 60.75)])),
                3 => t.verts.push((r.range(-9, n + 9) as f64 + 0.3125, r.range(-9, n + 9) as f64 + 0.1875)),
                _ => {
                    let p = |r: &mut Rng| (r.range(-3, n + 3) as f64 + 0.3125, r.range(-3, n + 3) as f64 + 0.1875);
                    let s = (p(r), p(r));
                    t.segs.push(s);
                }
            }
            if t.segs.iter().all(|s| s.0 != s.1) {
                if let Expect::Reject(_) = expect(&t) {
                    d = t;
                    break;
                }
            }
        }
    }
    if r.chance(0.5) {
        let k = *r.pick(&[0.125, 0.5, 2.0, 16.0]);
        let off = (r.range(-100, 100) as f64 * 0.5, r.range(-100, 100) as f64 * 0.25);
        let mut t = d.clone();
        scale(&mut t, k, off);
        let kind = |d: &Doc| match expect(d) {
            Expect::Ok(_) => 1,
            Expect::Reject(_) => 2,
            Expect::Skip => 0,
        };
        if kind(&t) == kind(&d) {
            d = t;
        }
    }
    d
}

fn run(r: &mut Rng) -> Run {
    Run {
        key: r.next(),
        style: if r.chance(0.1) { 0 } else { r.next() >> 8 },
        to_file: r.chance(0.7),
        clock: (r.range(100_000_000, 4_000_000_000) as u64) * 1_000_000_000 + r.below(1_000_000_000),
        plan: vec![],
    }
}

fn soft(r: &mut Rng) -> Fault {
    let f = |cls: &str, idx: i64, act: &str, arg: i64| Fault { cls: cls.into(), idx: idx as u64, act: act.into(), arg };
    match r.below(12) {
        0 => f("ri", r.range(0, 6), "err", 4),
        1 | 2 => f("ri", r.range(0, 8), "short", 1 + r.range(0, 300)),
        3 => f("w", r.range(0, 5), "err", 4),
        4 | 5 => f("w", r.range(0, 6), "short", 1 + r.range(0, 1500)),
        6 => f("oi", 0, "err", 4),
        7 => f("oo", 0, "err", 4),
        8 => f("si", r.range(0, 2), "err", *r.pick(&[5, 13, 38, 75])),
        9 => f("c", r.range(0, 3), "jump", *r.pick(&[1_000_000, 3_600_000_000_000, -3_600_000_000_000, 31_536_000_000_000_000])),
        10 => f("g", r.range(0, 3), "err", 4),
        _ => f("g", r.range(0, 3), "short", 1 + r.range(0, 8)),
    }
}

fn rough(r: &mut Rng) -> Fault {
    let f = |cls: &str, idx: i64, act: &str, arg: i64| Fault { cls: cls.into(), idx: idx as u64, act: act.into(), arg };
    match r.below(16) {
        0 => f("oi", 0, "err", *r.pick(&[5, 13, 24, 23, 2])),
        1 => f("ri", r.range(0, 3), "err", *r.pick(&[5, 12, 21])),
        2 => f("ri", r.range(0, 3), "zero", 0),
        3 | 4 => f("oo", 0, "err", *r.pick(&[13, 28, 30, 24, 5, 21])),
        5 | 6 => f("w", r.range(0, 3), "err", *r.pick(&[5, 28, 27, 32, 122])),
        7 => f("w", r.range(0, 3), "zero", 0),
        8 | 9 => f("w", 0, "full", *r.pick(&[0, 1, 10, 100, 500, 1000, 3000])),
        10 | 11 => f("w", r.range(0, 2), "torn", *r.pick(&[0, 1, 20, 300, 1000, 4000])),
        12 => f(*r.pick(&["oi", "ri", "oo", "w", "ox", "c", "g", "si"]), 0, "kill", 0),
        13 => f("w", r.range(0, 3), "kill", 0),
        _ => {
            let m = *r.pick(&[20, 200, 2000, 20000]);
            f("m", r.range(0, m), "err", 12)
        }
    }
}

pub fn gen(r: &mut Rng, prop: &str) -> Cli {
    let mut c = Cli { doc: document(r, true), bad: None, before: None, runs: vec![] };
    if r.chance(0.4) {
        c.before = Some(*r.pick(&[0, 1, 40, 100_000]));
    }
    match prop {
        "P14" => c.runs.push(run(r)),
        "P15" => {
            for _ in 0..r.range(2, 4) {
                c.runs.push(run(r));
            }
        }
        "P16" => {
            if r.chance(0.35) {
                c.doc = document(r, false);
            } else {
                c.bad = Some((r.pick(BADS).to_string(), r.next() >> 8));
            }
            for _ in 0..r.range(1, 2) {
                c.runs.push(run(r));
            }
        }
        _ => {
            let k = r.range(1, 3);
            let swarm = r.below(3);
            for _ in 0..k {
                let mut x = run(r);
                for _ in 0..r.range(1, 4) {
                    let f = match swarm {
                        0 => soft(r),
                        1 => rough(r),
                        _ => {
                            if r.chance(0.5) {
                                soft(r)
                            } else {
                                rough(r)
                            }
                        }
                    };
                    if !x.plan.iter().any(|g| g.cls == f.cls && g.idx == f.idx) {
                        x.plan.push(f);
                    }
                }
                c.runs.push(x);
            }
            let mut last = run(r);
            last.to_file = c.runs.iter().any(|x| x.to_file);
            c.runs.push(last);
        }
    }
    c
}

pub fn shrink(c: &Cli) -> Vec<Cli> {
    let mut out: Vec<Cli> = vec![];
    let kind = |d: &Doc| match expect(d) {
        Expect::Ok(_) => 1,
        Expect::Reject(_) => 2,
        Expect::Skip => 0,
    };
    for i in 0..c.runs.len() {
        if c.runs.len() > 1 {
            let mut t = c.clone();
            t.runs.remove(i);
            out.push(t);
        }
        for k in 0..c.runs[i].plan.len() {
            let mut t = c.clone();
            t.runs[i].plan.remove(k);
            out.push(t);
        }
        if c.runs[i].style != 0 {
            let mut t = c.clone();
            t.runs[i].style = 0;
            out.push(t);
        }
        if c.runs[i].key > 2 {
            let mut t = c.clone();
            t.runs[i].key = 2;
            out.push(t);
        }
    }
    if c.before.is_some() {
        let mut t = c.clone();
        t.before = None;
        out.push(t);
    }
    let mut docs: Vec<Doc> = vec![];
    let d = &c.doc;
    let mut put = |f: &dyn Fn(&mut Doc)| {
        let mut t = d.clone();
        f(&mut t);
        docs.push(t);
    };
    for i in 0..d.include.len() {
        if d.include.len() > 1 {
            put(&|t| {
                t.include.remove(i);
            });
        }
        if let Shape::Poly(p) = &d.include[i] {
            for k in 0..p.len() {
                put(&|t| {
                    if let Shape::Poly(p) = &mut t.include[i] {
                        p.remove(k);
                    }
                });
            }
        }
    }
    for i in 0..d.remove.len() {
        put(&|t| {
            t.remove.remove(i);
        });
        if let Shape::Poly(p) = &d.remove[i] {
            for k in 0..p.len() {
                put(&|t| {
                    if let Shape::Poly(p) = &mut t.remove[i] {
                        p.remove(k);
                    }
                });
            }
        }
    }
    (0..d.segs.len()).for_each(|i| {
        put(&|t| {
            t.segs.remove(i);
        })
    });
    (0..d.verts.len()).for_each(|i| {
        put(&|t| {
            t.verts.remove(i);
        })
    });
    if d.max_area.is_some() {
        put(&|t| t.max_area = None);
    }
    if d.name != "n" {
        put(&|t| t.name = "n".into());
    }
    let k0 = kind(d);
    for t in docs {
        if t.include.iter().chain(t.remove.iter()).all(|s| corners(s).len() >= 3) && kind(&t) == k0 {
            out.push(Cli { doc: t, ..c.clone() });
        }
    }
    out
}
