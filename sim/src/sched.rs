//! The same domain meshed under several schedules: other hash keys, other
//! orders and groupings of the operations, other directions and starting
//! points, meshing in between, meshing again, meshing after a refinement.
use crate::case::*;
use crate::genlib;
use crate::geom::*;
use crate::lib_judge::model;
use crate::oracle::*;
use crate::rng::*;
use crate::scen::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Sched {
    pub base: Scen,
    pub variants: Vec<Scen>,
}

fn rekey(r: &mut Rng, s: &mut Scen) {
    for st in s.steps.iter_mut() {
        st.key = genlib::key(r);
    }
}

/// final declared domain, if every step is accepted
fn domain(s: &Scen) -> Option<World> {
    let mut w = World::new(&s.boundary, s.exact);
    for st in &s.steps {
        match model(&mut w, &st.op) {
            None | Some(Verdict::Accept) => {}
            _ => return None,
        }
    }
    Some(w)
}
fn same_domain(a: &World, b: &World) -> bool {
    let t = 1e-9 * a.l;
    let near = |p: P, q: P| (p.0 - q.0).abs() <= t && (p.1 - q.1).abs() <= t;
    a.verts.len() == b.verts.len()
        && a.verts.iter().all(|p| b.verts.contains(p))
        && a.holes.len() == b.holes.len()
        && a.segs.len() == b.segs.len()
        && a.segs.iter().all(|s| {
            b.segs.iter().any(|u| (near(s.0, u.0) && near(s.1, u.1)) || (near(s.0, u.1) && near(s.1, u.0)))
        })
}

/// one rewriting of the history that declares the same domain
fn vary(r: &mut Rng, s: &Scen) -> Scen {
    let mut t = s.clone();
    rekey(r, &mut t);
    for _ in 0..r.range(0, 4) {
        match r.below(8) {
            0 => {
                // neighbours swap
                if t.steps.len() >= 3 {
                    let i = r.below(t.steps.len() as u64 - 2) as usize;
                    t.steps.swap(i, i + 1);
                }
            }
            1 => {
                // a batch splits in two
                if t.steps.is_empty() {
                    continue;
                }
                let i = r.below(t.steps.len() as u64) as usize;
                let key = genlib::key(r);
                let (a, b) = match &t.steps[i].op {
                    Op::Vertices(v) if v.len() >= 2 => {
                        let k = r.range(1, v.len() as i64 - 1) as usize;
                        (Op::Vertices(v[..k].to_vec()), Op::Vertices(v[k..].to_vec()))
                    }
                    Op::Segments(v) if v.len() >= 2 => {
                        let k = r.range(1, v.len() as i64 - 1) as usize;
                        (Op::Segments(v[..k].to_vec()), Op::Segments(v[k..].to_vec()))
                    }
                    _ => continue,
                };
                t.steps[i].op = a;
                t.steps.insert(i + 1, Step { key, op: b });
            }
            2 => {
                // segments run the other way
                for st in t.steps.iter_mut() {
                    if let Op::Segments(v) = &mut st.op {
                        for e in v.iter_mut() {
                            if r.chance(0.5) {
                                *e = (e.1, e.0);
                            }
                        }
                    }
                }
            }
            3 => t.boundary = crate::gen::rot(r, t.boundary.clone()),
            4 => {
                for st in t.steps.iter_mut() {
                    if let Op::Hole(h) = &mut st.op {
                        *h = crate::gen::rot(r, h.clone());
                    }
                }
            }
            5 => {
                let i = r.below(t.steps.len() as u64 + 1) as usize;
                t.steps.insert(i, Step { key: genlib::key(r), op: Op::Triangulate });
            }
            6 => {
                let key = genlib::key(r);
                t.steps.push(Step { key, op: Op::Triangulate });
            }
            _ => {
                if let Some(w) = domain(&t) {
                    if genlib::refinable(&w) {
                        let quality = 1.5;
                        let max_area = if r.chance(0.5) { None } else { Some(w.area() / 20.0) };
                        t.steps.push(Step { key: genlib::key(r), op: Op::Refine { quality, max_area } });
                        t.steps.push(Step { key: genlib::key(r), op: Op::Triangulate });
                    }
                }
            }
        }
    }
    t
}

pub fn gen(r: &mut Rng) -> Sched {
    let mut p = genlib::default();
    p.big = r.chance(0.08);
    let base = genlib::gen(r, &p);
    let mut variants = vec![];
    if let Some(w) = domain(&base) {
        let k = r.range(2, 5);
        let mut tries = 0;
        while (variants.len() as i64) < k && tries < 20 {
            tries += 1;
            let v = vary(r, &base);
            if domain(&v).map(|x| same_domain(&w, &x)).unwrap_or(false) && genlib::valid(&v) {
                variants.push(v);
            }
        }
    }
    Sched { base, variants }
}

struct Last {
    m: Mesh,
    o: Obs,
}
fn last(s: &Scen, who: usize, rep: &mut Report) -> Option<Last> {
    let mut fin = None;
    for (i, o) in run(s).into_iter().enumerate() {
        rep.ticks += o.ticks;
        match &o.out {
            Out::Ok => {}
            Out::Panic(m) => {
                rep.add("panic", i, format!("schedule {}: {}", who, crate::lib_judge::short_panic(m)));
                return None;
            }
            _ => {
                rep.tag("rejected_end");
                return None;
            }
        }
        if let (Op::Triangulate, Some(m)) = (&s.steps[i].op, &o.mesh) {
            fin = Some(Last { m: m.clone(), o: o.clone() });
        }
    }
    fin
}

pub fn judge(s: &Sched) -> Report {
    let mut rep = Report::default();
    let mut dg = Digest::new();
    let w = match domain(&s.base) {
        Some(w) => w,
        None => return rep,
    };
    let a = match last(&s.base, 0, &mut rep) {
        Some(a) => a,
        None => return rep,
    };
    dg.u64(a.m.digest);
    let pts = w.required();
    let nr = Near::new(&pts, 1e-6 * w.l);
    let id = |p: P| nr.find(p, 1e-9 * w.l).unwrap_or(usize::MAX);
    let (strict_a, tied_a) = strict_edges(&a.m, &id);
    let all_a: BTreeSet<(usize, usize)> = strict_a.union(&tied_a).cloned().collect();
    rep.count("triangles", a.m.tris.len() as u64);
    rep.tag("runs_of_base");
    for (k, v) in s.variants.iter().enumerate() {
        let b = match last(v, k + 1, &mut rep) {
            Some(b) => b,
            None => continue,
        };
        rep.tag("schedules_compared");
        dg.u64(b.m.digest);
        let (strict_b, tied_b) = strict_edges(&b.m, &id);
        let all_b: BTreeSet<(usize, usize)> = strict_b.union(&tied_b).cloned().collect();
        if b.m.digest != a.m.digest {
            rep.tag("executions_differ");
        }
        if all_a != all_b {
            rep.tag("ties_broken_differently");
        }
        if a.m.tris.len() != b.m.tris.len() {
            rep.add("differs", k, format!("{} triangles under one schedule, {} under another", a.m.tris.len(), b.m.tris.len()));
        }
        let name = |e: &(usize, usize)| {
            let q = |i: usize| pts.get(i).map(|p| format!("({},{})", p.0, p.1)).unwrap_or("an unknown vertex".into());
            format!("{}-{}", q(e.0), q(e.1))
        };
        if let Some(e) = strict_a.iter().find(|e| !all_b.contains(e)) {
            rep.add("differs", k, format!("edge {} only exists under one schedule", name(e)));
        }
        if let Some(e) = strict_b.iter().find(|e| !all_a.contains(e)) {
            rep.add("differs", k, format!("edge {} only exists under one schedule", name(e)));
        }
        if a.o.verts != b.o.verts || a.o.holes.len() != b.o.holes.len() {
            rep.add("differs", k, "declared vertices or holes depend on the schedule".into());
        }
    }
    if !w.fuzzy.is_empty() {
        rep.tag("segments_crossed");
    }
    if !w.holes.is_empty() {
        rep.tag("with_holes");
    }
    if !w.segs.is_empty() {
        rep.tag("with_segments");
    }
    rep.digest = dg.0;
    rep
}

pub fn shrink(s: &Sched) -> Vec<Sched> {
    let mut out = vec![];
    for i in 0..s.variants.len() {
        if s.variants.len() > 1 {
            out.push(Sched { base: s.base.clone(), variants: vec![s.variants[i].clone()] });
        }
    }
    if s.variants.len() != 1 {
        return out;
    }
    // drop a declared thing from both
    let v = &s.variants[0];
    let mut pts: Vec<P> = vec![];
    let mut segs: Vec<(P, P)> = vec![];
    for st in &s.base.steps {
        match &st.op {
            Op::Vertices(x) => pts.extend(x.iter()),
            Op::Segments(x) => segs.extend(x.iter()),
            _ => {}
        }
    }
    let cut = |c: &Scen, f: &dyn Fn(&Op) -> Option<Op>| -> Scen {
        let mut d = c.clone();
        d.steps = c.steps.iter().filter_map(|st| f(&st.op).map(|op| Step { key: st.key, op })).collect();
        d
    };
    let mut both = |f: &dyn Fn(&Op) -> Option<Op>| {
        let t = Sched { base: cut(&s.base, f), variants: vec![cut(v, f)] };
        out.push(t);
    };
    both(&|op| if let Op::Vertices(_) = op { None } else { Some(op.clone()) });
    both(&|op| if let Op::Segments(_) = op { None } else { Some(op.clone()) });
    both(&|op| if let Op::Refine { .. } = op { None } else { Some(op.clone()) });
    for st in &s.base.steps {
        if let Op::Hole(h) = &st.op {
            let k: BTreeSet<(u64, u64)> = h.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect();
            both(&|op| match op {
                Op::Hole(g) if g.iter().all(|p| k.contains(&(p.0.to_bits(), p.1.to_bits()))) => None,
                o => Some(o.clone()),
            });
        }
    }
    for e in segs {
        both(&|op| match op {
            Op::Segments(v) => {
                let v: Vec<(P, P)> = v.iter().filter(|x| undirected(**x) != undirected(e)).cloned().collect();
                if v.is_empty() { None } else { Some(Op::Segments(v)) }
            }
            o => Some(o.clone()),
        });
    }
    for p in pts {
        both(&|op| match op {
            Op::Vertices(v) => {
                let v: Vec<P> = v.iter().filter(|x| **x != p).cloned().collect();
                if v.is_empty() { None } else { Some(Op::Vertices(v)) }
            }
            o => Some(o.clone()),
        });
    }
    let drop_step = |c: &Scen| -> Vec<Scen> {
        (0..c.steps.len())
            .filter(|i| matches!(c.steps[*i].op, Op::Triangulate | Op::Refine { .. }))
            .map(|i| {
                let mut d = c.clone();
                d.steps.remove(i);
                d
            })
            .collect()
    };
    for d in drop_step(&s.base) {
        out.push(Sched { base: d, variants: vec![v.clone()] });
    }
    for d in drop_step(v) {
        out.push(Sched { base: s.base.clone(), variants: vec![d] });
    }
    let zero = |c: &Scen| {
        let mut d = c.clone();
        d.steps.iter_mut().for_each(|st| st.key = (0, 0));
        d
    };
    out.push(Sched { base: zero(&s.base), variants: vec![v.clone()] });
    out.push(Sched { base: s.base.clone(), variants: vec![zero(v)] });
    out.retain(|t| {
        genlib::valid(&t.base) && t.variants.iter().all(|v| genlib::valid(v)) && {
            let a = domain(&t.base);
            t.variants.iter().all(|v| match (&a, domain(v)) {
                (Some(a), Some(b)) => same_domain(a, &b),
                _ => false,
            })
        }
    });
    out
}
