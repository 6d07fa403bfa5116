//! Swarm generator of Triangulator histories. Lattice coordinates first, then
//! one transform for the whole history: dyadic scaling and offsets (exact), or
//! a rotation with arbitrary scale and offset (inexact).
use crate::gen;
use crate::geom::*;
use crate::lib_judge::model;
use crate::rng::*;
use crate::scen::*;
use crate::world::*;

#[derive(Clone, Debug)]
pub struct Prof {
    /// keep operations that must be rejected
    pub chaos: bool,
    /// refine steps allowed
    pub refine: bool,
    /// every corner between constraints at least 60 degrees
    pub wide: bool,
    /// many vertices
    pub big: bool,
    /// no mesh steps at all
    pub no_mesh: bool,
    pub quality: Vec<f64>,
}

pub fn default() -> Prof {
    Prof { chaos: false, refine: false, wide: false, big: false, no_mesh: false, quality: vec![1.42, 1.5, 2.0] }
}

pub fn key(r: &mut Rng) -> Key {
    (r.next(), r.next())
}

pub fn boundary(r: &mut Rng, n: i64, wide: bool) -> Vec<P> {
    loop {
        let b = match r.below(if wide { 9 } else { 12 }) {
            0 | 1 => gen::rect(r, n),
            2 => {
                let q = gen::rect(r, n);
                let p = *r.pick(&[0.2, 0.5, 1.0]);
                gen::subdivide(r, &q, p)
            }
            3 => gen::rectilinear(r, n),
            4 => {
                let q = gen::rectilinear(r, n);
                let p = *r.pick(&[0.2, 0.5, 1.0]);
                gen::subdivide(r, &q, p)
            }
            5 | 6 => {
                let k = r.range(if wide { 4 } else { 3 }, 12) as usize;
                gen::convex(r, n, k)
            }
            7 => {
                let k = r.range(if wide { 5 } else { 3 }, 10) as usize;
                let q = gen::convex(r, n, k);
                gen::subdivide(r, &q, 0.5)
            }
            8 => comb(r, n),
            9 | 10 => {
                let k = r.range(4, 12) as usize;
                gen::star(r, n, k)
            }
            _ => {
                let h = hull((0..3).map(|_| gen::lattice(r, n)).collect());
                if h.len() < 3 {
                    continue;
                }
                h
            }
        };
        if !simple(&b) || area2(&b) <= 0.0 {
            continue;
        }
        if wide && World::new(&b, true).min_angle() < std::f64::consts::PI / 3.0 {
            continue;
        }
        return b;
    }
}

/// rectilinear comb: long parallel corridors, far vertices that see little
pub fn comb(r: &mut Rng, n: i64) -> Vec<P> {
    let teeth = r.range(1, 3.min(n / 4));
    let mut p: Vec<P> = vec![(0.0, 0.0)];
    let w = (4 * teeth + 2) as f64;
    p.push((w, 0.0));
    let base = r.range(1, n / 4).max(1);
    let mut x = w;
    let mut up = true;
    let mut y = r.range(base + 1, n) as f64;
    p.push((x, y));
    while x > 0.0 {
        let step = if up { 2.0 } else { 2.0 };
        x -= step;
        p.push((x, y));
        if x <= 0.0 {
            break;
        }
        up = !up;
        y = if up { r.range(base + 1, n) as f64 } else { base as f64 };
        p.push((x, y));
    }
    if *p.last().unwrap() == (0.0, 0.0) {
        p.pop();
    }
    gen::rot(r, p)
}

fn small_poly(r: &mut Rng, n: i64, maxr: i64, wide: bool) -> Vec<P> {
    loop {
        let (x, y) = gen::lattice(r, n);
        let rounded = r.chance(0.25);
        let h: Vec<P> = match if rounded { 9 } else { r.below(if wide { 3 } else { 6 }) } {
            9 => {
                // many corners: the inside has triangles far from the rim
                let k = r.range(8, 22) as usize;
                let m = r.range(maxr, 3 * maxr).max(4);
                let q = match r.below(if wide { 2 } else { 3 }) {
                    0 => gen::convex(r, m, k),
                    1 => {
                        let q = gen::rect(r, m);
                        gen::subdivide(r, &q, 1.0)
                    }
                    _ => gen::star(r, m, k),
                };
                q.iter().map(|p| (p.0 + x - (m / 2) as f64, p.1 + y - (m / 2) as f64)).collect()
            }
            0 => {
                let (w, q) = (r.range(1, maxr) as f64, r.range(1, maxr) as f64);
                vec![(x, y), (x + w, y), (x + w, y + q), (x, y + q)]
            }
            1 => {
                let d = r.range(1, (maxr + 1) / 2) as f64;
                vec![(x - d, y), (x, y - d), (x + d, y), (x, y + d)]
            }
            2 => {
                let k = r.range(4, 8) as usize;
                gen::convex(r, 2 * maxr, k).iter().map(|p| (p.0 + x, p.1 + y)).collect()
            }
            3 => {
                let k = r.range(4, 8) as usize;
                gen::star(r, 2 * maxr, k).iter().map(|p| (p.0 + x, p.1 + y)).collect()
            }
            4 => gen::rectilinear(r, maxr.max(4)).iter().map(|p| (p.0 + x, p.1 + y)).collect(),
            _ => {
                let d = |r: &mut Rng| r.range(-maxr, maxr) as f64;
                hull(vec![
                    (x + d(r), y + d(r)),
                    (x + d(r), y + d(r)),
                    (x + d(r), y + d(r)),
                ])
            }
        };
        if h.len() >= 3 && simple(&h) && area2(&h) > 0.0 {
            let h = if r.chance(0.2) { gen::subdivide(r, &h, 0.5) } else { h };
            return gen::rot(r, h);
        }
    }
}

fn any_point(r: &mut Rng, w: &World, n: i64) -> P {
    let half = r.chance(0.15);
    match r.below(10) {
        0 if !w.segs.is_empty() => {
            // on a segment: an end, or a lattice point of it
            let s = *r.pick(&w.given.iter().cloned().chain(w.segs.iter().cloned()).collect::<Vec<_>>());
            let g = gen::gcd((s.1 .0 - s.0 .0).abs() as i64, (s.1 .1 - s.0 .1).abs() as i64).max(1);
            let k = r.range(0, g) as f64 / g as f64;
            let q = (s.0 .0 + k * (s.1 .0 - s.0 .0), s.0 .1 + k * (s.1 .1 - s.0 .1));
            (q.0.round(), q.1.round())
        }
        1 if !w.verts.is_empty() => *r.pick(&w.verts),
        2 if r.chance(0.3) => *r.pick(&w.boundary),
        3 if !w.holes.is_empty() && r.chance(0.3) => {
            let h = r.pick(&w.holes).clone();
            *r.pick(&h)
        }
        4..=7 if n >= FINE => {
            // near a declared point, as near as 1 and as far as half the domain
            let near = match r.below(4) {
                0 if !w.verts.is_empty() => *r.pick(&w.verts),
                1 if !w.segs.is_empty() => {
                    let s = *r.pick(&w.segs);
                    if r.chance(0.5) { s.0 } else { s.1 }
                }
                2 if !w.holes.is_empty() => {
                    let h = r.pick(&w.holes).clone();
                    *r.pick(&h)
                }
                _ => *r.pick(&w.boundary),
            };
            let d = (r.range(1, n / 2) >> r.below(8)).max(1);
            ((near.0 + r.range(-d, d) as f64).round(), (near.1 + r.range(-d, d) as f64).round())
        }
        _ => {
            let p = gen::lattice(r, n);
            if half {
                (p.0 + 0.5, p.1 + 0.5)
            } else {
                p
            }
        }
    }
}

fn lattice_ok(p: P) -> bool {
    (p.0 * 2.0).fract() == 0.0 && (p.1 * 2.0).fract() == 0.0
}

fn gen_op(r: &mut Rng, w: &World, n: i64, pr: &Prof, mix: &[u64; 3]) -> Op {
    let t = r.below(mix[0] + mix[1] + mix[2]);
    if t < mix[0] {
        let m = r.range(1, (n / 5).max(2));
        if pr.chaos && !w.holes.is_empty() && r.chance(0.25) {
            // near or around an existing hole
            let o = r.pick(&w.holes).clone();
            let dx = r.range(-2, 2) as f64;
            let dy = r.range(-2, 2) as f64;
            if r.chance(0.5) {
                return Op::Hole(o.iter().map(|p| (p.0 + dx, p.1 + dy)).collect());
            }
            let (x0, x1) = (o.iter().map(|p| p.0).fold(1e9, f64::min), o.iter().map(|p| p.0).fold(-1e9, f64::max));
            let (y0, y1) = (o.iter().map(|p| p.1).fold(1e9, f64::min), o.iter().map(|p| p.1).fold(-1e9, f64::max));
            let g = r.range(0, 2) as f64;
            return Op::Hole(vec![(x0 - g, y0 - g), (x1 + g, y0 - g), (x1 + g, y1 + g), (x0 - g, y1 + g)]);
        }
        return Op::Hole(small_poly(r, n, m, pr.wide));
    }
    if t < mix[0] + mix[1] {
        let k = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 6]);
        let mut es: Vec<(P, P)> = vec![];
        let good = |e: (P, P)| {
            let mut x = w.clone();
            x.insert_segments(&[e]) == Verdict::Accept
        };
        let strict = !pr.chaos || r.chance(0.5);
        let mut budget = 40;
        while es.len() < k && budget > 0 {
            budget -= 1;
            let a = if r.chance(0.3) && !es.is_empty() {
                let e = *r.pick(&es);
                if r.chance(0.5) { e.0 } else { e.1 }
            } else {
                any_point(r, w, n)
            };
            let b = if r.chance(0.3) {
                let (dx, dy) = *r.pick(&[(1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (2.0, 1.0), (1.0, -1.0)]);
                let q = r.range(1, 6) as f64;
                (a.0 + dx * q, a.1 + dy * q)
            } else {
                any_point(r, w, n)
            };
            if a != b && lattice_ok(a) && lattice_ok(b) && (!strict || good((a, b))) {
                es.push((a, b));
                if r.chance(0.08) {
                    es.push((b, a));
                }
                let far = (a, (2.0 * b.0 - a.0, 2.0 * b.1 - a.1));
                if r.chance(0.08) && good(far) {
                    es.push(far);
                }
            }
        }
        return Op::Segments(es);
    }
    let k = if pr.big { r.range(20, 120) } else { *r.pick(&[0, 1, 1, 2, 3, 5, 8, 12]) };
    let mut vs: Vec<P> = vec![];
    for _ in 0..k {
        let p = any_point(r, w, n);
        if lattice_ok(p) {
            vs.push(p);
        }
    }
    if !pr.chaos {
        let ok = |p: &P| w.at(&w.boundary, *p) == At::In && w.holes.iter().all(|h| w.at(h, *p) == At::Out);
        vs.retain(|p| ok(p));
    } else if r.chance(0.5) {
        // mostly valid batch with possibly one bad vertex
        let ok = |p: &P| w.at(&w.boundary, *p) == At::In && w.holes.iter().all(|h| w.at(h, *p) == At::Out);
        let mut bad = r.below(2);
        vs.retain(|p| {
            ok(p) || {
                let keep = bad > 0;
                bad = 0;
                keep
            }
        });
    }
    Op::Vertices(sort_p(vs))
}

/// Lattices from here on are fine: few coincidences, corners of any angle, and
/// points crowded around others.
const FINE: i64 = 100;

pub fn gen(r: &mut Rng, pr: &Prof) -> Scen {
    let n = if r.chance(0.25) { *r.pick(&[100, 250, 1000]) } else if pr.big { *r.pick(&[16, 24, 32]) } else { *r.pick(&[6, 8, 12, 16, 16, 20]) };
    let b = boundary(r, n, pr.wide);
    let mut w = World::new(&b, true);
    let mut steps: Vec<Step> = vec![];
    // swarm: op mix per run
    let mut mix = [r.below(4), r.below(5), r.below(4)];
    if pr.wide {
        mix[1] = if r.chance(0.4) { r.below(3) } else { 0 };
    }
    if pr.big {
        mix[2] += 1;
    }
    let k = if mix == [0, 0, 0] { 0 } else { r.range(0, if pr.chaos { 10 } else { 7 }) };
    let (mut tries, mut done) = (0, 0);
    let mut meshed = false;
    while done < k && tries < 60 {
        tries += 1;
        let op = gen_op(r, &w, n, pr, &mix);
        let mut w2 = w.clone();
        match model(&mut w2, &op) {
            Some(Verdict::Ambiguous) => continue,
            Some(Verdict::Accept) => {
                if pr.wide && w2.min_angle() < std::f64::consts::PI / 3.0 {
                    continue;
                }
            }
            _ => {
                if !pr.chaos {
                    continue;
                }
            }
        }
        w = w2;
        steps.push(Step { key: key(r), op });
        done += 1;
        if !pr.no_mesh && r.chance(0.12) {
            steps.push(Step { key: key(r), op: Op::Triangulate });
            meshed = true;
        }
        if meshed && pr.refine && r.chance(0.05) && refinable(&w) {
            steps.push(refine_step(r, &w, pr, n));
            // the mesh of a domain that changed since is not judged: retriangulate
        }
    }
    if !pr.no_mesh {
        steps.push(Step { key: key(r), op: Op::Triangulate });
        if pr.refine && refinable(&w) {
            steps.push(refine_step(r, &w, pr, n));
            if r.chance(0.3) {
                steps.push(refine_step(r, &w, pr, n));
            }
            if r.chance(0.15) {
                steps.push(Step { key: key(r), op: Op::Triangulate });
                if r.chance(0.5) {
                    steps.push(refine_step(r, &w, pr, n));
                }
            }
        }
    }
    let mut s = Scen { exact: true, boundary: b, steps };
    fix_refines(&mut s);
    if n >= FINE {
        let k = if n == 100 { 0.125 } else if n == 250 { 1.0 / 16.0 } else { 1.0 / 64.0 };
        map_points(&mut s, &|p: P| (p.0 * k, p.1 * k), k * k, false);
    }
    transform(r, &mut s);
    if r.chance(0.15) {
        zeros(r, &mut s);
    }
    s
}

/// Moves one of the points to the origin and gives the zeros signs: -0.0 and
/// 0.0 are the same number, whatever bits they have.
pub fn zeros(r: &mut Rng, s: &mut Scen) {
    if s.exact {
        let mut all = s.boundary.clone();
        for st in &s.steps {
            match &st.op {
                Op::Hole(h) | Op::Vertices(h) => all.extend(h.iter().cloned()),
                Op::Segments(v) => v.iter().for_each(|(a, b)| all.extend(vec![*a, *b])),
                _ => {}
            }
        }
        let o = *r.pick(&all);
        map_points(s, &|p: P| (p.0 - o.0, p.1 - o.1), 1.0, false);
    }
    let rng = std::cell::RefCell::new(Rng::new(r.next()));
    let sign = |x: f64| if x == 0.0 && rng.borrow_mut().chance(0.5) { -x } else { x };
    map_points(s, &|p: P| (sign(p.0), sign(p.1)), 1.0, false);
}

/// a refine is meaningful only on a mesh of the current declarations
fn fix_refines(s: &mut Scen) {
    let mut out: Vec<Step> = vec![];
    let mut fresh = false;
    for st in s.steps.drain(..) {
        match st.op {
            Op::Triangulate => fresh = true,
            Op::Refine { .. } => {
                if !fresh {
                    out.push(Step { key: (st.key.1, st.key.0), op: Op::Triangulate });
                    fresh = true;
                }
            }
            _ => fresh = false,
        }
        out.push(st);
    }
    s.steps = out;
}

/// Corners sharper than this are outside what the refinement claims: with many
/// of them around each other no bound on its work is known.
pub fn refinable(w: &World) -> bool {
    w.min_angle() >= 20f64.to_radians()
}

fn refine_step(r: &mut Rng, w: &World, pr: &Prof, n: i64) -> Step {
    let mut quality = *r.pick(&pr.quality);
    if quality < std::f64::consts::SQRT_2 && (w.min_angle() < std::f64::consts::PI / 3.0) {
        // no refinement is known to end there
        quality = 1.42 + (1.42 - quality) * 0.2;
    }
    let max_area = if r.chance(0.5) { None } else { Some(w.area() / r.range(3, 60) as f64) };
    Step { key: key(r), op: Op::Refine { quality, max_area } }
}

pub fn map_points(s: &mut Scen, g: &dyn Fn(P) -> P, area: f64, flip: bool) {
    let mut poly = |h: &mut Vec<P>, flip: bool| {
        h.iter_mut().for_each(|p| *p = g(*p));
        if flip {
            h.reverse();
        }
    };
    poly(&mut s.boundary, flip);
    for st in s.steps.iter_mut() {
        match &mut st.op {
            Op::Hole(h) => poly(h, flip),
            Op::Vertices(h) => poly(h, false),
            Op::Segments(v) => v.iter_mut().for_each(|(a, b)| {
                *a = g(*a);
                *b = g(*b);
            }),
            Op::Refine { max_area, .. } => {
                if let Some(m) = max_area {
                    *m *= area;
                }
            }
            Op::Triangulate => {}
        }
    }
}

pub fn transform(r: &mut Rng, s: &mut Scen) {
    if r.chance(0.5) {
        let (sx, sy, swap) = (r.chance(0.5), r.chance(0.5), r.chance(0.5));
        let flip = (sx as u8 + sy as u8 + swap as u8) % 2 == 1;
        map_points(
            s,
            &|p: P| {
                let q = (if sx { -p.0 } else { p.0 }, if sy { -p.1 } else { p.1 });
                if swap {
                    (q.1, q.0)
                } else {
                    q
                }
            },
            1.0,
            flip,
        );
    }
    match r.below(10) {
        0..=3 => {}
        4..=6 => {
            let k = *r.pick(&[1.0 / 1024.0, 1.0 / 64.0, 0.125, 0.25, 0.5, 1.0, 2.0, 8.0, 32.0, 1024.0]);
            let m = f64::max(1.0, k);
            let m = if r.chance(0.3) { k.min(1.0) } else { m };
            // a map's coordinates: a small domain far from the origin
            let m = if k >= 1.0 && r.chance(0.2) { m * 512.0 } else { m };
            let off = (r.range(-400, 400) as f64 * 0.5 * m, r.range(-400, 400) as f64 * 0.25 * m);
            map_points(s, &|p: P| (p.0 * k + off.0, p.1 * k + off.1), k * k, false);
        }
        _ => {
            s.exact = false;
            let th = r.range(1, 1000) as f64 / 100.0;
            let k = *r.pick(&[0.001, 0.01, 0.1, 1.0, 3.7, 20.0, 5000.0]);
            let off = if r.chance(0.3) { (0.0, 0.0) } else { (r.range(-100, 100) as f64 / 7.0, r.range(-100, 100) as f64 / 3.0) };
            let m = if k >= 1.0 && r.chance(0.2) { 1000.0 } else { 1.0 };
            let off = (off.0 * m, off.1 * m);
            let (c, sn) = (th.cos(), th.sin());
            map_points(s, &|p: P| (k * (p.0 * c - p.1 * sn) + off.0, k * (p.0 * sn + p.1 * c) + off.1), k * k, false);
        }
    }
}

/// What the generator promises: smaller histories must keep to it.
pub fn valid(s: &Scen) -> bool {
    let good = |h: &Vec<P>| h.len() >= 3 && simple(h) && area2(h) > 0.0;
    if !good(&s.boundary) {
        return false;
    }
    let mut w = World::new(&s.boundary, s.exact);
    let mut fresh = false;
    for st in &s.steps {
        match &st.op {
            Op::Hole(h) if !good(h) => return false,
            Op::Segments(v) if v.iter().any(|(a, b)| a == b) => return false,
            Op::Refine { quality, .. } => {
                let m = w.min_angle();
                if !fresh || !refinable(&w) || (*quality < std::f64::consts::SQRT_2 && m < std::f64::consts::PI / 3.0) {
                    return false;
                }
            }
            Op::Triangulate => fresh = true,
            _ => {}
        }
        match model(&mut w, &st.op) {
            Some(Verdict::Ambiguous) => return false,
            Some(_) => fresh = false,
            None => {}
        }
    }
    true
}

fn without<T: Clone>(v: &[T], i: usize) -> Vec<T> {
    let mut w = v.to_vec();
    w.remove(i);
    w
}

/// Simpler histories, coarse to fine.
pub fn shrink(s: &Scen) -> Vec<Scen> {
    let mut out: Vec<Scen> = vec![];
    let n = s.steps.len();
    let mut len = n / 2;
    while len >= 1 {
        let mut i = 0;
        while i + len <= n {
            let mut t = s.clone();
            t.steps.drain(i..i + len);
            out.push(t);
            i += len;
        }
        len /= 2;
    }
    for i in 0..n {
        let mut put = |op: Op| {
            let mut t = s.clone();
            t.steps[i].op = op;
            out.push(t);
        };
        match &s.steps[i].op {
            Op::Hole(h) => (0..h.len()).for_each(|k| put(Op::Hole(without(h, k)))),
            Op::Segments(v) => {
                if v.len() > 2 {
                    put(Op::Segments(v[..v.len() / 2].to_vec()));
                    put(Op::Segments(v[v.len() / 2..].to_vec()));
                }
                (0..v.len()).for_each(|k| put(Op::Segments(without(v, k))))
            }
            Op::Vertices(v) => {
                if v.len() > 2 {
                    put(Op::Vertices(v[..v.len() / 2].to_vec()));
                    put(Op::Vertices(v[v.len() / 2..].to_vec()));
                }
                (0..v.len()).for_each(|k| put(Op::Vertices(without(v, k))))
            }
            Op::Refine { quality, max_area: Some(_) } => put(Op::Refine { quality: *quality, max_area: None }),
            _ => {}
        }
    }
    for k in 0..s.boundary.len() {
        let mut t = s.clone();
        t.boundary = without(&s.boundary, k);
        out.push(t);
    }
    for i in 0..n {
        if s.steps[i].key != (0, 0) {
            let mut t = s.clone();
            t.steps[i].key = (0, 0);
            out.push(t);
        }
    }
    out.retain(|t| valid(t));
    out
}
