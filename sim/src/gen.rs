//! Input families. All coordinates are dyadic (lattice point / 2^k) so that
//! the library's own arithmetic and the oracle's see the same numbers.
use crate::geom::*;
use crate::rng::Rng;

pub fn lattice(r: &mut Rng, n: i64) -> P {
    (r.range(0, n) as f64, r.range(0, n) as f64)
}

/// strictly convex ccw polygon with about k vertices on an n x n lattice
pub fn convex(r: &mut Rng, n: i64, k: usize) -> Vec<P> {
    for _ in 0..60 {
        let c = n as f64 / 2.0;
        let pts: Vec<P> = (0..k)
            .map(|i| {
                let a = (i as f64 + r.unit() * 0.8) / k as f64 * std::f64::consts::PI * 2.0;
                ((c + c * a.cos()).round(), (c + c * a.sin()).round())
            })
            .collect();
        let h = hull(pts);
        if h.len() >= 3 && area2(&h) > 0.2 * (n * n) as f64 {
            return rot(r, h);
        }
    }
    rect(r, n.max(2))
}

pub fn rot<T: Clone>(r: &mut Rng, h: Vec<T>) -> Vec<T> {
    let s = r.below(h.len() as u64) as usize;
    h[s..].iter().chain(h[..s].iter()).cloned().collect()
}

pub fn rect(r: &mut Rng, n: i64) -> Vec<P> {
    let w = r.range((n / 2).max(1), n) as f64;
    let h = r.range((n / 2).max(1), n) as f64;
    rot(r, vec![(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)])
}

/// adds collinear lattice points onto polygon edges where they exist
pub fn subdivide(r: &mut Rng, poly: &[P], p: f64) -> Vec<P> {
    let mut out = Vec::new();
    for (a, b) in poly_edges(poly) {
        out.push(a);
        let g = gcd((b.0 - a.0).abs() as i64, (b.1 - a.1).abs() as i64);
        let mut ks: Vec<i64> = Vec::new();
        let p = if g > 40 { p * 5.0 / g as f64 } else { p };
        for k in 1..g {
            if r.chance(p) {
                ks.push(k);
            }
        }
        for k in ks {
            let t = k as f64 / g as f64;
            out.push((a.0 + ((b.0 - a.0) * t).round(), a.1 + ((b.1 - a.1) * t).round()));
        }
    }
    out
}

pub fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// star-shaped ccw lattice polygon, usually not convex
pub fn star(r: &mut Rng, n: i64, k: usize) -> Vec<P> {
    for _ in 0..40 {
        let c = n as f64 / 2.0;
        let pts: Vec<P> = (0..k)
            .map(|i| {
                let a = (i as f64 + 0.3 + r.unit() * 0.4) / k as f64 * std::f64::consts::PI * 2.0;
                let q = c * (0.35 + 0.65 * r.unit());
                ((c + q * a.cos()).round(), (c + q * a.sin()).round())
            })
            .collect();
        if simple(&pts) && area2(&pts) > 0.0 {
            return rot(r, pts);
        }
    }
    rect(r, n.max(2))
}

/// L, T, U, staircase-like ccw rectilinear polygon
pub fn rectilinear(r: &mut Rng, n: i64) -> Vec<P> {
    let k = r.range(1, 4.min(n - 1)) as usize;
    let mut xs: Vec<i64> = Vec::new();
    while xs.len() < k + 1 {
        let x = r.range(1, n);
        if !xs.contains(&x) {
            xs.push(x);
        }
    }
    xs.sort();
    let mut pts: Vec<P> = vec![(0.0, 0.0), (*xs.last().unwrap() as f64, 0.0)];
    let mut last = -1;
    let mut hs = Vec::new();
    for _ in 0..xs.len() {
        let mut h = r.range((n / 4).max(1), n);
        while h == last {
            h = r.range((n / 4).max(1), n);
        }
        last = h;
        hs.push(h);
    }
    for i in (0..xs.len()).rev() {
        let lo = if i == 0 { 0 } else { xs[i - 1] };
        pts.push((xs[i] as f64, hs[i] as f64));
        pts.push((lo as f64, hs[i] as f64));
    }
    rot(r, pts)
}

/// up to k small ccw holes strictly inside `b`, pairwise apart
pub fn holes(r: &mut Rng, b: &[P], n: i64, k: usize, maxr: i64) -> Vec<Vec<P>> {
    let mut out: Vec<Vec<P>> = Vec::new();
    let mut tries = 0;
    while out.len() < k && tries < 60 {
        tries += 1;
        let h: Vec<P> = match r.below(4) {
            0 => {
                let (x, y) = lattice(r, n);
                let (w, q) = (r.range(1, maxr) as f64, r.range(1, maxr) as f64);
                vec![(x, y), (x + w, y), (x + w, y + q), (x, y + q)]
            }
            1 => {
                let (x, y) = lattice(r, n);
                let d = r.range(1, (maxr + 1) / 2) as f64;
                vec![(x - d, y), (x, y - d), (x + d, y), (x, y + d)]
            }
            2 => {
                let (x, y) = lattice(r, n);
                let m = 2 * maxr;
                let k = r.range(3, 7) as usize;
                convex(r, m, k).iter().map(|p| (p.0 + x, p.1 + y)).collect()
            }
            _ => {
                let (x, y) = lattice(r, n);
                let ps = vec![
                    (x + r.range(-maxr, maxr) as f64, y + r.range(-maxr, maxr) as f64),
                    (x + r.range(-maxr, maxr) as f64, y + r.range(-maxr, maxr) as f64),
                    (x + r.range(-maxr, maxr) as f64, y + r.range(-maxr, maxr) as f64),
                ];
                hull(ps)
            }
        };
        if h.len() < 3 || area2(&h) <= 0.0 {
            continue;
        }
        if hole_ok(b, &out, &h) {
            let h = rot(r, h);
            out.push(h);
        }
    }
    out
}

pub fn hole_ok(b: &[P], holes: &[Vec<P>], h: &[P]) -> bool {
    let he = poly_edges(h);
    h.iter().all(|p| point_in_poly(b, *p) > 0)
        && edges_apart(&he, &poly_edges(b))
        && holes.iter().all(|o| {
            edges_apart(&he, &poly_edges(o)) && point_in_poly(o, h[0]) < 0 && point_in_poly(h, o[0]) < 0
        })
}

pub fn inside_domain(b: &[P], hs: &[Vec<P>], p: P) -> bool {
    point_in_poly(b, p) > 0 && hs.iter().all(|h| point_in_poly(h, p) < 0)
}

/// segment strictly inside the open domain
pub fn seg_ok(b: &[P], hs: &[Vec<P>], s: (P, P)) -> bool {
    s.0 != s.1
        && inside_domain(b, hs, s.0)
        && inside_domain(b, hs, s.1)
        && edges_apart(&[s], &poly_edges(b))
        && hs.iter().all(|h| edges_apart(&[s], &poly_edges(h)))
}
