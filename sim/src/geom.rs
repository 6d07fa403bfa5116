//! Exact planar predicates for the oracles (f64 filter, BigInt fallback).
use num::bigint::BigInt;
use num::{Signed, ToPrimitive, Zero};

pub type P = (f64, f64);

fn big(v: f64, e: i32) -> BigInt {
    // v * 2^-e exactly, e <= exponent of v's lowest bit
    if v == 0.0 {
        return BigInt::zero();
    }
    let bits = v.to_bits();
    let neg = bits >> 63 == 1;
    let ex = ((bits >> 52) & 0x7ff) as i32;
    let fr = bits & ((1u64 << 52) - 1);
    let (m, x) = if ex == 0 { (fr, -1074) } else { (fr | (1u64 << 52), ex - 1075) };
    let b = if x >= e { BigInt::from(m) << ((x - e) as usize) } else { BigInt::from(m >> ((e - x) as u32)) };
    if neg {
        -b
    } else {
        b
    }
}
fn low_exp(v: f64) -> i32 {
    if v == 0.0 {
        return 1000;
    }
    let bits = v.to_bits();
    let ex = ((bits >> 52) & 0x7ff) as i32;
    let fr = bits & ((1u64 << 52) - 1);
    let (m, x) = if ex == 0 { (fr, -1074) } else { (fr | (1u64 << 52), ex - 1075) };
    x + m.trailing_zeros() as i32
}
fn bigs(ps: &[P]) -> Vec<(BigInt, BigInt)> {
    let e = ps.iter().map(|p| low_exp(p.0).min(low_exp(p.1))).min().unwrap().min(0);
    ps.iter().map(|p| (big(p.0, e), big(p.1, e))).collect()
}
fn sgn(b: &BigInt) -> i32 {
    if b.is_positive() {
        1
    } else if b.is_negative() {
        -1
    } else {
        0
    }
}

/// Twice the signed area, rounded.
pub fn cross(a: P, b: P, c: P) -> f64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}

/// Sign of the exact signed area: 1 = counterclockwise.
pub fn orient(a: P, b: P, c: P) -> i32 {
    let l = (b.0 - a.0) * (c.1 - a.1);
    let r = (b.1 - a.1) * (c.0 - a.0);
    let d = l - r;
    let err = (l.abs() + r.abs()) * 4.0e-16;
    if d > err {
        return 1;
    }
    if d < -err {
        return -1;
    }
    let v = bigs(&[a, b, c]);
    let det = (&v[1].0 - &v[0].0) * (&v[2].1 - &v[0].1) - (&v[1].1 - &v[0].1) * (&v[2].0 - &v[0].0);
    sgn(&det)
}

/// Exact in-circle sign for ccw (a,b,c): 1 = d strictly inside.
pub fn incircle(a: P, b: P, c: P, d: P) -> i32 {
    let v = bigs(&[a, b, c, d]);
    let dx: Vec<BigInt> = (0..3).map(|i| &v[i].0 - &v[3].0).collect();
    let dy: Vec<BigInt> = (0..3).map(|i| &v[i].1 - &v[3].1).collect();
    let q: Vec<BigInt> = (0..3).map(|i| &dx[i] * &dx[i] + &dy[i] * &dy[i]).collect();
    let det = &dx[0] * (&dy[1] * &q[2] - &dy[2] * &q[1]) - &dy[0] * (&dx[1] * &q[2] - &dx[2] * &q[1])
        + &q[0] * (&dx[1] * &dy[2] - &dx[2] * &dy[1]);
    sgn(&det)
}

/// How deep d lies inside the circumcircle of ccw (a,b,c), relative to the
/// radius: (R - |d - center|) / R, in f64. Positive = inside.
pub fn depth(a: P, b: P, c: P, d: P) -> f64 {
    let (bx, by) = (b.0 - a.0, b.1 - a.1);
    let (cx, cy) = (c.0 - a.0, c.1 - a.1);
    let dd = 2.0 * (bx * cy - by * cx);
    let ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / dd;
    let uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / dd;
    let r = (ux * ux + uy * uy).sqrt();
    let (ex, ey) = (d.0 - a.0 - ux, d.1 - a.1 - uy);
    (r - (ex * ex + ey * ey).sqrt()) / r
}

/// The in-circle determinant of ccw (a,b,c) and d in f64, taken relative to d.
/// The library documents a tolerance of 1e-14 on it.
pub fn in_circle_det(a: P, b: P, c: P, d: P) -> f64 {
    let r = |p: P| (p.0 - d.0, p.1 - d.1);
    let (a, b, c) = (r(a), r(b), r(c));
    let q = |p: P| p.0 * p.0 + p.1 * p.1;
    q(a) * (b.0 * c.1 - b.1 * c.0) - q(b) * (a.0 * c.1 - a.1 * c.0) + q(c) * (a.0 * b.1 - a.1 * b.0)
}

pub fn dist(a: P, b: P) -> f64 {
    ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()
}

/// p on closed segment ab (exact).
pub fn on_segment(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}

/// Distance of p to closed segment ab.
pub fn seg_dist(a: P, b: P, p: P) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l2 = dx * dx + dy * dy;
    let t = if l2 == 0.0 { 0.0 } else { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l2).max(0.0).min(1.0) };
    dist(p, (a.0 + t * dx, a.1 + t * dy))
}

/// Closed segments share a point (exact).
pub fn seg_touch(a: P, b: P, c: P, d: P) -> bool {
    let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}

/// Proper crossing of interiors.
pub fn seg_cross(a: P, b: P, c: P, d: P) -> bool {
    let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    o1 * o2 < 0 && o3 * o4 < 0
}

/// 1 inside, 0 on boundary, -1 outside (exact, any simple polygon).
pub fn point_in_poly(poly: &[P], p: P) -> i32 {
    let n = poly.len();
    let mut wn = 0;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if on_segment(a, b, p) {
            return 0;
        }
        if a.1 <= p.1 {
            if b.1 > p.1 && orient(a, b, p) > 0 {
                wn += 1;
            }
        } else if b.1 <= p.1 && orient(a, b, p) < 0 {
            wn -= 1;
        }
    }
    if wn != 0 {
        1
    } else {
        -1
    }
}

pub fn area2(poly: &[P]) -> f64 {
    let n = poly.len();
    (0..n).map(|i| poly[i].0 * poly[(i + 1) % n].1 - poly[(i + 1) % n].0 * poly[i].1).sum()
}

pub fn simple(poly: &[P]) -> bool {
    let n = poly.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if a == b {
            return false;
        }
        for j in i + 1..n {
            let (c, d) = (poly[j], poly[(j + 1) % n]);
            if j == i + 1 {
                if on_segment(a, b, d) || on_segment(c, d, a) {
                    return false;
                }
            } else if (j + 1) % n == i {
                if on_segment(c, d, b) || on_segment(a, b, c) {
                    return false;
                }
            } else if seg_touch(a, b, c, d) {
                return false;
            }
        }
    }
    true
}

pub fn poly_edges(p: &[P]) -> Vec<(P, P)> {
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect()
}

/// every edge of a is strictly apart from every edge of b
pub fn edges_apart(a: &[(P, P)], b: &[(P, P)]) -> bool {
    a.iter().all(|(p, q)| b.iter().all(|(r, s)| !seg_touch(*p, *q, *r, *s)))
}

pub fn hull(mut pts: Vec<P>) -> Vec<P> {
    pts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    pts.dedup();
    if pts.len() < 3 {
        return pts;
    }
    let mut h: Vec<P> = Vec::new();
    for pass in 0..2 {
        let start = h.len();
        let it: Vec<P> = if pass == 0 { pts.clone() } else { pts.iter().rev().cloned().collect() };
        for p in it {
            while h.len() >= start + 2 && orient(h[h.len() - 2], h[h.len() - 1], p) <= 0 {
                h.pop();
            }
            h.push(p);
        }
        h.pop();
    }
    h
}

pub fn to_f64(b: &BigInt) -> f64 {
    b.to_f64().unwrap_or(f64::NAN)
}
