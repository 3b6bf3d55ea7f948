//! Inputs obeying the documented contract: segments only meet at end points, points are not in
//! the interior of segments. Duplicates, zero length segments, collinear and cocircular sets,
//! polygons, chains, stars and grids are frequent.

use crate::common::*;

pub type P = [i64; 2];
pub type S = [i64; 4];

#[derive(Clone, Default, Debug)]
pub struct Sites {
    pub p: Vec<P>,
    pub s: Vec<S>,
}

fn orient(a: P, b: P, c: P) -> i32 {
    let v = (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128;
    v.signum() as i32
}
fn on_segment(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0
        && p[0] >= a[0].min(b[0])
        && p[0] <= a[0].max(b[0])
        && p[1] >= a[1].min(b[1])
        && p[1] <= a[1].max(b[1])
}
fn inside(s: &S, p: P) -> bool {
    let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
    p != a && p != b && on_segment(a, b, p)
}
fn degenerate(s: &S) -> bool {
    s[0] == s[2] && s[1] == s[3]
}
fn conflict(s: &S, t: &S) -> bool {
    let (a, b, c, d) = ([s[0], s[1]], [s[2], s[3]], [t[0], t[1]], [t[2], t[3]]);
    if (a == c && b == d) || (a == d && b == c) {
        return false; // a duplicate
    }
    let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    (o1 * o2 < 0 && o3 * o4 < 0) || inside(s, c) || inside(s, d) || inside(t, a) || inside(t, b)
}

impl Sites {
    pub fn add_s(&mut self, s: S) -> bool {
        if degenerate(&s) {
            if self.s.iter().any(|t| inside(t, [s[0], s[1]])) {
                return false;
            }
        } else if self.s.iter().any(|t| if degenerate(t) { inside(&s, [t[0], t[1]]) } else { conflict(&s, t) })
            || self.p.iter().any(|p| inside(&s, *p))
        {
            return false;
        }
        self.s.push(s);
        true
    }
    pub fn add_p(&mut self, p: P) -> bool {
        if self.s.iter().any(|t| inside(t, p)) {
            return false;
        }
        self.p.push(p);
        true
    }
    pub fn len(&self) -> usize {
        self.p.len() + self.s.len()
    }
    pub fn valid(&self) -> bool {
        let mut o = Sites::default();
        self.p.iter().all(|p| o.add_p(*p)) && self.s.iter().all(|s| o.add_s(*s))
    }
    pub fn within(&self, m: i64) -> bool {
        self.p.iter().flatten().chain(self.s.iter().flatten()).all(|c| c.abs() <= m)
    }
    pub fn p32(&self) -> Vec<[i32; 2]> {
        self.p.iter().map(|p| p.map(|c| c as i32)).collect()
    }
    pub fn s32(&self) -> Vec<[i32; 4]> {
        self.s.iter().map(|p| p.map(|c| c as i32)).collect()
    }
}

/// -m..=m, the simplest is 0
fn sym(m: i64) -> i64 {
    let v = ops(2 * m as u32 + 1) as i64;
    if v & 1 == 0 {
        v / 2
    } else {
        -(v + 1) / 2
    }
}

pub fn sites(max: u32) -> Sites {
    let mut o = Sites::default();
    let scale = [3i64, 8, 20, 100, 1000, 30000, 1_000_000][ops(7) as usize];
    let kinds = 1 + ops(3);
    for _ in 0..kinds {
        let ox = if maybe(1, 2) { sym(scale) } else { 0 };
        let oy = if maybe(1, 2) { sym(scale) } else { 0 };
        match ops(14) {
            0 => {
                for _ in 0..ops(max) {
                    let p = [sym(scale), sym(scale)];
                    o.add_p(p);
                }
            }
            1 => {
                for _ in 0..ops(max.min(20)) {
                    let p = [ops(5) as i64 + ox, ops(5) as i64 + oy];
                    o.add_p(p);
                }
            }
            2 => {
                let (w, h) = (1 + ops(5) as i64, 1 + ops(5) as i64);
                let st = 1 + ops(scale as u32) as i64;
                for x in 0..w {
                    for y in 0..h {
                        o.add_p([ox + x * st, oy + y * st]);
                    }
                }
            }
            3 => {
                let c: [P; 12] = [
                    [5, 0], [4, 3], [3, 4], [0, 5], [-3, 4], [-4, 3], [-5, 0], [-4, -3], [-3, -4], [0, -5], [3, -4], [4, -3],
                ];
                let m = 1 + ops((scale / 5 + 1) as u32) as i64;
                for q in c {
                    if maybe(2, 3) {
                        o.add_p([ox + q[0] * m, oy + q[1] * m]);
                    }
                }
                if maybe(1, 3) {
                    o.add_p([ox, oy]);
                }
            }
            4 => {
                let d: P = [[1, 0], [0, 1], [1, 1], [1, -1], [2, 1]][ops(5) as usize];
                for k in 0..1 + ops(8) as i64 {
                    let k = k * (1 + ops(3) as i64);
                    o.add_p([ox + d[0] * k, oy + d[1] * k]);
                }
            }
            5 => {
                for _ in 0..ops(8) {
                    let s = [sym(scale), sym(scale), sym(scale), sym(scale)];
                    o.add_s(s);
                }
            }
            6 => {
                for _ in 0..ops(8) {
                    let (x, y) = (sym(scale), sym(scale));
                    let s = [x, y, x + sym(3), y + sym(3)];
                    o.add_s(s);
                }
            }
            7 => {
                let (w, h) = (1 + ops(scale as u32) as i64, 1 + ops(scale as u32) as i64);
                o.add_s([ox, oy, ox + w, oy]);
                o.add_s([ox + w, oy, ox + w, oy + h]);
                o.add_s([ox + w, oy + h, ox, oy + h]);
                o.add_s([ox, oy + h, ox, oy]);
            }
            8 => {
                for _ in 0..1 + ops(6) {
                    let s = [ox, oy, ox + sym(scale), oy + sym(scale)];
                    o.add_s(s);
                }
            }
            9 => {
                let vert = maybe(1, 2);
                for k in 0..1 + ops(5) as i64 {
                    let (a, b) = (sym(scale), sym(scale));
                    o.add_s(if vert { [ox + k, a, ox + k, b] } else { [a, oy + k, b, oy + k] });
                }
            }
            10 => {
                let mut cur = [ox, oy];
                for _ in 0..ops(8) {
                    let n = [cur[0] + sym(scale) / 3, cur[1] + sym(scale) / 3];
                    if o.add_s([cur[0], cur[1], n[0], n[1]]) {
                        cur = n
                    }
                }
            }
            11 => {
                o.add_s([ox, oy, ox, oy]);
            }
            12 => {
                let d = [[1, 0], [0, 1], [1, 1]][ops(3) as usize];
                let mut k = 0;
                for _ in 0..1 + ops(4) {
                    let l = 1 + ops(3) as i64;
                    o.add_s([ox + d[0] * k, oy + d[1] * k, ox + d[0] * (k + l), oy + d[1] * (k + l)]);
                    k += l + ops(2) as i64;
                }
            }
            _ => {
                // points on a vertical line (collinear start of the sweep) and around it
                for k in 0..2 + ops(5) as i64 {
                    o.add_p([-scale, oy + k * (1 + ops(3) as i64)]);
                }
                for _ in 0..ops(4) {
                    let p = [sym(scale), sym(scale)];
                    o.add_p(p);
                }
            }
        }
    }
    if maybe(1, 3) {
        for _ in 0..ops(4) {
            if !o.p.is_empty() {
                let p = o.p[ops(o.p.len() as u32) as usize];
                o.p.push(p)
            }
            if !o.s.is_empty() {
                let s = o.s[ops(o.s.len() as u32) as usize];
                o.s.push(if maybe(1, 2) { [s[2], s[3], s[0], s[1]] } else { s })
            }
        }
    }
    if maybe(1, 3) {
        for _ in 0..ops(3) {
            if !o.s.is_empty() {
                let s = o.s[ops(o.s.len() as u32) as usize];
                o.add_p([s[0], s[1]]);
            }
        }
    }
    note(&o);
    o
}

/// a set of sites of roughly the given number
pub fn large(n: u32) -> Sites {
    let mut o = Sites::default();
    let w = (n as f64).sqrt() as i64 + 1;
    let kind = ops(4);
    for k in 0..n as i64 {
        let (x, y) = (k % w, k / w);
        match kind {
            0 => {
                o.p.push([x * 10, y * 10]);
            }
            1 => {
                o.p.push([x * 20 + ops(9) as i64, y * 20 + ops(9) as i64]);
            }
            2 => {
                o.s.push([x * 20, y * 20, x * 20 + 1 + ops(9) as i64, y * 20 + ops(9) as i64]);
            }
            _ => {
                // a long zigzag
                let (a, b) = (k, k + 1);
                o.s.push([a * 10, (a & 1) * 7, b * 10, (b & 1) * 7]);
            }
        }
    }
    note(&o);
    o
}

/// shapes of inputs that can be made of any size; for the first few the beach line stays short
pub const SHAPES: &[&str] = &[
    "grid", "jittered grid", "random points", "spiral", "short segments", "horizontal line", "vertical line", "slanted line", "circle", "parabola",
    "two lines", "line and a distant point", "corner", "zigzag", "rungs", "fence", "star", "saw",
];
pub const NARROW: usize = 5;

/// n sites of the given shape, all within +-1e6
pub fn shaped(shape: usize, n: u32) -> Sites {
    let mut o = Sites::default();
    let n = n as i64;
    let w = (n as f64).sqrt() as i64 + 1;
    let f = |x: f64| x.round() as i64;
    for k in 0..n {
        let (x, y) = (k % w, k / w);
        let t = k as f64 / n as f64 * std::f64::consts::TAU;
        match shape {
            0 => o.p.push([x * 10, y * 10]),
            1 => o.p.push([x * 20 + ops(9) as i64, y * 20 + ops(9) as i64]),
            2 => o.p.push([sym(900_000), sym(900_000)]),
            3 => o.p.push([f(k as f64 * 99.0 * (t * 20.0).cos()), f(k as f64 * 99.0 * (t * 20.0).sin())]),
            4 => o.s.push([x * 20, y * 20, x * 20 + 1 + ops(9) as i64, y * 20 + ops(9) as i64]),
            5 => o.p.push([k * 7, 0]),
            6 => o.p.push([0, k * 7]),
            7 => o.p.push([k * 3, k * 5]),
            8 => o.p.push([f(900_000.0 * t.cos()), f(900_000.0 * t.sin())]),
            9 => o.p.push([k * k / 16, k * 4]),
            10 => o.p.push([k / 2 * 9, (k & 1) * 100_000]),
            11 => o.p.push(if k == 0 { [-900_000, 0] } else { [0, k * 13] }),
            12 => o.p.push(if k & 1 == 0 { [k * 9, 0] } else { [0, k * 9] }),
            13 => o.s.push([k * 10, (k & 1) * 7, (k + 1) * 10, ((k + 1) & 1) * 7]),
            14 => o.s.push([0, k * 10, 100_000 + sym(1000), k * 10]),
            15 => o.s.push([k * 10, 0, k * 10, 100_000 + sym(1000)]),
            16 => o.s.push([0, 0, f(900_000.0 * t.cos()), f(900_000.0 * t.sin())]),
            _ => {
                let u = (k + 1) as f64 / n as f64 * std::f64::consts::TAU;
                let r = |k: i64| if k & 1 == 0 || k == n { 900_000.0 } else { 600_000.0 };
                o.s.push([f(r(k) * t.cos()), f(r(k) * t.sin()), f(r(k + 1) * u.cos()), f(r(k + 1) * u.sin())]);
            }
        }
    }
    note(&o);
    o
}

/// mostly structured, sometimes in all the range of the coordinates
pub fn any(max: u32) -> Sites {
    if maybe(1, 12) {
        wide(max)
    } else {
        sites(max)
    }
}

/// uniformly random in (up to) all the range of the coordinates. Nearly degenerate inputs of that size
/// are beyond what the coordinates of a diagram can express.
pub fn wide(max: u32) -> Sites {
    const M: i64 = i32::MAX as i64;
    let mut o = Sites::default();
    let shift = ops(8);
    let any = || ((ops(1 << 16) as i64) << 16 | ops(1 << 16) as i64) - (1 << 31);
    let c = || any().clamp(-M, M) >> shift;
    for _ in 0..ops(max) {
        o.add_p([c(), c()]);
    }
    for _ in 0..ops(max / 2) {
        o.add_s([c(), c(), c(), c()]);
    }
    note(&o);
    o
}

pub fn note(o: &Sites) {
    if !o.p.is_empty() {
        rt::probe(P_POINTS);
    }
    if !o.s.is_empty() {
        rt::probe(P_SEGS);
    }
    if o.len() > 60 {
        rt::probe(P_BIG);
    }
    if o.s.iter().any(degenerate) {
        rt::probe(P_ZEROLEN);
    }
}

/// input that breaks the contract: segments cross, points lie inside segments. A build may fail, may
/// panic (debug assertions) or may deliver something; it has to leave no traces in any case.
pub fn crossing() -> Sites {
    let mut o = Sites::default();
    let scale = [100i64, 5, 20, 1000, 30000][ops(5) as usize];
    for _ in 0..2 + ops(22) {
        let s = [sym(scale), sym(scale), sym(scale), sym(scale)];
        o.s.push(s);
    }
    for _ in 0..ops(6) {
        o.p.push([sym(scale), sym(scale)]);
    }
    if maybe(1, 4) {
        let (a, b) = (o.s[0], sym(scale));
        o.p.push([(a[0] + a[2]) / 2, (a[1] + a[3]) / 2 + b / 50]);
    }
    o
}
