//! Geometry of a diagram, judged from the sites alone (independent of the library's predicates)

use crate::gen::P;
use crate::model::{Rec, Site};

type V = [f64; 2];

fn f(p: P) -> V {
    [p[0] as f64, p[1] as f64]
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1]]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
fn cross(a: V, b: V) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
fn len(a: V) -> f64 {
    a[0].hypot(a[1])
}
/// where the foot of v lies on a..b, not limited to 0..=1
fn foot_at(a: V, b: V, v: V) -> f64 {
    let d = sub(b, a);
    dot(sub(v, a), d) / dot(d, d)
}
/// the point of the site that is closest to v
pub fn closest(s: &Site, v: V) -> V {
    match s {
        Site::Point(p) => f(*p),
        Site::Seg(a, b) => {
            let (a, b) = (f(*a), f(*b));
            let t = foot_at(a, b, v);
            if t <= 0.0 {
                a
            } else if t >= 1.0 {
                b
            } else {
                [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
            }
        }
    }
}
pub fn distance(s: &Site, v: V) -> f64 {
    match s {
        Site::Point(p) => len(sub(v, f(*p))),
        Site::Seg(a, b) => {
            let (a, b) = (f(*a), f(*b));
            let t = foot_at(a, b, v);
            if t <= 0.0 {
                len(sub(v, a))
            } else if t >= 1.0 {
                len(sub(v, b))
            } else {
                // relative to the closer end, for precision
                let o = if t < 0.5 { a } else { b };
                let d = sub(b, a);
                (cross(d, sub(v, o)) / len(d)).abs()
            }
        }
    }
}

macro_rules! need {
    ($c:expr, $($arg:tt)*) => {
        if !$c {
            return Err(format!($($arg)*));
        }
    };
}

/// the end of an unbounded edge: direction, and the sites at its sides (exact)
fn open_end(e: usize, left: &Site, right: &Site, sites: &[Site]) -> Result<(), String> {
    let (o, n): (P, P) = match (left, right) {
        (Site::Point(a), Site::Point(b)) => (*a, [a[0] - b[0], a[1] - b[1]]),
        // the perpendicular at the end of a segment
        (Site::Seg(a, b), Site::Point(p)) if p == a || p == b => {
            let q = if p == a { b } else { a };
            (*p, [q[0] - p[0], q[1] - p[1]])
        }
        (Site::Point(p), Site::Seg(a, b)) if p == a || p == b => {
            let q = if p == a { b } else { a };
            (*p, [p[0] - q[0], p[1] - q[1]])
        }
        _ => return Err(format!("edge {e} between {left:?} and {right:?} is unbounded")),
    };
    // n points to the left of the direction d
    let d = [n[1], -n[0]];
    for s in sites {
        let Site::Point(p) = s else { continue };
        let q = [p[0] - o[0], p[1] - o[1]];
        let ahead = q[0] as i128 * d[0] as i128 + q[1] as i128 * d[1] as i128;
        need!(ahead <= 0, "edge {e} between {left:?} and {right:?} is unbounded, but {p:?} lies ahead");
        if let (0, Site::Point(a), Site::Point(b)) = (ahead, left, right) {
            let u = (p[0] - a[0]) as i128 * (p[0] - b[0]) as i128 + (p[1] - a[1]) as i128 * (p[1] - b[1]) as i128;
            need!(u >= 0, "edge {e} between {a:?} and {b:?}: {p:?} lies between them");
        }
    }
    Ok(())
}

/// every vertex is equally far from the sites around it and no site is closer; every edge has its
/// sites at the right side; unbounded edges lead out. `rel`: what the coordinates' type can express.
/// Returns the largest deviation found (in units of rel).
pub fn judge(r: &Rec, sites: &[Site], rel: f64) -> Result<f64, String> {
    let span = sites
        .iter()
        .flat_map(|s| match s {
            Site::Point(p) => vec![*p],
            Site::Seg(a, b) => vec![*a, *b],
        })
        .flatten()
        .fold(1i64, |m, c| m.max(c.abs())) as f64;
    let pos = |v: usize| [f64::from_bits(r.verts[v].x), f64::from_bits(r.verts[v].y)];
    let mut worst = 0f64;
    for v in 0..r.verts.len() {
        let p = pos(v);
        let unit = rel * span.max(p[0].abs()).max(p[1].abs());
        let ring = r.ring(r.verts[v].inc.unwrap(), |r, e| r.rot_next(e));
        let around: Vec<usize> = ring.iter().map(|e| r.edges[*e].cell.unwrap()).collect();
        let d0 = distance(&sites[around[0]], p);
        let mut near = d0;
        for c in &around {
            let d = distance(&sites[*c], p);
            near = near.max(d);
            worst = worst.max((d - d0).abs() / unit);
            need!(
                (d - d0).abs() <= unit,
                "vertex {v} at {p:?} isn't equally far from {:?} ({d0}) and {:?} ({d})",
                sites[around[0]], sites[*c]
            );
            if let Site::Seg(a, b) = sites[*c] {
                let (a, b) = (f(a), f(b));
                let (t, l) = (foot_at(a, b, p), len(sub(b, a)));
                need!(
                    t * l >= -unit && (t - 1.0) * l <= unit,
                    "vertex {v} at {p:?} of the cell of {:?} doesn't lie beside it (foot at {t})",
                    sites[*c]
                );
            }
        }
        for s in sites {
            let d = distance(s, p);
            worst = worst.max((near - d) / unit);
            need!(d >= near - unit, "vertex {v} at {p:?} is {near} from the sites around it, but {d} from {s:?}");
        }
    }
    for (i, e) in r.edges.iter().enumerate() {
        let t = e.twin.unwrap();
        let (c, o) = (e.cell.unwrap(), r.edges[t].cell.unwrap());
        let (left, right) = (&sites[c], &sites[o]);
        match (e.v0, r.v1(i)) {
            (Some(a), Some(b)) => {
                let (a, b) = (pos(a), pos(b));
                let unit = rel * [a[0], a[1], b[0], b[1]].iter().fold(span, |m, c| m.max(c.abs()));
                let d = sub(b, a);
                // the site lies to the left
                let beside = match (left, e.primary) {
                    (Site::Point(p), true) if e.linear => Some(f(*p)),
                    (Site::Point(_), _) => None,
                    (Site::Seg(x, y), false) => Some([(x[0] + y[0]) as f64 / 2.0, (x[1] + y[1]) as f64 / 2.0]),
                    (Site::Seg(x, y), true) => {
                        let (fa, fb) = (closest(left, a), closest(left, b));
                        let along = sub(fb, fa);
                        let at = sub(a, fa);
                        let bt = sub(b, fb);
                        let slack = 4.0 * unit * (len(along) + len(at) + len(bt));
                        need!(
                            cross(along, at) <= slack && cross(along, bt) <= slack,
                            "edge {i} from {a:?} to {b:?} doesn't have its site {x:?}-{y:?} at its left"
                        );
                        None
                    }
                };
                if let Some(p) = beside {
                    let q = sub(p, a);
                    need!(
                        cross(d, q) >= -4.0 * unit * (len(q) + len(d)),
                        "edge {i} from {a:?} to {b:?} doesn't have its site {left:?} at its left"
                    );
                }
            }
            (Some(_), None) => open_end(i, left, right, sites)?,
            (None, None) => {
                open_end(i, left, right, sites)?;
                open_end(t, right, left, sites)?;
            }
            (None, Some(_)) => {}
        }
    }
    Ok(worst)
}
