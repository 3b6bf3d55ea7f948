//! C23, C24: sessions of viewers

use super::*;
use crate::gen;
use crate::typed;
use boostvoronoi::{cast, to_segments_offset, Aabb2, Line, Point, SimpleAffine, VoronoiVisualUtils};

fn eps<F: OutputType>() -> f64 {
    if std::mem::size_of::<F>() == 4 { f32::EPSILON as f64 } else { f64::EPSILON }
}
fn to<F: OutputType>(v: f64) -> F {
    cast(v)
}
fn of<F: OutputType>(v: F) -> f64 {
    cast(v)
}
fn num(scale: i64) -> i64 {
    ops(2 * scale as u32 + 1) as i64 - scale
}

/// what a view has to do, in f64 (with the values as F stores them)
#[derive(Clone, Copy, Debug)]
struct View {
    /// centre of the source
    c: [f64; 2],
    scale: [f64; 2],
    off: [f64; 2],
    /// operations so far
    age: f64,
}
impl View {
    fn to(&self, k: usize, x: f64) -> f64 {
        (x - self.c[k]) * self.scale[k] + self.off[k]
    }
    fn error(&self, k: usize, x: f64, eps: f64) -> f64 {
        eps * (8.0 + self.age) * ((x.abs() + self.c[k].abs()) * self.scale[k].abs() + self.off[k].abs())
    }
}

type Boxed<F> = (Aabb2<F>, [f64; 2], [f64; 2]);

fn make_box<I: Int, F: OutputType>(scale: i64) -> Boxed<F> {
    let mut b = Aabb2::<F>::default();
    let (mut l, mut h) = ([f64::MAX; 2], [f64::MIN; 2]);
    for _ in 0..1 + ops(3) {
        let p = [num(scale), num(scale)];
        let v = if maybe(1, 2) {
            lib(|| b.update_point(&Point { x: I::of(p[0]), y: I::of(p[1]) }));
            p.map(|x| of::<F>(cast::<i64, F>(x)))
        } else {
            let v = p.map(|x| to::<F>(x as f64 / 4.0));
            lib(|| b.update_vertex(v[0], v[1]));
            v.map(of)
        };
        for k in 0..2 {
            l[k] = l[k].min(v[k]);
            h[k] = h[k].max(v[k]);
        }
    }
    (b, l, h)
}

/// a new view of a source box in a destination box, compared with the model
fn open<I: Int, F: OutputType>(s: &Boxed<F>, d: &Boxed<F>) -> (SimpleAffine<F>, View) {
    let a = match unwrap_caught("new view", lib_catch(|| SimpleAffine::<F>::new::<I>(&s.0, &d.0))) {
        Ok(a) => a,
        Err(e) => fail!("error", "no view of {:?}-{:?} in {:?}-{:?}: {e:?}", s.1, s.2, d.1, d.2),
    };
    let size = |b: &Boxed<F>, k: usize| (b.2[k] - b.1[k]).max(10.0);
    let scale = size(d, 0).min(size(d, 1)) / size(s, 0).max(size(s, 1));
    let mid = |b: &Boxed<F>, k: usize| (b.1[k] + b.2[k]) / 2.0;
    let v = View { c: [mid(s, 0), mid(s, 1)], scale: [scale; 2], off: [mid(d, 0), mid(d, 1)], age: 4.0 };
    ev!("view of {:?}-{:?} in {:?}-{:?}: {:?}", s.1, s.2, d.1, d.2, v.scale);
    // all of the source is visible (destinations of less than 10 units count as 10 units)
    for k in 0..2 {
        for x in [s.1[k], s.2[k]] {
            let y = of(lib(|| if k == 0 { a.transform_x(to(x)) } else { a.transform_y(to(x)) }));
            let slack = v.error(k, x, eps::<F>());
            if (y - mid(d, k)).abs() > size(d, k) / 2.0 + slack {
                fail!("view", "{x} of the source {:?}-{:?} is at {y}, outside of the destination {:?}-{:?}", s.1, s.2, d.1, d.2);
            }
        }
    }
    (a, v)
}

fn near(what: &str, got: f64, want: f64, slack: f64) {
    if !((got - want).abs() <= slack) {
        fail!("view", "{what}: {got} instead of {want}");
    }
}

fn query<I: Int, F: OutputType>(a: &SimpleAffine<F>, v: &View, scale: i64) {
    let e = eps::<F>();
    let p = [num(scale), num(scale)];
    let q = p.map(I::of);
    let x = p.map(|x| of::<F>(cast::<i64, F>(x)));
    // source to destination
    let i: [F; 2] = lib(|| match ops(3) {
        0 => a.transform_i(q),
        1 => a.transform_p(&Point { x: q[0], y: q[1] }),
        _ => [a.transform_ix(q[0]), a.transform_iy(q[1])],
    });
    let g: [F; 2] = x.map(to);
    let f: [F; 2] = lib(|| match ops(4) {
        0 => a.transform_f(g),
        1 => a.transform(g[0], g[1]),
        2 => [a.transform_fx(g[0]), a.transform_fy(g[1])],
        _ => [a.transform_x(g[0]), a.transform_y(g[1])],
    });
    for k in 0..2 {
        near(&format!("integer coordinate {} of {p:?} with {v:?}", k), of(i[k]), v.to(k, x[k]), v.error(k, x[k], e));
        near(&format!("coordinate {} of {p:?} with {v:?}", k), of(f[k]), v.to(k, x[k]), v.error(k, x[k], e));
        if of(i[k]) != of(f[k]) {
            fail!("view", "{p:?} is at {i:?} as integers and at {f:?} as floats");
        }
    }
    // and back
    let back = unwrap_caught("back", lib_catch(|| if maybe(1, 2) { a.reverse_transform::<I>(i[0], i[1]) } else { Ok([a.reverse_transform_x(i[0])?, a.reverse_transform_y(i[1])?]) }));
    let err = |k: usize, y: f64| 4.0 * e * ((y - v.off[k]).abs() / v.scale[k] + v.c[k].abs()) + v.error(k, x[k], e) / v.scale[k] + (x[k] - p[k] as f64).abs();
    if (0..2).all(|k| err(k, of(i[k])) < 0.4) {
        match back {
            Ok(b) if b == q => {}
            b => fail!("back", "{p:?} is at {i:?}, which is {b:?} ({v:?})"),
        }
    }
    // some place of the destination
    let s = [v.off[0] + num(2000) as f64, v.off[1] + num(2000) as f64].map(|x| of(to::<F>(x)));
    let far = maybe(1, 8);
    let s = if far { s.map(|x| x * 1e30) } else { s };
    let b = unwrap_caught("back", lib_catch(|| a.reverse_transform::<I>(to(s[0]), to(s[1]))));
    let want: Vec<f64> = (0..2).map(|k| (s[k] - v.off[k]) / v.scale[k] + v.c[k]).collect();
    let slack = |k: usize| e * (8.0 + v.age) * ((s[k].abs() + v.off[k].abs()) / v.scale[k] + v.c[k].abs());
    let lim = if std::mem::size_of::<I>() == 4 { 2147483647.0 } else { 9.2e18 };
    match b {
        Ok(b) => {
            for k in 0..2 {
                if b[k] != I::of(b[k].to()) || want[k].abs() > 1.01 * lim + slack(k) {
                    fail!("back", "{s:?} can't be expressed in the source, but gives {b:?}");
                }
                near(&format!("{s:?} with {v:?} in the source"), b[k].to() as f64, want[k], 0.5 + slack(k));
            }
        }
        Err(_) => {
            if (0..2).all(|k| want[k].abs() + slack(k) < 0.99 * lim) {
                fail!("back", "{s:?} isn't found in the source, it is at {want:?} ({v:?})");
            }
        }
    }
}

fn viewers<I: Int, F: OutputType>() {
    let scale = [100i64, 8, 5000, 1_000_000][ops(4) as usize];
    if maybe(1, 10) {
        // without a source or a destination there is no view
        let (e, b) = (Aabb2::<F>::default(), make_box::<I, F>(scale).0);
        for (s, d) in [(&e, &b), (&b, &e), (&e, &e)] {
            if unwrap_caught("new view", lib_catch(|| SimpleAffine::<F>::new::<I>(s, d).is_ok())) {
                fail!("view", "a view of nothing");
            }
        }
    }
    let mut v: Vec<(SimpleAffine<F>, View)> = Vec::new();
    v.push(if maybe(1, 6) {
        (lib(SimpleAffine::default), View { c: [0.0; 2], scale: [1.0; 2], off: [0.0; 2], age: 0.0 })
    } else {
        let (s, d) = (make_box::<I, F>(scale), make_box::<I, F>([800, 20, 4000][ops(3) as usize]));
        open::<I, F>(&s, &d)
    });
    for _ in 0..3 + ops(28) {
        let k = sch(v.len() as u32) as usize;
        if k > 0 {
            rt::probe(P_INTERLEAVED);
        }
        match ops(8) {
            0 => {
                let f = [2.0, 0.5, 1.1, 0.9, 1.0, 3.0][ops(6) as usize];
                let (a, m) = &mut v[k];
                let f32_ = of(to::<F>(f));
                if m.scale[0] * f32_ > 1e4 || m.scale[0] * f32_ < 1e-4 {
                    continue;
                }
                ev!("viewer {k} zooms by {f}");
                lib(|| a.zoom(to(f)));
                m.scale = m.scale.map(|s| s * f32_);
                m.age += 1.0;
            }
            1 => {
                let (a, m) = &mut v[k];
                let d = [num(500) as f64, num(500) as f64];
                ev!("viewer {k} pans by {d:?}");
                for j in 0..2 {
                    a.to_offset[j] = a.to_offset[j] + to(d[j]);
                    m.off[j] = of(a.to_offset[j]);
                }
            }
            2 if v.len() < 4 => {
                ev!("viewer {k} is copied");
                let c = (lib(|| v[k].0.clone()), v[k].1);
                if c.0 != v[k].0 {
                    fail!("view", "a copy differs from its original");
                }
                v.push(c);
            }
            3 if v.len() > 1 => {
                rt::fault(F_CANCEL);
                ev!("viewer {k} leaves");
                v.remove(k);
            }
            4 => {
                // input for the builder
                let (sx, sy) = ([1.0, 2.0, 0.5, 0.25, -1.0][ops(5) as usize], [1.0, 3.0, 0.5, -2.0][ops(4) as usize]);
                let (dx, dy) = (num(1000), num(1000));
                let l: Vec<[i64; 4]> = (0..ops(4)).map(|_| [num(scale), num(scale), num(scale), num(scale)]).collect();
                let li: Vec<[I; 4]> = l.iter().map(|t| t.map(I::of)).collect();
                let got: Vec<Line<I>> = unwrap_caught("to_segments_offset", lib_catch(|| to_segments_offset(&li, sx, sy, dx, dy)));
                let f = |x: i64, s: f64, d: i64| I::of((x as f64 * s).trunc() as i64 + d);
                let want: Vec<Line<I>> = l
                    .iter()
                    .map(|t| Line { start: Point { x: f(t[0], sx, dx), y: f(t[1], sy, dy) }, end: Point { x: f(t[2], sx, dx), y: f(t[3], sy, dy) } })
                    .collect();
                if got != want {
                    fail!("view", "{l:?} times {sx},{sy} plus {dx},{dy} are {got:?} instead of {want:?}");
                }
            }
            _ => {
                let s = [scale, 20 * scale][ops(2) as usize];
                query::<I, F>(&v[k].0, &v[k].1, s)
            }
        }
        // nobody else is affected
        for (i, (a, m)) in v.iter().enumerate() {
            for j in 0..2 {
                near(&format!("scale of viewer {i}"), of(a.scale[j]), m.scale[j], m.scale[j].abs() * eps::<F>() * (8.0 + m.age));
                near(&format!("offset of viewer {i}"), of(a.to_offset[j]), m.off[j], m.off[j].abs() * eps::<F>() * 8.0);
            }
        }
    }
    for (a, m) in &v {
        query::<I, F>(a, m, scale);
    }
}

fn c24() {
    swarm_env();
    typed!(ops(4), viewers());
}

// ---------------------------------------------------------------------------------------------
// C23

struct Arc {
    p: [i64; 2],
    s: [i64; 4],
    ends: [[f64; 2]; 2],
}

fn arcs<F: OutputType>(d: &Diagram<F>, s: &Sites) -> Vec<Arc> {
    let r = Rec::of(d);
    let sites = match crate::model::attribution(s, &r) {
        Ok(v) => v,
        Err(e) => fail!("attribution", "{e}"),
    };
    let mut o = Vec::new();
    for (i, e) in r.edges.iter().enumerate() {
        if e.linear {
            continue;
        }
        let (a, b) = (&sites[e.cell.unwrap()], &sites[r.edges[e.twin.unwrap()].cell.unwrap()]);
        let (p, s) = match (a, b) {
            (crate::model::Site::Point(p), crate::model::Site::Seg(x, y)) | (crate::model::Site::Seg(x, y), crate::model::Site::Point(p)) => (*p, [x[0], x[1], y[0], y[1]]),
            _ => fail!("kind", "edge {i} is curved, but lies between {a:?} and {b:?}"),
        };
        let at = |v: usize| [f64::from_bits(r.verts[v].x), f64::from_bits(r.verts[v].y)];
        let (Some(v0), Some(v1)) = (e.v0, r.v1(i)) else { fail!("kind", "edge {i} is curved and unbounded") };
        o.push(Arc { p, s, ends: [at(v0), at(v1)] });
    }
    o
}

/// draws one arc as a viewer does, and judges the polyline
fn draw<I: Int, F: OutputType>(arc: &Arc, a: &SimpleAffine<F>, max: f64) {
    let e = eps::<F>();
    let scale = of(a.scale[0]);
    let ends: Vec<[F; 2]> = lib(|| arc.ends.iter().map(|p| a.transform_f(p.map(to))).collect());
    let (p, s) = (Point { x: I::of(arc.p[0]), y: I::of(arc.p[1]) }, Line { start: Point { x: I::of(arc.s[0]), y: I::of(arc.s[1]) }, end: Point { x: I::of(arc.s[2]), y: I::of(arc.s[3]) } });
    let mut line = ends.clone();
    rt::set_budget(20_000_000);
    unwrap_caught("discretize", lib_catch(|| VoronoiVisualUtils::discretize::<I, F>(&p, &s, to(max), a, &mut line)));
    rt::set_budget(DEFAULT_BUDGET);
    let what = format!("the arc between {:?} and {:?} from {:?} to {:?}, scale {scale}, within {max}", arc.p, arc.s, arc.ends[0], arc.ends[1]);
    if line.len() < 2 || line[0] != ends[0] || line[line.len() - 1] != ends[1] {
        fail!("ends", "{what}: the ends are {:?} instead of {ends:?}", [line.first(), line.last()]);
    }
    // along the segment and away from it, in units of the screen, independent of the library
    let org = [arc.s[0] as f64, arc.s[1] as f64];
    let d = [arc.s[2] as f64 - org[0], arc.s[3] as f64 - org[1]];
    let l = d[0].hypot(d[1]);
    let u = [d[0] / l, d[1] / l];
    let so = lib(|| a.transform_i([I::of(arc.s[0]), I::of(arc.s[1])])).map(of);
    let local = |q: [f64; 2]| {
        let w = [q[0] - so[0], q[1] - so[1]];
        [w[0] * u[0] + w[1] * u[1], u[0] * w[1] - u[1] * w[0]]
    };
    let w = [arc.p[0] as f64 - org[0], arc.p[1] as f64 - org[1]];
    let (px, h) = ((w[0] * u[0] + w[1] * u[1]) * scale, (u[0] * w[1] - u[1] * w[0]) * scale);
    let q: Vec<[f64; 2]> = line.iter().map(|p| local(p.map(of))).collect();
    // what the coordinates can resolve
    let span = ends.iter().map(|p| p.map(of)).chain([so]).flatten().fold(1f64, |m, c| m.max(c.abs())) + l * scale + org[0].abs().max(org[1].abs()) * scale;
    let steep = q.iter().map(|q| (q[0] - px).abs() / h.abs()).fold(1f64, f64::max);
    // a short segment far away gives a poor direction
    let reach = q.iter().map(|q| q[0].hypot(q[1])).fold(px.hypot(h), f64::max) / (l * scale);
    let unit = 64.0 * e * span * steep * (1.0 + reach);
    if unit > max / 4.0 || unit > h.abs() / 50.0 {
        return; // beyond the precision of the type
    }
    let y = |x: f64| ((x - px) * (x - px) + h * h) / (2.0 * h);
    let slope = |x: f64| (x - px) / h;
    let dir = (q[q.len() - 1][0] - q[0][0]).signum();
    for (i, c) in q.iter().enumerate() {
        // relative to the normal of the curve
        let off = (c[1] - y(c[0])).abs() / slope(c[0]).hypot(1.0);
        if off > 4.0 * unit {
            fail!("off", "{what}: point {i} is {off} off the curve ({line:?})");
        }
        if i > 0 {
            let b = q[i - 1];
            if (c[0] - b[0]) * dir < -4.0 * unit {
                fail!("order", "{what}: point {i} goes back ({line:?})");
            }
            let dx = c[0] - b[0];
            let k = (y(c[0]) - y(b[0])) / if dx == 0.0 { 1.0 } else { dx };
            let dev = dx * dx / (8.0 * h.abs()) / k.hypot(1.0);
            if dev > max * 1.001 + 4.0 * unit {
                fail!("far", "{what}: the line between the points {} and {i} is {dev} off the curve ({line:?})", i - 1);
            }
        }
    }
    // halving the arc until a chord is close enough leaves no more pieces than this
    let x = (q[q.len() - 1][0] - q[0][0]).abs();
    let need = (x / (8.0 * h.abs() * max).sqrt()).max(1.0);
    let bound = 2.0 * need + 3.0;
    if line.len() as f64 > bound + 1.0 {
        fail!("wasteful", "{what}: {} points, {bound} are more than enough (h {h} px {px} {q:?})", line.len());
    }
    rt::probe(P_CURVED);
}

fn render<I: Int + 'static, F: OutputType>() {
    let s = gen::sites(20);
    log_sites("sites", &s);
    let d = must_build::<I, F>(&s);
    let list = arcs(&d, &s);
    if list.is_empty() {
        return;
    }
    let mut src = Aabb2::<F>::default();
    lib(|| {
        for p in &s.p {
            src.update_point(&Point { x: I::of(p[0]), y: I::of(p[1]) });
        }
        for t in &s.s {
            src.update_line(&Line { start: Point { x: I::of(t[0]), y: I::of(t[1]) }, end: Point { x: I::of(t[2]), y: I::of(t[3]) } });
        }
    });
    let mut dst = Aabb2::<F>::default();
    let w = [800.0, 100.0, 3000.0][ops(3) as usize];
    lib(|| {
        dst.update_vertex(to(0.0), to(0.0));
        dst.update_vertex(to(w), to(w * 0.75));
    });
    let first = match lib(|| SimpleAffine::new::<I>(&src, &dst)) {
        Ok(a) => a,
        Err(e) => fail!("error", "no view: {e:?}"),
    };
    let mut views = vec![first];
    if maybe(1, 4) {
        let f = [100.0, 0.01, 10_000.0][ops(3) as usize];
        lib(|| views[0].zoom(to(f)));
    }
    for _ in 0..4 + ops(30) {
        let k = sch(views.len() as u32) as usize;
        match ops(8) {
            0 => {
                let f = [2.0, 0.5, 1.1, 0.9][ops(4) as usize];
                let z = of(views[k].scale[0]) * f;
                if z < 1e6 && z > 1e-6 {
                    lib(|| views[k].zoom(to(f)));
                }
            }
            1 => {
                let m = [num(500) as f64, num(500) as f64];
                for j in 0..2 {
                    views[k].to_offset[j] = views[k].to_offset[j] + to(m[j]);
                }
            }
            2 if views.len() < 3 => {
                let c = views[k].clone();
                views.push(c);
            }
            _ => {
                if views.len() > 1 {
                    rt::probe(P_INTERLEAVED);
                }
                let arc = &list[ops(list.len() as u32) as usize];
                let max = w * [1e-3, 1e-2, 0.1, 1e-4, 1.0][ops(5) as usize];
                draw::<I, F>(arc, &views[k], max);
            }
        }
    }
}

fn c23() {
    swarm_env();
    typed!(ops(4), render());
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23", run: c23, quick: 40_000, thorough: 900_000, real: REAL_LIB, stub: "heap and hash entropy; the viewers",
            rule: "sessions of 1-3 viewers that zoom, pan, copy their view and draw arcs of a generated diagram with drawn tolerances, interleaved; every polyline is judged in exact local coordinates: its ends, every point on the parabola, monotone, every chord within the tolerance, not more points than halving needs, within a step budget",
        },
        Prop {
            id: "C24", run: c24, quick: 80_000, thorough: 3_000_000, real: "SimpleAffine, Aabb2, to_segments_offset, Point and Line of the library", stub: "heap; the viewers",
            rule: "1-4 viewers opened on generated boxes zoom, pan, copy their view, leave and query in a random interleaving of 3-30 operations; every transformation in both directions is compared with a reference model in f64 within rounding, coordinates beyond the integers' range have to be reported",
        },
    ]
}
