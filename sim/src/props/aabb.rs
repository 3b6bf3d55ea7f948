//! C20: bounding boxes

use super::*;
use crate::gen;
use crate::typed;
use boostvoronoi::Aabb2;
use boostvoronoi::{cast, Line, Point};

#[derive(Clone, Copy, Debug, PartialEq)]
struct Model {
    b: Option<([f64; 2], [f64; 2])>,
}
impl Model {
    fn add(&mut self, x: f64, y: f64) {
        self.b = Some(match self.b {
            None => ([x, y], [x, y]),
            Some((l, h)) => ([l[0].min(x), l[1].min(y)], [h[0].max(x), h[1].max(y)]),
        });
    }
    fn has(&self, x: f64, y: f64) -> Option<bool> {
        self.b.map(|(l, h)| x >= l[0] && x <= h[0] && y >= l[1] && y <= h[1])
    }
}
#[derive(Clone, Copy, Debug)]
enum Msg {
    Point(i64, i64),
    Coord(i64, i64),
    Vertex(i64, i64),
    I64(i64, i64),
    F64(f64, f64),
    Line(i64, i64, i64, i64),
}
/// value as the box stores it
fn st<F: OutputType>(v: f64) -> f64 {
    cast::<F, f64>(cast::<f64, F>(v))
}
fn sti<F: OutputType>(v: i64) -> f64 {
    cast::<F, f64>(cast::<i64, F>(v))
}
fn apply<I: Int, F: OutputType>(b: &mut Aabb2<F>, m: Msg) {
    let p = |x: i64, y: i64| Point { x: I::of(x), y: I::of(y) };
    unwrap_caught(
        "update",
        lib_catch(|| match m {
            Msg::Point(x, y) => b.update_point(&p(x, y)),
            Msg::Coord(x, y) => b.update_coordinate::<I>(x as i32, y as i32),
            Msg::Vertex(x, y) => b.update_vertex(cast::<i64, F>(x), cast::<i64, F>(y)),
            Msg::I64(x, y) => b.update_i64(x, y),
            Msg::F64(x, y) => b.update_f64(x, y),
            Msg::Line(a, c, d, e) => b.update_line(&Line { start: p(a, c), end: p(d, e) }),
        }),
    )
}
fn predict<F: OutputType>(b: &mut Model, m: Msg) {
    match m {
        Msg::Point(x, y) | Msg::Coord(x, y) | Msg::Vertex(x, y) | Msg::I64(x, y) => b.add(sti::<F>(x), sti::<F>(y)),
        Msg::F64(x, y) => b.add(st::<F>(x), st::<F>(y)),
        Msg::Line(a, c, d, e) => {
            b.add(sti::<F>(a), sti::<F>(c));
            b.add(sti::<F>(d), sti::<F>(e));
        }
    }
}
fn corners<F: OutputType>(b: &Aabb2<F>) -> Option<([f64; 2], [f64; 2])> {
    let (l, h) = lib(|| (b.get_low(), b.get_high()));
    if l.is_some() != h.is_some() {
        fail!("box", "only one of the corners exists");
    }
    Some((l?.map(|v| cast::<F, f64>(v)), h?.map(|v| cast::<F, f64>(v))))
}
fn check<F: OutputType>(what: &str, b: &Aabb2<F>, m: &Model) {
    let got = corners(b);
    if got != m.b {
        fail!("box", "{what}: the box is {got:?} instead of {:?}", m.b);
    }
}

fn num(scale: i64) -> i64 {
    ops(2 * scale as u32 + 1) as i64 - scale
}

fn boxes<I: Int, F: OutputType>() {
    let scale = [2i64, 10, 1000, 1_000_000, i32::MAX as i64 / 2][ops(5) as usize];
    let n = ops(16) as usize;
    let msgs: Vec<Msg> = (0..n)
        .map(|_| {
            let (x, y) = (num(scale), num(scale));
            match ops(7) {
                0 => Msg::Point(x, y),
                1 => Msg::Coord(x, y),
                2 => Msg::Vertex(x, y),
                3 => Msg::I64(x * (1 + ops(4) as i64), y),
                4 => Msg::F64(x as f64 / 8.0, y as f64 * 0.3),
                5 => Msg::F64(x as f64 * 1e3, -(y as f64) * 1e-3),
                _ => Msg::Line(x, y, num(scale), num(scale)),
            }
        })
        .collect();
    ev!("messages {msgs:?}");
    let mut want = Model { b: None };
    msgs.iter().for_each(|m| predict::<F>(&mut want, *m));
    // receivers that get the messages in their own order, some of them more than once
    let k = 1 + ops(3) as usize;
    let mut boxes: Vec<(Aabb2<F>, Model)> = (0..k).map(|_| (lib(Aabb2::default), Model { b: None })).collect();
    let mut queues: Vec<Vec<Msg>> = (0..k)
        .map(|_| {
            let mut q = msgs.clone();
            if flt_maybe(3, 4) {
                rt::fault(F_REORDER);
                for i in (1..q.len()).rev() {
                    q.swap(i, flt(i as u32 + 1) as usize);
                }
            }
            if flt_maybe(1, 2) && !q.is_empty() {
                for _ in 0..flt(5) {
                    rt::fault(F_DUP);
                    let m = q[flt(q.len() as u32) as usize];
                    q.insert(flt(q.len() as u32 + 1) as usize, m);
                }
            }
            q
        })
        .collect();
    while queues.iter().any(|q| !q.is_empty()) {
        let i = sch(k as u32) as usize;
        let i = (0..k).map(|j| (i + j) % k).find(|j| !queues[*j].is_empty()).unwrap();
        let m = queues[i].pop().unwrap();
        let (b, model) = &mut boxes[i];
        // questions in between change nothing
        if maybe(1, 3) {
            let (x, y) = (num(scale), num(scale));
            let (x2, y2) = (num(scale), num(scale));
            let p = Point { x: I::of(x), y: I::of(y) };
            let l = Line { start: p, end: Point { x: I::of(x2), y: I::of(y2) } };
            let got = unwrap_caught("contains", lib_catch(|| (b.contains_point(&p), b.contains_line(&l))));
            let a = model.has(sti::<F>(x), sti::<F>(y));
            let z = model.has(sti::<F>(x2), sti::<F>(y2));
            let w = (a, a.zip(z).map(|(a, z)| a && z));
            if got != w {
                fail!("contains", "point {p:?}, line {l:?} in {:?}: {got:?} instead of {w:?}", model.b);
            }
        }
        if maybe(1, 12) {
            // growing contains everything that was there; a client may ask for a negative amount
            let pct = ops(300) as i32 - 40;
            let mut g = lib(|| b.clone());
            unwrap_caught("grow", lib_catch(|| g.grow_percent::<I>(pct)));
            match (corners(&g), model.b) {
                (None, None) => {}
                (Some((l, h)), Some((ml, mh))) => {
                    let size = (mh[0] - ml[0]).max(mh[1] - ml[1]);
                    let delta = (size * pct as f64 / 100.0).max(0.0);
                    let far = ml.iter().chain(&mh).fold(size, |a, b| a.max(b.abs()));
                    let eps = far * if std::mem::size_of::<F>() == 4 { 1e-5 } else { 1e-6 } + 1e-30;
                    for i in 0..2 {
                        if l[i] > ml[i] || h[i] < mh[i] {
                            fail!("grow", "growing by {pct}% loses a part: {:?} becomes {:?}", model.b, (l, h));
                        }
                        if pct < 0 {
                            continue;
                        }
                        if (ml[i] - delta - l[i]).abs() > eps || (mh[i] + delta - h[i]).abs() > eps {
                            fail!("grow", "growing {:?} by {pct}% gives {:?}", model.b, (l, h));
                        }
                    }
                }
                (a, b) => fail!("grow", "growing by {pct}%: {b:?} becomes {a:?}"),
            }
            check("the box a copy of which has grown", b, model);
        }
        ev!("receiver {i}: {m:?}");
        apply::<I, F>(b, m);
        predict::<F>(model, m);
        check("after an update", b, model);
    }
    for (b, m) in &boxes {
        check("at the end", b, &want);
        if lib(|| *b != boxes[0].0) {
            fail!("box", "boxes of the same messages differ");
        }
        assert!(*m == want);
    }
    // short cuts
    let (x, y, x2, y2) = (num(scale), num(scale), num(scale), num(scale));
    let mut m = Model { b: None };
    predict::<F>(&mut m, Msg::Line(x, y, x2, y2));
    let (p, q) = (Point { x: I::of(x), y: I::of(y) }, Point { x: I::of(x2), y: I::of(y2) });
    check("new", &lib(|| Aabb2::<F>::new::<I>(&p, &q)), &m);
    check("new_from_i32", &lib(|| Aabb2::<F>::new_from_i32::<I>(x as i32, y as i32, x2 as i32, y2 as i32)), &m);
}

fn of_diagram<I: Int, F: OutputType>(s: &Sites) {
    let d = must_build::<I, F>(s);
    let want = |d: &Diagram<F>| {
        let mut m = Model { b: None };
        for v in d.vertices() {
            m.add(cast::<F, f64>(v.get().x()), cast::<F, f64>(v.get().y()));
        }
        m
    };
    check("box of the vertices", &unwrap_caught("aabb", lib_catch(|| d.vertices_get_aabb::<I>())), &want(&d));
    for _ in 0..ops(4) {
        let c = ops(1 << 27);
        lib(|| d.color_exterior_edges(c));
        check("box of the vertices", &unwrap_caught("aabb", lib_catch(|| d.vertices_get_aabb::<I>())), &want(&d));
    }
    let mut d = d;
    lib(|| d.clear());
    check("box of no vertices", &unwrap_caught("aabb", lib_catch(|| d.vertices_get_aabb::<I>())), &Model { b: None });
}

fn c20() {
    swarm_env();
    let t = ops(4);
    if maybe(1, 4) {
        let s = gen::sites(15);
        log_sites("sites", &s);
        typed!(t, of_diagram(&s));
    } else {
        typed!(t, boxes());
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20", run: c20, quick: 120_000, thorough: 2_000_000,
        rule: "1-3 receivers get the same 0-15 updates (all update operations) in their own orders with duplicates, interleaved with queries and growth of copies; compared with the exact minimum and maximum after every step",
        real: REAL_LIB, stub: "the transport of the updates, heap and hash entropy",
    }]
}
