//! C11, C12, C13, C18: annotating and traversing diagrams

use super::*;
use crate::gen;
use crate::model::{self, cid, eid, vid, Rec};
use crate::typed;
use boostvoronoi::{Edge, SyncDiagram, Vertex};

pub const MASK: u32 = 0x07ff_ffff;

/// colours: single bits, small numbers, everything set, the bits at the limit of the field
pub fn color() -> u32 {
    match ops(6) {
        0 => ops(8),
        1 => 1 << ops(32),
        2 => ops(u32::MAX),
        3 => {
            rt::probe(P_WRAP);
            [u32::MAX, 1 << 26, 1 << 27, 0xf800_0000, MASK, MASK + 1][ops(6) as usize]
        }
        4 => 0,
        _ => ops(1 << 27),
    }
}

pub fn input(max: u32) -> Sites {
    if maybe(1, 50) {
        gen::large(60 + ops(200))
    } else {
        gen::sites(max)
    }
}

// ---------------------------------------------------------------------------------------------
// C11

fn expect(what: &str, got: u32, want: u32) {
    if got != want {
        fail!("color", "{what}: the colour is {got:#x} instead of {want:#x}");
    }
}
fn compare(what: &str, got: &Rec, want: &Rec) {
    if got != want {
        fail!("state", "{what}: {}", model::diff(got, want));
    }
}

enum Held<F: OutputType> {
    None,
    E(usize, Edge, std::rc::Rc<std::cell::Cell<Edge>>),
    V(usize, Vertex<F>, std::rc::Rc<std::cell::Cell<Vertex<F>>>),
}

fn annotate<I: Int, F: OutputType>(s: &Sites, ext: bool) {
    let d = must_build::<I, F>(s);
    let m = std::cell::RefCell::new(Rec::of(&d));
    let n = 1 + ops(3) as usize;
    let exterior_left = std::cell::Cell::new(ext);
    let ext_bit: u32 = 1 << 26;
    let draw = || if ext { color() & !ext_bit } else { color() };
    let (ne, nv) = (d.num_edges(), d.num_vertices());
    let d = &d;
    let mut tasks: Vec<Box<dyn FnMut() -> bool + '_>> = Vec::new();
    for me in 0..n {
        let mut held: Held<F> = Held::None;
        let mut left = 3 + ops(30);
        let (m, exterior_left, draw) = (&m, &exterior_left, &draw);
        // private copies of shared handles
        let mine: Vec<_> = d.edges().to_vec();
        let myv: Vec<_> = d.vertices().to_vec();
        tasks.push(Box::new(move || {
            left -= 1;
            let mut m = m.borrow_mut();
            let on_edge = if nv == 0 { true } else if ne == 0 { false } else { ops(3) > 0 };
            if ne == 0 && nv == 0 {
                return left > 0;
            }
            let k = ops(if on_edge { ne } else { nv } as u32) as usize;
            let act = ops(10);
            let c = draw();
            let w = if on_edge { "edge" } else { "vertex" };
            ev!("client {me}: action {act} {w} {k} colour {c:#x}");
            let r = lib_catch(|| -> Result<(), BvError> {
                match (act, on_edge) {
                    (0 | 1, true) => {
                        d.edge_set_color(eid(k), c)?;
                        m.edges[k].color = c & MASK;
                    }
                    (0 | 1, false) => {
                        d.vertex_set_color(vid(k), c);
                        m.verts[k].color = c & MASK;
                    }
                    (2 | 3, true) => {
                        d.edge_or_color(eid(k), c)?;
                        m.edges[k].color |= c & MASK;
                    }
                    (2 | 3, false) => {
                        d.vertex_or_color(vid(k), c);
                        m.verts[k].color |= c & MASK;
                    }
                    (4, true) => {
                        let got = match ops(4) {
                            0 => d.edge_get_color(eid(k))?,
                            1 => d.get_edge(eid(k))?.get().get_color(),
                            2 => mine[k].get().get_color(),
                            _ => d.edges()[k].get().get_color(),
                        };
                        expect("edge", got, m.edges[k].color);
                    }
                    (4, false) => {
                        let got = match ops(4) {
                            0 => d.vertex_get_color(Some(vid(k))).unwrap_or(u32::MAX),
                            1 => d.vertex_get(vid(k))?.get().get_color(),
                            2 => myv[k].get().get_color(),
                            _ => d.vertices()[k].get().get_color(),
                        };
                        expect("vertex", got, m.verts[k].color);
                    }
                    // atomic change by way of a handle
                    (5, true) => {
                        let h = if ops(2) == 0 { d.get_edge(eid(k))? } else { mine[k].clone() };
                        let mut e = h.get();
                        if c & 1 == 0 {
                            e.set_color(c);
                            m.edges[k].color = c & MASK;
                        } else {
                            e.or_color(c);
                            m.edges[k].color |= c & MASK;
                        }
                        h.set(e);
                    }
                    (5, false) => {
                        let h = if ops(2) == 0 { d.vertex_get(vid(k))?.clone() } else { myv[k].clone() };
                        let mut e = h.get();
                        if c & 1 == 0 {
                            e.set_color(c);
                            m.verts[k].color = c & MASK;
                        } else {
                            e.or_color(c);
                            m.verts[k].color |= c & MASK;
                        }
                        h.set(e);
                    }
                    // a copy is taken, it is written back later
                    (6 | 7, _) => match std::mem::replace(&mut held, Held::None) {
                        Held::None => {
                            held = if on_edge {
                                let h = mine[k].clone();
                                Held::E(k, h.get(), h)
                            } else {
                                let h = myv[k].clone();
                                Held::V(k, h.get(), h)
                            };
                        }
                        _ if flt_maybe(1, 6) => rt::fault(F_CANCEL),
                        Held::E(k, mut e, h) => {
                            let old = e.get_color();
                            if c & 1 == 0 {
                                e.set_color(c);
                            } else {
                                e.or_color(c);
                            }
                            if old != m.edges[k].color {
                                rt::fault(F_STALECOPY);
                            }
                            h.set(e);
                            m.edges[k].color = if c & 1 == 0 { c & MASK } else { old | c & MASK };
                        }
                        Held::V(k, mut e, h) => {
                            let old = e.get_color();
                            if c & 1 == 0 {
                                e.set_color(c);
                            } else {
                                e.or_color(c);
                            }
                            if old != m.verts[k].color {
                                rt::fault(F_STALECOPY);
                            }
                            h.set(e);
                            m.verts[k].color = if c & 1 == 0 { c & MASK } else { old | c & MASK };
                        }
                    },
                    // changing a copy changes nothing else
                    (8, true) => {
                        let mut e = mine[k].get();
                        e.set_color(c);
                        let f = e;
                        e.or_color(MASK);
                        expect("a copy of an edge", f.get_color(), c & MASK);
                        expect("a copy of an edge", e.get_color(), MASK);
                    }
                    (8, false) => {
                        let mut e = myv[k].get();
                        e.set_color(c);
                        let f = e;
                        e.or_color(MASK);
                        expect("a copy of a vertex", f.get_color(), c & MASK);
                        expect("a copy of a vertex", e.get_color(), MASK);
                    }
                    _ => {
                        if exterior_left.replace(false) {
                            let (e, v) = host(|| model::exterior(&m));
                            d.color_exterior_edges(ext_bit);
                            for (k, x) in e.iter().enumerate() {
                                if *x {
                                    m.edges[k].color |= ext_bit;
                                }
                            }
                            for (k, x) in v.iter().enumerate() {
                                if *x {
                                    m.verts[k].color = ext_bit;
                                }
                            }
                        }
                    }
                }
                Ok(())
            });
            if let Err(e) = unwrap_caught("annotate", r) {
                fail!("error", "{e:?}");
            }
            if ne < 300 {
                compare("after a step", &Rec::of(d), &m);
            } else if on_edge {
                expect("edge", d.edges()[k].get().get_color(), m.edges[k].color);
            }
            if left == 0 && !matches!(held, Held::None) {
                rt::fault(F_CANCEL);
            }
            left > 0
        }));
    }
    interleave(&mut tasks);
    drop(tasks);
    compare("at the end", &Rec::of(d), &m.borrow());
}

fn annotate_sync<I: Int, F: OutputType>(s: &Sites) {
    let d = must_build::<I, F>(s);
    let mut m = Rec::of(&d);
    let mut y: SyncDiagram<F> = unwrap_caught("convert", lib_catch(|| d.into()));
    let (ne, nv) = (m.edges.len(), m.verts.len());
    for _ in 0..ops(20) {
        let c = color();
        if ne > 0 {
            let k = ops(ne as u32) as usize;
            ev!("edge {k} colour {c:#x}");
            let r = unwrap_caught(
                "annotate",
                lib_catch(|| {
                    y.edge_get_mut(eid(k)).map(|e| {
                        if c & 1 == 0 {
                            e.set_color(c);
                        } else {
                            e.or_color(c);
                        }
                    })
                }),
            );
            if r.is_err() {
                fail!("error", "{r:?}");
            }
            m.edges[k].color = if c & 1 == 0 { c & MASK } else { m.edges[k].color | c & MASK };
        }
        if nv > 0 {
            let k = ops(nv as u32) as usize;
            let c = color();
            ev!("vertex {k} colour {c:#x}");
            let r = unwrap_caught(
                "annotate",
                lib_catch(|| {
                    y.vertex_get_mut(vid(k)).map(|e| {
                        if c & 1 == 0 {
                            e.set_color(c);
                        } else {
                            e.or_color(c);
                        }
                    })
                }),
            );
            if r.is_err() {
                fail!("error", "{r:?}");
            }
            m.verts[k].color = if c & 1 == 0 { c & MASK } else { m.verts[k].color | c & MASK };
        }
        if ne < 300 {
            compare("the converted diagram", &Rec::of_sync(&y), &m);
        }
    }
    compare("the converted diagram", &Rec::of_sync(&y), &m);
}

fn c11() {
    swarm_env();
    let s = input(14);
    log_sites("sites", &s);
    let t = ops(4);
    if maybe(1, 4) {
        typed!(t, annotate_sync(&s));
    } else {
        let ext = maybe(1, 3);
        typed!(t, annotate(&s, ext));
    }
}

// ---------------------------------------------------------------------------------------------
// C12

/// one traversal, step by step
fn walker<'a>(
    what: String,
    mut it: Box<dyn Iterator<Item = boostvoronoi::EdgeIndex> + 'a>,
    want: Vec<usize>,
    give_up: Option<usize>,
) -> Box<dyn FnMut() -> bool + 'a> {
    let mut pos = 0;
    let mut after = 0;
    Box::new(move || {
        if give_up == Some(pos) {
            rt::fault(F_CANCEL);
            return false;
        }
        let (lo, hi) = it.size_hint();
        let left = want.len().saturating_sub(pos);
        if lo > left || hi.is_some_and(|h| h < left) {
            fail!("hint", "{what}: {left} edges are left, the size hint is {lo}..{hi:?}");
        }
        let got = unwrap_caught("traversal", lib_catch(|| it.next())).map(|e| e.0);
        ev!("{what}: {got:?}");
        if pos < want.len() {
            if got != Some(want[pos]) {
                fail!("traversal", "{what}: step {pos} gives {got:?}, expected {} (all: {want:?})", want[pos]);
            }
            pos += 1;
            true
        } else {
            if let Some(g) = got {
                fail!("traversal", "{what}: gives {g} after its end ({want:?})");
            }
            after += 1;
            after < 3
        }
    })
}

fn traverse<I: Int, F: OutputType>(s: &Sites) {
    let d = must_build::<I, F>(s);
    let r = Rec::of(&d);
    if let Err(e) = model::integrity(&r) {
        fail!("integrity", "{e} ({s:?})");
    }
    model::note(&r);
    let (nc, ne, nv) = (r.cells.len(), r.edges.len(), r.verts.len());
    let (d, r) = (&d, &r);
    // single steps
    for i in 0..ne.min(200) {
        let (n, p) = unwrap_caught("rotate", lib_catch(|| (d.edge_rot_next(eid(i)).ok(), d.edge_rot_prev(Some(eid(i))))));
        let (n, p) = (n.map(|e| e.0), p.map(|e| e.0));
        if n != r.rot_next(i) || p != r.rot_prev(i) {
            fail!("rotation", "edge {i}: rotation gives {n:?}/{p:?}, expected {:?}/{:?}", r.rot_next(i), r.rot_prev(i));
        }
        let back = lib(|| (d.edge_rot_prev(n.map(eid)), p.and_then(|p| d.edge_rot_next(eid(p)).ok())));
        if back != (Some(eid(i)), Some(eid(i))) {
            fail!("rotation", "edge {i}: rotating forth and back ends at {back:?}");
        }
        let e = &r.edges[i];
        let (t, x, v0, v1, fin, inf) = unwrap_caught("links", lib_catch(|| {
            (d.edge_get_twin(eid(i)).ok(), d.edge_get_next(eid(i)).ok(), d.edge_get_vertex0(eid(i)).ok(), d.edge_get_vertex1(eid(i)).ok(), d.edge_is_finite(eid(i)).ok(), d.edge_is_infinite(eid(i)).ok())
        }));
        let cell = lib(|| d.edge_get_cell(eid(i)).ok());
        let ok = t.map(|x| x.0) == e.twin
            && x.map(|x| x.0) == e.next
            && v0 == Some(e.v0.map(vid))
            && v1 == Some(r.v1(i).map(vid))
            && fin == Some(!r.infinite(i))
            && inf == Some(r.infinite(i))
            && cell == e.cell.map(cid);
        if !ok {
            fail!("links", "edge {i}: {t:?} {x:?} {v0:?} {v1:?} {fin:?} {inf:?} {cell:?}, recorded {e:?}");
        }
        let line = lib(|| d.edge_as_line(eid(i)).ok());
        let b = |v: Option<usize>| v.map(|v| (r.verts[v].x, r.verts[v].y));
        let want = b(e.v0).zip(b(r.v1(i)));
        let got = line.map(|l| {
            let l = l.map(|c| boostvoronoi::cast::<F, f64>(c).to_bits());
            ((l[0], l[1]), (l[2], l[3]))
        });
        if got != want {
            fail!("line", "edge {i} as a line: {got:?}, its vertices: {want:?}");
        }
    }
    let sync: Option<SyncDiagram<F>> = maybe(1, 2).then(|| lib(|| must_build::<I, F>(s).into()));
    if let Some(y) = &sync {
        for i in 0..ne.min(200) {
            let e = &r.edges[i];
            let (rn, rp, t, n, p) = unwrap_caught("links", lib_catch(|| {
                (y.edge_rot_next(eid(i)).ok(), y.edge_rot_prev(eid(i)).ok(), y.edge_get_twin(eid(i)).ok(), y.edge_get_next(eid(i)).ok(), y.edge_get_prev(eid(i)).ok())
            }));
            let (v0, v1, fin, inf) = unwrap_caught("links", lib_catch(|| {
                (y.edge_get_vertex0(eid(i)).ok(), y.edge_get_vertex1(eid(i)).ok(), y.edge_is_finite(eid(i)).ok(), y.edge_is_infinite(eid(i)).ok())
            }));
            let ok = rn.map(|x| x.0) == r.rot_next(i)
                && rp.map(|x| x.0) == r.rot_prev(i)
                && t.map(|x| x.0) == e.twin
                && n.map(|x| x.0) == e.next
                && p.map(|x| x.0) == e.prev
                && v0 == Some(e.v0.map(vid))
                && v1 == Some(r.v1(i).map(vid))
                && fin == Some(!r.infinite(i))
                && inf == Some(r.infinite(i));
            if !ok {
                fail!("links", "edge {i} (converted): {rn:?} {rp:?} {t:?} {n:?} {p:?} {v0:?} {v1:?} {fin:?} {inf:?}, recorded {e:?}");
            }
            if lib(|| y.edge_get(eid(i)).ok().map(model::EdgeR::of)) != Some(model::EdgeR::of(&y.edges()[i])) {
                fail!("links", "edge {i} (converted) isn't the edge of this id");
            }
        }
        for i in 0..nv.min(100) {
            if lib(|| y.vertex_get(vid(i)).ok().map(model::VertR::of)) != Some(r.verts[i]) {
                fail!("links", "vertex {i} (converted) isn't the vertex of this id");
            }
        }
        for i in 0..nc.min(100) {
            if lib(|| y.cell_get(cid(i)).ok().map(model::CellR::of)) != Some(r.cells[i].clone()) {
                fail!("links", "cell {i} (converted) isn't the cell of this id");
            }
        }
    }
    // traversals in flight, all at the same time
    let mut tasks: Vec<Box<dyn FnMut() -> bool + '_>> = Vec::new();
    for _ in 0..1 + ops(8) {
        let give_up = flt_maybe(1, 4).then(|| flt(6) as usize);
        match ops(6) {
            0 | 1 if nc > 0 => {
                let c = ops(nc as u32) as usize;
                let want = r.cells[c].inc.map(|e| r.cell_ring(e)).unwrap_or_default();
                let mut all: Vec<usize> = want.clone();
                all.sort_unstable();
                let own: Vec<usize> = (0..ne).filter(|e| r.edges[*e].cell == Some(c)).collect();
                if all != own {
                    fail!("ring", "the boundary of cell {c} is {all:?}, its edges are {own:?}");
                }
                let it = lib(|| d.cell_edge_iterator(cid(c)));
                tasks.push(walker(format!("boundary of cell {c}"), Box::new(it), want, give_up));
            }
            k @ 2..=3 if nv > 0 => {
                let v = ops(nv as u32) as usize;
                let e = r.verts[v].inc.unwrap();
                let it = lib(|| d.vertex_get_incident_edge(Some(vid(v))));
                if it != Some(eid(e)) {
                    fail!("links", "incident edge of vertex {v}: {it:?} instead of {e}");
                }
                let want = if k == 2 { r.ring(e, |r, e| r.rot_next(e)) } else { r.ring(e, |r, e| r.rot_prev(e)) };
                let mut all = want.clone();
                all.sort_unstable();
                let own: Vec<usize> = (0..ne).filter(|e| r.edges[*e].v0 == Some(v)).collect();
                if all != own {
                    fail!("ring", "the edges around vertex {v} are {all:?}, those that start there {own:?}");
                }
                if k == 2 {
                    tasks.push(walker(format!("around vertex {v}"), Box::new(lib(|| d.edge_rot_next_iterator(it))), want, give_up));
                } else {
                    tasks.push(walker(format!("around vertex {v}, backwards"), Box::new(lib(|| d.edge_rot_prev_iterator(it))), want, give_up));
                }
            }
            4 if ne > 0 => {
                let e = ops(ne as u32) as usize;
                if maybe(1, 2) {
                    let want = r.ring(e, |r, e| r.rot_next(e));
                    tasks.push(walker(format!("rotation of edge {e}"), Box::new(lib(|| d.edge_rot_next_iterator(Some(eid(e))))), want, give_up));
                } else {
                    let want = r.ring(e, |r, e| r.rot_prev(e));
                    tasks.push(walker(format!("rotation of edge {e}, backwards"), Box::new(lib(|| d.edge_rot_prev_iterator(Some(eid(e))))), want, give_up));
                }
            }
            _ if ne > 0 && sync.is_some() => {
                let e = ops(ne as u32) as usize;
                let want = r.ring(e, |r, e| r.rot_next(e));
                let y = sync.as_ref().unwrap();
                tasks.push(walker(format!("rotation of edge {e} (converted)"), Box::new(lib(|| y.edge_rot_next_iterator(eid(e)))), want, give_up));
            }
            _ => {
                tasks.push(walker("nothing".into(), Box::new(lib(|| d.edge_rot_next_iterator(None))), vec![], None));
                tasks.push(walker("nothing".into(), Box::new(lib(|| d.edge_rot_prev_iterator(None))), vec![], None));
            }
        }
    }
    // annotation meanwhile
    if ne > 0 {
        let mut left = ops(40);
        let mut held = None;
        tasks.push(Box::new(move || {
            let k = ops(ne as u32) as usize;
            let c = color();
            unwrap_caught(
                "annotate",
                lib_catch(|| match ops(6) {
                    0 => drop(d.edge_set_color(eid(k), c)),
                    1 => drop(d.edge_or_color(eid(k), c)),
                    2 if nv > 0 => drop(d.vertex_set_color(vid(k % nv), c)),
                    3 => d.color_exterior_edges(c),
                    4 => {
                        let mut e = d.edges()[k].get();
                        e.set_color(c);
                        held = Some((k, e));
                    }
                    _ => {
                        if let Some((k, e)) = held.take() {
                            rt::fault(F_STALECOPY);
                            d.edges()[k].set(e);
                        }
                    }
                }),
            );
            left = left.saturating_sub(1);
            left > 0
        }));
    }
    interleave(&mut tasks);
    drop(tasks);
    compare("structure after everything", &Rec::of(d).uncolored(), &r.uncolored());
}

fn c12() {
    swarm_env();
    let s = input(20);
    log_sites("sites", &s);
    typed!(ops(4), traverse(&s));
}

// ---------------------------------------------------------------------------------------------
// C13

fn mark<I: Int, F: OutputType>(s: &Sites, big: bool) {
    let d = must_build::<I, F>(s);
    let mut m = Rec::of(&d);
    model::note(&m);
    let (ne, nv) = (m.edges.len(), m.verts.len());
    let (ext_e, ext_v) = model::exterior(&m);
    if ext_e.iter().any(|x| *x) {
        rt::probe(P_EXTERIOR);
    }
    if ext_e.iter().any(|x| !*x) {
        rt::probe(P_INTERIOR);
    }
    // the bits of the field are dealt out: some to the markings, some to the clients
    let mut free: Vec<u32> = (0..27).collect();
    let mut take = |n: u32| {
        let mut c = 0;
        for _ in 0..n {
            if !free.is_empty() {
                c |= 1u32 << free.remove(ops(free.len() as u32) as usize);
            }
        }
        c
    };
    let marks: Vec<u32> = (0..1 + ops(3)).map(|_| { let n = 1 + ops(3); take(n) }).filter(|c| *c != 0).collect();
    let prior = { let n = ops(12); take(n) };
    ev!("marks {marks:x?}, the clients use {prior:#x}");
    let annotate = |m: &mut Rec, c: u32| {
        // the vertices may be taken for anything, they are overwritten
        for _ in 0..if maybe(1, 2) { ops(8) } else { 0 } {
            if nv > 0 {
                let k = ops(nv as u32) as usize;
                let c = if maybe(1, 2) { c } else { color() };
                unwrap_caught("annotate", lib_catch(|| drop(d.vertex_set_color(vid(k), c))));
                m.verts[k].color = c & MASK;
            }
        }
        if ne == 0 || prior == 0 {
            return;
        }
        for _ in 0..ops(12) {
            let c = ops(u32::MAX) & prior;
            let k = ops(ne as u32) as usize;
            unwrap_caught("annotate", lib_catch(|| drop(d.edge_or_color(eid(k), c))));
            m.edges[k].color |= c;
            if nv > 0 {
                let k = ops(nv as u32) as usize;
                unwrap_caught("annotate", lib_catch(|| d.vertex_or_color(vid(k), c)));
                m.verts[k].color |= c;
            }
        }
    };
    for c in marks {
        annotate(&mut m, c);
        // the bits beyond the field are dropped
        let junk = if maybe(1, 3) { ops(32) << 27 } else { 0 };
        ev!("marking with {:#x}", c | junk);
        let rounds = 1 + flt(2);
        for round in 0..rounds {
            if round > 0 {
                rt::fault(F_DUP);
            }
            let stack = if big || flt_maybe(1, 6) { [2usize << 20, 48 << 10, 64 << 10, 128 << 10][flt(4) as usize] } else { 0 };
            let mut out = None;
            if stack > 0 {
                if stack < 2 << 20 {
                    rt::fault(F_STACK);
                }
                let (d, out) = (&d, &mut out);
                run_threads(0, vec![Job { stack, f: Box::new(move || *out = Some(lib_catch(|| d.color_exterior_edges(c | junk)))) }]);
            } else {
                out = Some(lib_catch(|| d.color_exterior_edges(c | junk)));
            }
            unwrap_caught("marking", out.unwrap());
            if round == 0 {
                for k in 0..ne {
                    if ext_e[k] {
                        m.edges[k].color |= c;
                    }
                }
                for k in 0..nv {
                    if ext_v[k] {
                        m.verts[k].color = c;
                    }
                }
            }
            let now = Rec::of(&d);
            if now != m {
                fail!("marking", "after marking with {:#x} (round {round}): {} ({s:?})", c | junk, model::diff(&now, &m));
            }
        }
    }
    if flt_maybe(1, 3) {
        let junk = ops(32) << 27;
        ev!("marking with {junk:#x}");
        unwrap_caught("marking", lib_catch(|| d.color_exterior_edges(junk)));
        compare("after marking with a colour outside of the field", &Rec::of(&d), &m);
    }
}

fn c13() {
    swarm_env();
    let big = maybe(1, 25);
    let s = if big { gen::large(100 + ops(1500)) } else { gen::sites(30) };
    log_sites("sites", &s);
    typed!(ops(4), mark(&s, big));
}

// ---------------------------------------------------------------------------------------------
// C18

/// an id that the diagram doesn't know
fn unknown(n: usize, other: usize) -> usize {
    rt::fault(F_STALE);
    match flt(6) {
        0 => n,
        1 => n + 1 + flt(5) as usize,
        2 => usize::MAX,
        3 => usize::MAX / 2 + flt(9) as usize,
        4 => n.max(other),
        _ => n + flt(1 << 20) as usize,
    }
}

pub fn absurd<F: OutputType>(d: &Diagram<F>, ne: usize, nv: usize, nc: usize) {
    let (e, v, c) = (unknown(d.num_edges(), ne), unknown(d.num_vertices(), nv), unknown(d.num_cells(), nc));
    let k = ops(24);
    ev!("use {k} of unknown edge {e}, vertex {v}, cell {c}");
    let before = Rec::of(d);
    let (e, v, c) = (eid(e), vid(v), cid(c));
    let col = color();
    let r = lib_catch(|| -> Result<(), &'static str> {
        let no = |x: bool, what: &'static str| if x { Err(what) } else { Ok(()) };
        match k {
            0 => no(d.get_edge(e).is_ok(), "get_edge"),
            1 => no(d.get_cell(c).is_ok(), "get_cell"),
            2 => no(d.vertex_get(v).is_ok(), "vertex_get"),
            3 => no(d.edge_get_color(e).is_ok(), "edge_get_color"),
            4 => no(d.vertex_get_color(Some(v)).is_some() || d.vertex_get_color(None).is_some(), "vertex_get_color"),
            5 => no(d.vertex_get_incident_edge(Some(v)).is_some() || d.vertex_get_incident_edge(None).is_some(), "vertex_get_incident_edge"),
            6 => no(d.edge_get_twin(e).is_ok(), "edge_get_twin"),
            7 => no(d.edge_get_next(e).is_ok(), "edge_get_next"),
            8 => no(d.edge_get_cell(e).is_ok(), "edge_get_cell"),
            9 => no(matches!(d.edge_get_vertex0(e), Ok(Some(_))), "edge_get_vertex0"),
            10 => no(matches!(d.edge_get_vertex1(e), Ok(Some(_))), "edge_get_vertex1"),
            11 => no(d.edge_is_finite(e).is_ok(), "edge_is_finite"),
            12 => no(d.edge_is_infinite(e).is_ok(), "edge_is_infinite"),
            13 => no(d.edge_rot_next(e).is_ok(), "edge_rot_next"),
            14 => no(d.edge_rot_prev(Some(e)).is_some() || d.edge_rot_prev(None).is_some(), "edge_rot_prev"),
            15 => no(d.edge_as_line(e).is_ok(), "edge_as_line"),
            16 => no(d.cell_edge_iterator(c).next().is_some(), "cell_edge_iterator"),
            17 => no(d.edge_rot_next_iterator(Some(e)).take(4).filter(|x| *x != e).count() > 0 || d.edge_rot_next_iterator(Some(e)).take(4).count() > 1, "edge_rot_next_iterator"),
            18 => no(d.edge_rot_prev_iterator(Some(e)).take(4).filter(|x| *x != e).count() > 0 || d.edge_rot_prev_iterator(Some(e)).take(4).count() > 1, "edge_rot_prev_iterator"),
            19 => {
                let _ = d.edge_set_color(e, col);
                Ok(())
            }
            20 => {
                let _ = d.edge_or_color(e, col);
                Ok(())
            }
            21 => {
                d.vertex_set_color(v, col);
                Ok(())
            }
            22 => {
                d.vertex_or_color(v, col);
                Ok(())
            }
            _ => no(d.vertex_is_site_point(v).is_ok_and(|x| x), "vertex_is_site_point"),
        }
    });
    if let Err(w) = unwrap_caught("unknown id", r) {
        fail!("stale", "{w} answers for edge {e:?}, vertex {v:?}, cell {c:?}: {:?}", (before.edges.len(), before.verts.len(), before.cells.len()));
    }
    compare("using an unknown id", &Rec::of(d), &before);
}

pub fn absurd_sync<F: OutputType>(y: &mut SyncDiagram<F>, ne: usize, nv: usize, nc: usize) {
    let (e, v, c) = (unknown(y.edges().len(), ne), unknown(y.vertices().len(), nv), unknown(y.cells().len(), nc));
    let k = ops(14);
    ev!("use {k} of unknown edge {e}, vertex {v}, cell {c} (converted)");
    let before = Rec::of_sync(y);
    let (e, v, c) = (eid(e), vid(v), cid(c));
    let r = lib_catch(|| match k {
        0 => y.edge_get(e).is_ok(),
        1 => y.cell_get(c).is_ok(),
        2 => y.vertex_get(v).is_ok(),
        3 => y.edge_get_mut(e).is_ok(),
        4 => y.vertex_get_mut(v).is_ok(),
        5 => y.edge_get_twin(e).is_ok(),
        6 => y.edge_get_next(e).is_ok(),
        7 => y.edge_get_prev(e).is_ok(),
        8 => matches!(y.edge_get_vertex0(e), Ok(Some(_))),
        9 => matches!(y.edge_get_vertex1(e), Ok(Some(_))),
        10 => y.edge_is_finite(e).is_ok() || y.edge_is_infinite(e).is_ok(),
        11 => y.edge_rot_next(e).is_ok(),
        12 => y.edge_rot_prev(e).is_ok(),
        _ => y.edge_rot_next_iterator(e).take(4).count() > 1,
    });
    if unwrap_caught("unknown id", r) {
        fail!("stale", "use {k} answers for edge {e:?}, vertex {v:?}, cell {c:?} (converted)");
    }
    compare("using an unknown id", &Rec::of_sync(y), &before);
}

fn stale<I: Int, F: OutputType>(s: &Sites, o: &Sites) {
    let mut d = must_build::<I, F>(s);
    let other = must_build::<I, F>(o);
    let (ne, nv, nc) = (other.num_edges(), other.num_vertices(), other.num_cells());
    let r = Rec::of(&d);
    for _ in 0..ops(10) {
        absurd(&d, ne, nv, nc);
    }
    // handles outlive the contents
    let h: (Vec<_>, Vec<_>, Vec<_>) = (d.edges().to_vec(), d.vertices().to_vec(), d.cells().to_vec());
    match ops(4) {
        0 => {
            ev!("clear");
            unwrap_caught("clear", lib_catch(|| d.clear()));
            if d.num_edges() + d.num_vertices() + d.num_cells() != 0 {
                fail!("clear", "something is left after clear()");
            }
            for _ in 0..ops(12) {
                absurd(&d, r.edges.len(), r.verts.len(), r.cells.len());
            }
            unwrap_caught(
                "cleared",
                lib_catch(|| {
                    d.color_exterior_edges(color());
                    let _ = d.vertices_get_aabb::<I>();
                    d.reserve_(ops(100) as usize);
                    d.clear();
                }),
            );
            let mut y: SyncDiagram<F> = unwrap_caught("convert", lib_catch(|| d.into()));
            for _ in 0..ops(6) {
                absurd_sync(&mut y, r.edges.len(), r.verts.len(), r.cells.len());
            }
        }
        1 => {
            ev!("drop");
            unwrap_caught("drop", lib_catch(|| drop(d)));
        }
        2 => {
            let mut y: SyncDiagram<F> = unwrap_caught("convert", lib_catch(|| d.into()));
            for _ in 0..ops(14) {
                absurd_sync(&mut y, ne, nv, nc);
            }
        }
        _ => {
            // ids of one diagram are used with another one, in both directions
            for _ in 0..ops(14) {
                absurd(&d, ne, nv, nc);
                absurd(&other, r.edges.len(), r.verts.len(), r.cells.len());
            }
        }
    }
    let now = Rec {
        edges: h.0.iter().map(|e| model::EdgeR::of(&e.get())).collect(),
        verts: h.1.iter().map(|e| model::VertR::of(&e.get())).collect(),
        cells: h.2.iter().map(|e| model::CellR::of(&e.get())).collect(),
    };
    compare("handles after their diagram has changed or gone", &now, &r);
    unwrap_caught("drop", lib_catch(|| drop(h)));
}

fn c18() {
    swarm_env();
    let s = if maybe(1, 10) { Sites::default() } else { gen::sites(14) };
    let o = gen::sites(20);
    log_sites("sites", &s);
    log_sites("other sites", &o);
    typed!(ops(4), stale(&s, &o));
}

pub fn props() -> Vec<Prop> {
    let stub = "the clients and their scheduling, thread stacks, heap and hash entropy";
    vec![
        Prop {
            id: "C11", run: c11, quick: 70_000, thorough: 1_000_000,
            rule: "1-3 clients with 3-32 operations each (set, or, read, change by handle, copy now and write back later, abandon, exterior marking), interleaved at random over one generated diagram; 27-bit registers as reference model, the whole diagram compared after every step",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C12", run: c12, quick: 70_000, thorough: 1_000_000,
            rule: "1-8 traversals (cell boundaries, rotations in both directions, on the diagram and its conversion) in flight at the same time on a generated diagram, interleaved with annotation, exterior marking and late write backs, some abandoned; every item compared with the recorded rings",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C13", run: c13, quick: 40_000, thorough: 600_000,
            rule: "generated diagrams (up to 1600 sites), 1-3 markings with disjoint colours, repeated, interleaved with annotation in other bits, on threads with stacks down to 48 KiB; compared with the closure computed from the recording",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C18", run: c18, quick: 70_000, thorough: 1_000_000,
            rule: "histories in which ids of another, larger, cleared, dropped or converted diagram and arbitrary numbers are used with every query and every annotation; nothing may answer, change or panic, old handles keep their contents",
            real: REAL_LIB, stub,
        },
    ]
}
