//! C14, C15: converted diagrams

use super::diagram::{color, input, MASK};
use super::*;
use crate::model::{self, cid, eid, vid, Rec};
use crate::typed;
use boostvoronoi::{Edge, SyncDiagram, Vertex};
use std::marker::PhantomData;

/// asks one question about the converted diagram and compares the answer with the recording
pub fn ask<F: OutputType>(y: &SyncDiagram<F>, r: &Rec) {
    let (nc, ne, nv) = (r.cells.len(), r.edges.len(), r.verts.len());
    let q = ops(13);
    let pick = |n: usize| ops(n as u32) as usize;
    let err = |what: &str, got: String, want: String| -> ! { fail!("query", "{what}: {got} instead of {want}") };
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let got = unwrap_caught("query", lib_catch(|| $got));
            let want = $want;
            if got != want {
                err($what, format!("{got:?}"), format!("{want:?}"));
            }
        }};
    }
    match q {
        0 => {
            let got = lib(|| (y.cells().len(), y.vertices().len(), y.edges().len()));
            if got != (nc, nv, ne) {
                err("sizes", format!("{got:?}"), format!("{:?}", (nc, nv, ne)));
            }
        }
        1 if nc > 0 => {
            let k = pick(nc);
            same!("cell", y.cell_get(cid(k)).map(model::CellR::of).ok(), Some(r.cells[k]));
        }
        2 if nv > 0 => {
            let k = pick(nv);
            same!("vertex", y.vertex_get(vid(k)).map(model::VertR::of).ok(), Some(r.verts[k]));
        }
        _ if ne == 0 => {}
        _ => {
            let k = pick(ne);
            let e = &r.edges[k];
            match q {
                3 => same!("edge", y.edge_get(eid(k)).map(model::EdgeR::of).ok(), Some(*e)),
                4 => same!("next", y.edge_get_next(eid(k)).ok().map(|x| x.0), e.next),
                5 => same!("prev", y.edge_get_prev(eid(k)).ok().map(|x| x.0), e.prev),
                6 => same!("twin", y.edge_get_twin(eid(k)).ok().map(|x| x.0), e.twin),
                7 => same!("vertex0", y.edge_get_vertex0(eid(k)).ok(), Some(e.v0.map(vid))),
                8 => same!("vertex1", y.edge_get_vertex1(eid(k)).ok(), Some(r.v1(k).map(vid))),
                9 => same!("finite", (y.edge_is_finite(eid(k)).ok(), y.edge_is_infinite(eid(k)).ok()), (Some(!r.infinite(k)), Some(r.infinite(k)))),
                10 => same!("rot next", y.edge_rot_next(eid(k)).ok().map(|x| x.0), r.rot_next(k)),
                11 => same!("rot prev", y.edge_rot_prev(eid(k)).ok().map(|x| x.0), r.rot_prev(k)),
                _ => same!("rotation", y.edge_rot_next_iterator(eid(k)).take(ne + 1).map(|x| x.0).collect::<Vec<_>>(), r.ring(k, |r, e| r.rot_next(e))),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C14

enum Copy_<F: OutputType> {
    E(usize, Edge),
    V(usize, Vertex<F>),
}

fn convert<I: Int, F: OutputType + 'static>(s: &Sites) {
    let d = must_build::<I, F>(s);
    let mut old = Rec::of(&d);
    let (ne, nv) = (old.edges.len(), old.verts.len());
    let (he, hv, hc): (Vec<_>, Vec<_>, Vec<_>) = (d.edges().to_vec(), d.vertices().to_vec(), d.cells().to_vec());
    let mut copies: Vec<Copy_<F>> = Vec::new();
    let handles = |what: &str, old: &Rec| {
        let now = Rec {
            edges: he.iter().map(|e| model::EdgeR::of(&e.get())).collect(),
            verts: hv.iter().map(|e| model::VertR::of(&e.get())).collect(),
            cells: hc.iter().map(|e| model::CellR::of(&e.get())).collect(),
        };
        if now != *old {
            fail!("handles", "{what}: {}", model::diff(&now, old));
        }
    };
    // what a holder of handles does
    let mut holder = |old: &mut Rec| {
        if ne == 0 {
            return;
        }
        let k = ops(ne as u32) as usize;
        let v = if nv > 0 { ops(nv as u32) as usize } else { 0 };
        let c = color();
        let a = ops(6);
        ev!("holder of handles: {a}, edge {k}, vertex {v}, colour {c:#x}");
        lib(|| match a {
            0 => {
                let mut e = he[k].get();
                e.set_color(c);
                he[k].set(e);
                old.edges[k].color = c & MASK;
            }
            1 if nv > 0 => {
                let mut e = hv[v].get();
                e.set_color(c);
                hv[v].set(e);
                old.verts[v].color = c & MASK;
            }
            2 => copies.push(Copy_::E(k, he[k].get())),
            3 if nv > 0 => copies.push(Copy_::V(v, hv[v].get())),
            _ => match copies.pop() {
                None => {}
                Some(Copy_::E(k, mut e)) => {
                    rt::fault(F_STALECOPY);
                    e.or_color(c);
                    old.edges[k].color = e.get_color();
                    he[k].set(e);
                }
                Some(Copy_::V(k, mut e)) => {
                    rt::fault(F_STALECOPY);
                    e.or_color(c);
                    old.verts[k].color = e.get_color();
                    hv[k].set(e);
                }
            },
        })
    };
    for _ in 0..ops(20) {
        match ops(5) {
            0..=2 => holder(&mut old),
            3 if ne > 0 => {
                let k = ops(ne as u32) as usize;
                let c = color();
                unwrap_caught("annotate", lib_catch(|| drop(d.edge_or_color(eid(k), c))));
                old.edges[k].color |= c & MASK;
            }
            _ => {
                unwrap_caught("marking", lib_catch(|| d.color_exterior_edges(color())));
                old = Rec::of(&d);
            }
        }
    }
    handles("before the conversion", &old);
    ev!("conversion");
    let mut new = old.clone();
    let mut y: SyncDiagram<F> = unwrap_caught("convert", lib_catch(|| d.into()));
    let now = Rec::of_sync(&y);
    if now != new {
        fail!("snapshot", "the conversion isn't faithful: {} ({s:?})", model::diff(&now, &new));
    }
    for _ in 0..ops(30) {
        match ops(6) {
            0 | 1 => holder(&mut old),
            2 if ne > 0 => {
                let k = ops(ne as u32) as usize;
                let c = color();
                ev!("owner of the conversion: edge {k} colour {c:#x}");
                let r = unwrap_caught("annotate", lib_catch(|| y.edge_get_mut(eid(k)).map(|e| e.set_color(c)).is_ok()));
                if !r {
                    fail!("query", "edge {k} is unknown");
                }
                new.edges[k].color = c & MASK;
            }
            3 if nv > 0 => {
                let k = ops(nv as u32) as usize;
                let c = color();
                ev!("owner of the conversion: vertex {k} colour {c:#x}");
                let r = unwrap_caught("annotate", lib_catch(|| y.vertex_get_mut(vid(k)).map(|e| e.or_color(c)).is_ok()));
                if !r {
                    fail!("query", "vertex {k} is unknown");
                }
                new.verts[k].color |= c & MASK;
            }
            4 => {
                // one more copy made of parts
                let z = unwrap_caught("parts", lib_catch(|| SyncDiagram::<F>::new(y.cells().clone(), y.vertices().clone(), y.edges().clone())));
                let now = Rec::of_sync(&z);
                if now != new {
                    fail!("snapshot", "a diagram made of the parts: {}", model::diff(&now, &new));
                }
                if maybe(1, 2) {
                    y = z;
                }
            }
            _ => ask(&y, &new),
        }
        let now = Rec::of_sync(&y);
        if now != new {
            fail!("snapshot", "the converted diagram isn't isolated: {} ({s:?})", model::diff(&now, &new));
        }
    }
    handles("after the conversion", &old);
    for _ in 0..ops(20) {
        ask(&y, &new);
    }
}

fn c14() {
    swarm_env();
    let s = input(16);
    log_sites("sites", &s);
    typed!(ops(4), convert(&s));
}

// ---------------------------------------------------------------------------------------------
// C15

struct W<T: ?Sized>(PhantomData<T>);
trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Fallback for W<T> {}
struct IsSend<T: ?Sized>(PhantomData<T>);
struct IsSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Fallback for IsSend<T> {}
impl<T: ?Sized> Fallback for IsSync<T> {}
impl<T: ?Sized + Send> IsSend<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> IsSync<T> {
    const SYNC: bool = true;
}
macro_rules! shareable {
    ($($t:ty),*) => {
        [$((stringify!($t), <IsSend<$t>>::SEND, <IsSync<$t>>::SYNC)),*]
    };
}

fn markers() {
    let list = shareable!(
        SyncDiagram<f64>,
        SyncDiagram<f32>,
        boostvoronoi::Cell,
        Vertex<f64>,
        Vertex<f32>,
        Edge,
        boostvoronoi::EdgeIndex,
        boostvoronoi::VertexIndex,
        boostvoronoi::CellIndex,
        boostvoronoi::SourceCategory,
        BvError,
        boostvoronoi::Point<i32>,
        boostvoronoi::Line<i64>
    );
    for (name, send, sync) in list {
        if !(send && sync) {
            fail!("markers", "{name} can't be shared by threads: Send {send} Sync {sync}");
        }
    }
}

/// (result of running f in a process of its own)
struct Carrier<T>(T);
unsafe impl<T> Send for Carrier<T> {}

fn share<I: Int, F: OutputType + serde::Serialize>(s: &Sites) {
    let d = must_build::<I, F>(s);
    if maybe(1, 2) {
        unwrap_caught("marking", lib_catch(|| d.color_exterior_edges(color())));
    }
    let mut m = Rec::of(&d);
    let mut y: SyncDiagram<F> = unwrap_caught("convert", lib_catch(|| d.into()));
    let epochs = 1 + ops(3);
    for epoch in 0..epochs {
        let gap = gap();
        let n = 2 + ops(4) as usize;
        ev!("epoch {epoch}: {n} readers, gap {gap}");
        rt::set_budget(DEFAULT_BUDGET);
        let text = lib(|| serde_json::to_vec(&y)).unwrap_or_default();
        {
            let (y, m, text) = (&y, &m, &text);
            let jobs = (0..n)
                .map(|me| Job {
                    stack: if flt_maybe(1, 4) {
                        rt::fault(F_STACK);
                        128 << 10
                    } else {
                        2 << 20
                    },
                    f: Box::new(move || {
                        let mut walk: Option<(Box<dyn Iterator<Item = boostvoronoi::EdgeIndex>>, Vec<usize>, usize)> = None;
                        for _ in 0..1 + ops(12) {
                            match ops(8) {
                                0 if !m.edges.is_empty() => {
                                    // a traversal that is left waiting between its steps
                                    let k = ops(m.edges.len() as u32) as usize;
                                    let want = m.ring(k, |r, e| r.rot_next(e));
                                    walk = Some((Box::new(lib(|| y.edge_rot_next_iterator(eid(k)))), want, 0));
                                }
                                1 => {
                                    let now = lib(|| serde_json::to_vec(y)).unwrap_or_default();
                                    if now != *text {
                                        fail!("readers", "reader {me} stores another diagram than the owner");
                                    }
                                }
                                2 => {
                                    let now = Rec::of_sync(y);
                                    if now != *m {
                                        fail!("readers", "reader {me} sees: {}", model::diff(&now, m));
                                    }
                                }
                                _ => ask(y, m),
                            }
                            if let Some((it, want, pos)) = &mut walk {
                                let got = unwrap_caught("traversal", lib_catch(|| it.next())).map(|e| e.0);
                                if got != want.get(*pos).copied() {
                                    fail!("readers", "traversal of reader {me}: step {pos} gives {got:?}, expected {want:?}");
                                }
                                *pos += 1;
                            }
                            yield_now();
                        }
                    }),
                })
                .collect();
            run_threads(gap, jobs);
        }
        let now = Rec::of_sync(&y);
        if now != m {
            fail!("readers", "reading changed the diagram: {}", model::diff(&now, &m));
        }
        // the owner changes it between two epochs, maybe on another thread
        if epoch + 1 < epochs && !m.edges.is_empty() {
            let k = ops(m.edges.len() as u32) as usize;
            let c = color();
            m.edges[k].color = c & MASK;
            let mut cargo = Some(Carrier(y));
            let mut back = None;
            {
                let (cargo, back) = (&mut cargo, &mut back);
                rt::fault(F_THREAD);
                run_threads(
                    0,
                    vec![Job {
                        stack: 1 << 20,
                        f: Box::new(move || {
                            let mut y = cargo.take().unwrap().0;
                            lib(|| drop(y.edge_get_mut(eid(k)).map(|e| e.set_color(c))));
                            *back = Some(Carrier(y));
                        }),
                    }],
                );
            }
            y = back.unwrap().0;
        }
    }
    // it goes on another thread than it came
    let mut cargo = Some(Carrier(y));
    {
        let cargo = &mut cargo;
        run_threads(0, vec![Job { stack: 1 << 20, f: Box::new(move || lib(|| drop(cargo.take()))) }]);
    }
}

fn c15() {
    markers();
    swarm_env();
    let s = if maybe(1, 60) { gen::large(60 + ops(100)) } else { gen::sites(14) };
    log_sites("sites", &s);
    typed!(ops(4), share(&s));
}
use crate::gen;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14", run: c14, quick: 70_000, thorough: 1_000_000,
            rule: "a generated diagram with holders of handles and of stale copies, converted after 0-19 annotations; then the holders and the owner of the conversion keep changing their sides in a random interleaving; both sides are compared with their models after every step, every query with the recording",
            real: REAL_LIB, stub: "the clients and their interleaving, heap and hash entropy",
        },
        Prop {
            id: "C15", run: c15, quick: 36_000, thorough: 500_000,
            rule: "2-5 reader threads with 1-12 queries, traversals and stores each on one shared converted diagram, preempted between any two instrumented steps, 1-3 epochs with changes by the owner in between, moved between threads; every answer compared with the recording; Send and Sync of the types",
            real: REAL_LIB, stub: "thread scheduling and futexes, stack sizes, heap and hash entropy",
        },
    ]
}
