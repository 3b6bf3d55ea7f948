//! C21, C23 - C25: what the diagrams mean

use super::build::{transport, Spec, CRASHED};
use super::*;
use crate::gen;
use crate::model;
use crate::plane;
use crate::typed;
use boostvoronoi::SyncDiagram;

fn rel<F: OutputType>() -> f64 {
    if std::mem::size_of::<F>() == 4 { 3e-7 } else { 1e-12 }
}
fn rel_of(types: u32) -> f64 {
    if types < 2 { 1e-12 } else { 3e-7 }
}

fn judge(what: &str, r: &Rec, s: &Sites, rel: f64) {
    let v = match model::attribution(s, r) {
        Ok(v) => v,
        Err(e) => fail!("attribution", "{what}: {e} ({s:?})"),
    };
    if let Err(e) = model::integrity(r) {
        fail!("structure", "{what}: {e} ({s:?})");
    }
    match plane::judge(r, &v, rel) {
        Ok(w) => ev!("{what}: worst {w:.3}"),
        Err(e) => fail!("geometry", "{what}: {e} ({s:?})"),
    }
}

// ---------------------------------------------------------------------------------------------
// C21

/// one diagram through all the stages of its life
fn life<I: Int, F: OutputType + serde::Serialize + serde::de::DeserializeOwned>(s: &Sites) {
    let d = must_build::<I, F>(s);
    judge("built", &Rec::of(&d), s, rel::<F>());
    if maybe(1, 3) {
        lib(|| d.color_exterior_edges(1 << 7));
        judge("marked", &Rec::of(&d), s, rel::<F>());
    }
    if maybe(1, 3) {
        let y: SyncDiagram<F> = lib(|| d.into());
        judge("converted", &Rec::of_sync(&y), s, rel::<F>());
        if maybe(1, 2) {
            let z: SyncDiagram<F> = lib(|| {
                let b = bincode::serialize(&y).ok()?;
                bincode::deserialize(&b).ok()
            })
            .unwrap_or_else(|| fail!("store", "a diagram can't be stored and loaded ({s:?})"));
            judge("stored", &Rec::of_sync(&z), s, rel::<F>());
        }
    }
}

fn c21() {
    swarm_env();
    match sch(4) {
        // one client after the other; the transport duplicates, reorders and reverses
        0 | 1 => {
            let s = if maybe(1, 40) { gen::large(60 + ops(200)) } else { gen::any(25) };
            log_sites("sites", &s);
            let types = ops(4);
            for k in 0..1 + ops(2) {
                let t = if k > 0 || flt_maybe(1, 2) { transport(&s) } else { s.clone() };
                log_sites("delivered", &t);
                typed!(types, life(&t));
            }
        }
        // clients at the same time, some of them crash or break the contract
        m => {
            let n = 2 + ops(2) as usize;
            let mut specs: Vec<Spec> = Vec::new();
            for i in 0..n {
                let mut s = Spec::draw(14);
                while s.rogue && super::build::alone(&s).is_none() {
                    s = Spec::draw(14);
                }
                if !s.rogue && flt_maybe(1, 6) {
                    s.crash = Some((flt((s.pb.len() + s.sb.len()) as u32) as usize, flt(6) as usize));
                    ev!("client {i} is going to crash at {:?}", s.crash);
                }
                specs.push(s);
            }
            let mut outs: Vec<Vec<u8>> = vec![Vec::new(); n];
            if m == 2 {
                ev!("interleaved on one thread");
                let mut tasks: Vec<_> = specs.iter().zip(outs.iter_mut()).map(|(s, o)| s.task(o, None)).collect();
                interleave(&mut tasks);
            } else {
                let gap = gap();
                ev!("threads, gap {gap}");
                let jobs = specs
                    .iter()
                    .zip(outs.iter_mut())
                    .map(|(s, o)| rt::sched::Job {
                        stack: 2 << 20,
                        f: Box::new(move || {
                            let mut t = s.task(o, None);
                            while t() {
                                yield_now();
                            }
                        }),
                    })
                    .collect();
                run_threads(gap, jobs);
            }
            for (i, (s, o)) in specs.iter().zip(&outs).enumerate() {
                if s.rogue || o == CRASHED {
                    continue;
                }
                for (k, r) in Rec::all(o).iter().enumerate() {
                    judge(&format!("client {i} stage {k}"), r, &s.sites, rel_of(s.types));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C25

/// what a stage takes: steps, and bytes of memory it asked for
#[derive(Clone, Copy, Debug, Default)]
struct Cost {
    steps: f64,
    bytes: f64,
}
const STAGES: [&str; 6] = ["reading", "building", "marking the exterior", "traversing all cells", "converting", "the bounding box"];

fn metered<R>(o: &mut Vec<Cost>, f: impl FnOnce() -> R) -> R {
    let (t, m) = (rt::steps(), rt::alloc::total());
    let r = unwrap_caught("metered", lib_catch(f));
    o.push(Cost { steps: (rt::steps() - t) as f64, bytes: (rt::alloc::total() - m) as f64 });
    r
}

/// the costs of all the stages, and the memory needed beyond what was in use before
fn costs<I: Int + 'static, F: OutputType>(s: &Sites) -> (Vec<Cost>, f64) {
    let mut o = Vec::new();
    let text = super::build::to_text(s);
    let (p, l) = match metered(&mut o, || boostvoronoi::read_boost_input_buffer::<I, _>(std::io::BufReader::new(text.as_bytes()))) {
        Ok(x) => x,
        Err(e) => fail!("error", "reading: {e:?}"),
    };
    let base = rt::alloc::live();
    rt::alloc::reset_peak();
    let d = metered(&mut o, || Builder::<I, F>::default().with_vertices(p.iter())?.with_segments(l.iter())?.build());
    let peak = rt::alloc::peak() as f64 - base as f64;
    let d = match d {
        Ok(d) => d,
        Err(e) => fail!("error", "valid input was refused: {e:?} ({s:?})"),
    };
    metered(&mut o, || d.color_exterior_edges(1));
    let edges = metered(&mut o, || d.cells().iter().map(|c| d.cell_edge_iterator(c.get().id()).count()).sum::<usize>());
    if edges != d.edges().len() {
        fail!("traversal", "the cells have {edges} edges, the diagram {} ({s:?})", d.edges().len());
    }
    let b = metered(&mut o, || d.vertices_get_aabb::<I>());
    let y: SyncDiagram<F> = metered(&mut o, || d.into());
    o.swap(4, 5);
    drop((b, y));
    (o, peak)
}

fn shuffle(o: &mut Sites, order: u32) {
    if order > 0 {
        rt::fault(F_REORDER);
    }
    match order {
        0 => {}
        1 => {
            o.p.reverse();
            o.s.reverse();
        }
        2 => {
            for k in (1..o.p.len()).rev() {
                o.p.swap(k, flt(k as u32 + 1) as usize);
            }
            for k in (1..o.s.len()).rev() {
                o.s.swap(k, flt(k as u32 + 1) as usize);
            }
        }
        _ => {
            // turned around
            for p in o.p.iter_mut() {
                *p = [p[1], -p[0]];
            }
            for p in o.s.iter_mut() {
                *p = [p[1], -p[0], p[3], -p[2]];
            }
        }
    }
}

/// (growth of the steps, steps per unit of work, growth of the bytes, bytes per site); the limits are
/// about three times what the stages need
const LIMITS: [(f64, f64, f64, f64); 6] = [
    (5.5, 1200.0, 6.0, 700.0),
    (7.5, 8000.0, 9.0, 9000.0),
    (5.5, 1500.0, 17.0, 400.0),
    (5.5, 400.0, 6.0, 500.0),
    (5.5, 500.0, 6.0, 3000.0),
    (5.8, 50.0, 6.0, 500.0),
];

fn c25() {
    rt::set_budget(20_000_000_000);
    swarm_env();
    let shape = ops(gen::SHAPES.len() as u32) as usize;
    let narrow = shape < gen::NARROW;
    let n = if narrow { 150 + ops(600) } else { 60 + ops(200) };
    let order = flt(4);
    let types = ops(4);
    ev!("{} of {n} and {} sites, order {order}, types {types}", gen::SHAPES[shape], 4 * n);
    let mut get = |n: u32| {
        if flt_maybe(1, 4) {
            // work that is abandoned half-way
            rt::fault(F_HISTORY);
            rt::fault(F_CANCEL);
            let o = gen::any(20);
            let p = pts::<i64>(&o);
            let b = lib(|| Builder::<i64, f64>::default().with_vertices(p.iter()));
            lib(|| drop(b));
            if maybe(1, 2) {
                let d = must_build::<i64, f64>(&o);
                lib(|| drop(d));
            }
        }
        let mut s = gen::shaped(shape, n);
        shuffle(&mut s, order);
        (s.p.len() as f64 + 3.0 * s.s.len() as f64, typed!(types, costs(&s)))
    };
    let (n1, (small, p1)) = get(n);
    let (n2, (big, p2)) = get(4 * n);
    let name = gen::SHAPES[shape];
    ev!("steps {:?}", big.iter().map(|c| c.steps as u64).collect::<Vec<_>>());
    if p2 > 9.0 * p1 + 100_000.0 || p2 > 6000.0 * n2 {
        fail!("memory", "building of {n2} sites ({name}) needs {p2} bytes at a time, of {n1} sites {p1}");
    }
    for k in [0, 2, 3, 4, 5, 1] {
        let (what, (g, m, gb, mb)) = (STAGES[k], LIMITS[k]);
        let (s, b) = (small[k], big[k]);
        if b.bytes > gb * s.bytes + 100_000.0 || b.bytes > mb * n2 + 1_000_000.0 {
            fail!("memory", "{what} of {n2} sites ({name}) asks for {} bytes in all, of {n1} sites {}", b.bytes, s.bytes);
        }
        let unit = if k == 1 { n2 * n2.log2() } else { n2 };
        if b.steps > g * s.steps + 20_000.0 || b.steps > m * unit {
            if k == 1 && !narrow && b.steps <= 20.0 * s.steps && b.steps <= m * unit + 300.0 * n2 * n2 {
                fail!("sequential-search", "{what} takes {} steps for {n2} sites with a wide beach line ({name}), {} for {n1}", b.steps, s.steps);
            }
            fail!("time", "{what} takes {} steps for {n2} sites ({name}), {} for {n1}", b.steps, s.steps);
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21", run: c21, quick: 40_000, thorough: 900_000, real: REAL_LIB, stub: "heap and hash entropy; the transport of the sites, the medium",
            rule: "generated sites (structured within +-1e6, random in all of the 32 bit range) that reach 1-3 clients through a transport that duplicates, reorders and reverses; one after the other, interleaved step by step or on preempted threads, next to clients that crash or break the contract; every recording of every stage (built, marked, converted, stored and loaded) is judged by an oracle that knows the sites only: equal distances, no closer site, foot on the segment, sites at the right side, unbounded edges lead out (exact)",
        },
        Prop {
            id: "C25", run: c25, quick: 2_000, thorough: 60_000, real: REAL_LIB, stub: "heap and hash entropy; time, which is the number of basic blocks executed",
            rule: "inputs of 18 shapes in two sizes (n and 4n, up to 3000 sites), delivered sorted, reversed, shuffled or turned, after abandoned work; for reading, building, marking, traversing, converting and the bounding box the growth of simulated time and memory and their absolute amount per site (n log n when building) are limited",
        },
    ]
}
