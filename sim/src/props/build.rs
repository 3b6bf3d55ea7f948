//! C06 - C10, C19: building diagrams

use super::*;
use crate::gen;
use crate::io::{Plan, Source};
use crate::model::{self, Rec};
use crate::typed;
use boostvoronoi::{Line, Point, SyncDiagram};
use std::io::BufReader;

// ---------------------------------------------------------------------------------------------
// delivering sites

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hint {
    Exact,
    None,
    Wide,
    Low,
}
/// an iterator under the control of the simulation
pub struct Feed<'a, T> {
    pub items: &'a [T],
    pub pos: usize,
    pub hint: Hint,
    /// panics when this item is asked for
    pub crash_at: Option<usize>,
    /// delivers this many (further) items when it is asked again after its end
    pub unfused: bool,
    pub ended: u32,
    pub hook: Option<&'a mut dyn FnMut(usize)>,
    pub pulled: &'a std::cell::Cell<usize>,
}
impl<T: Copy> Iterator for Feed<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        host(|| {
            yield_now();
            if self.crash_at == Some(self.pos) {
                rt::fault(F_CRASH);
                ev!("client crashes at item {}", self.pos);
                std::panic::panic_any(rt::Crash);
            }
            if let Some(h) = &mut self.hook {
                h(self.pos);
            }
            if self.pos < self.items.len() {
                self.pos += 1;
                self.pulled.set(self.pulled.get() + 1);
                Some(self.items[self.pos - 1])
            } else if self.unfused && self.ended > 0 && self.ended < 4 && !self.items.is_empty() {
                self.ended += 1;
                rt::fault(F_UNFUSED);
                Some(self.items[0])
            } else {
                self.ended += 1;
                None
            }
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len() - self.pos;
        match self.hint {
            Hint::Exact => (n, Some(n)),
            Hint::None => (0, None),
            Hint::Wide => (0, Some(usize::MAX)),
            Hint::Low => (n / 2, Some(n + 7)),
        }
    }
}
pub fn draw_hint() -> Hint {
    let h = [Hint::Exact, Hint::None, Hint::Wide, Hint::Low][flt(4) as usize];
    if h != Hint::Exact {
        rt::fault(F_HINT);
    }
    h
}

/// cuts 0..n into consecutive pieces, some of them empty
pub fn pieces(n: usize) -> Vec<(usize, usize)> {
    let k = 1 + ops(4) as usize;
    let mut cuts: Vec<usize> = (1..k).map(|_| ops(n as u32 + 1) as usize).collect();
    cuts.push(0);
    cuts.push(n);
    cuts.sort_unstable();
    cuts.windows(2).map(|w| (w[0], w[1])).collect()
}

/// a client of the library: what it does, step by step
pub struct Spec {
    pub sites: Sites,
    pub types: u32,
    pub pb: Vec<(usize, usize)>,
    pub sb: Vec<(usize, usize)>,
    /// (batch number, item)
    pub crash: Option<(usize, usize)>,
    pub exterior: Option<u32>,
    pub sync: bool,
    /// input by way of the text format
    pub text: bool,
    /// the input breaks the contract: the build may fail or panic
    pub rogue: bool,
}
impl Spec {
    pub fn draw(max: u32) -> Spec {
        let rogue = maybe(1, 8);
        let mut sites = if rogue { gen::crossing() } else { gen::any(max) };
        if !rogue && maybe(1, 40) {
            sites = gen::large(60 + ops(200));
        }
        let pb = pieces(sites.p.len());
        let sb = pieces(sites.s.len());
        let s = Spec {
            sites,
            types: ops(4),
            pb,
            sb,
            crash: None,
            exterior: if maybe(1, 2) { Some(1 << ops(27)) } else { None },
            sync: maybe(1, 2),
            text: maybe(1, 4),
            rogue,
        };
        log_sites(if rogue { "client with crossing segments" } else { "client" }, &s.sites);
        ev!("  types {} batches {:?} {:?} exterior {:?} sync {} text {}", s.types, s.pb, s.sb, s.exterior, s.sync, s.text);
        s
    }
    pub fn task<'a>(&'a self, out: &'a mut Vec<u8>, hook: Option<&'a mut dyn FnMut(usize)>) -> Box<dyn FnMut() -> bool + 'a> {
        fn f<'a, I: Int + 'static, F: OutputType + 'static>(s: &'a Spec, out: &'a mut Vec<u8>, hook: Option<&'a mut dyn FnMut(usize)>) -> Box<dyn FnMut() -> bool + 'a> {
            Box::new(task::<I, F>(s, out, hook))
        }
        typed!(self.types, f(self, out, hook))
    }
}

pub fn to_text(s: &Sites) -> String {
    use std::fmt::Write;
    let mut t = String::new();
    let _ = writeln!(t, "{}", s.p.len());
    for p in &s.p {
        let _ = writeln!(t, "{} {}", p[0], p[1]);
    }
    let _ = writeln!(t, "{}", s.s.len());
    for p in &s.s {
        let _ = writeln!(t, "{} {} {} {}", p[0], p[1], p[2], p[3]);
    }
    t
}

pub const CRASHED: &[u8] = b"crashed";

fn task<'a, I: Int + 'static, F: OutputType + 'static>(
    s: &'a Spec,
    out: &'a mut Vec<u8>,
    mut hook: Option<&'a mut dyn FnMut(usize)>,
) -> impl FnMut() -> bool + 'a {
    let mut stage = 0;
    let mut builder: Option<Builder<I, F>> = None;
    let mut dia: Option<Diagram<F>> = None;
    let (mut p, mut l) = (pts::<I>(&s.sites), segs::<I>(&s.sites));
    let np = s.pb.len();
    let ns = s.sb.len();
    move || {
        let now = stage;
        stage += 1;
        let pulled = std::cell::Cell::new(0);
        let r = lib_catch(|| -> Result<bool, BvError> {
            if now == 0 {
                builder = Some(Builder::default());
                if s.text {
                    let t = host(|| to_text(&s.sites));
                    let (a, b) = boostvoronoi::read_boost_input_buffer::<I, _>(BufReader::new(t.as_bytes()))?;
                    host(|| {
                        p = a.iter().map(|q| [q.x, q.y]).collect();
                        l = b.iter().map(|q| [q.start.x, q.start.y, q.end.x, q.end.y]).collect();
                        drop(t);
                    });
                }
            } else if now <= np {
                let (a, b) = s.pb[now - 1];
                let crash_at = s.crash.and_then(|(k, i)| (k == now - 1).then_some(i.min(b - a)));
                let f = Feed { items: &p[a..b], pos: 0, hint: Hint::Exact, crash_at, unfused: false, ended: 0, hook: hook.as_mut().map(|h| &mut **h as _), pulled: &pulled };
                builder = Some(builder.take().unwrap().with_vertices(f)?);
            } else if now <= np + ns {
                let (a, b) = s.sb[now - np - 1];
                let crash_at = s.crash.and_then(|(k, i)| (k == now - 1).then_some(i.min(b - a)));
                let f = Feed { items: &l[a..b], pos: 0, hint: Hint::Exact, crash_at, unfused: false, ended: 0, hook: hook.as_mut().map(|h| &mut **h as _), pulled: &pulled };
                builder = Some(builder.take().unwrap().with_segments(f)?);
            } else if now == np + ns + 1 {
                dia = Some(builder.take().unwrap().build()?);
                host(|| out.extend(Rec::of(dia.as_ref().unwrap()).bytes()));
            } else if now == np + ns + 2 {
                if let Some(c) = s.exterior {
                    dia.as_ref().unwrap().color_exterior_edges(c);
                    host(|| out.extend(Rec::of(dia.as_ref().unwrap()).bytes()));
                }
            } else {
                let d = dia.take().unwrap();
                if s.sync {
                    let d: SyncDiagram<F> = d.into();
                    host(|| out.extend(Rec::of_sync(&d).bytes()));
                }
                return Ok(false);
            }
            Ok(true)
        });
        match r {
            Caught::Done(Ok(more)) => more,
            Caught::Done(Err(_)) | Caught::Panicked(_) if s.rogue => {
                rt::fault(F_ROGUE);
                out.clear();
                match r {
                    Caught::Done(r) => out.extend(format!("stage {now}: {r:?}").bytes()),
                    Caught::Panicked(m) => out.extend(format!("stage {now}: {m}").bytes()),
                    _ => {}
                }
                lib(|| {
                    builder = None;
                    dia = None;
                });
                false
            }
            Caught::Done(Err(e)) => fail!("error", "stage {now}: {e:?} ({:?})", s.sites),
            Caught::Crashed if s.crash.is_some() => {
                ev!("crashed in stage {now}");
                out.clear();
                out.extend_from_slice(CRASHED);
                lib(|| {
                    builder = None;
                    dia = None;
                });
                false
            }
            Caught::Crashed => fail!("panic", "the crash of another client came out in stage {now}"),
            Caught::Panicked(m) => fail!("panic", "stage {now}: {m} ({:?})", s.sites),
        }
    }
}

/// for builds that may never come to an end, as their input breaks the contract
pub const ROGUE_BUDGET: u64 = 10_000_000;

/// runs the client alone in a fresh process; the result and the number of steps
pub fn alone(s: &Spec) -> Option<(Vec<u8>, u64)> {
    let r = pristine(|| {
        if s.rogue {
            rt::set_budget(ROGUE_BUDGET);
        }
        let mut out = Vec::new();
        let mut t = s.task(&mut out, None);
        while t() {}
        drop(t);
        out.extend_from_slice(&rt::steps().to_le_bytes());
        out
    });
    match r {
        Ok(mut v) => {
            let n = v.split_off(v.len() - 8);
            Some((v, u64::from_le_bytes(n.try_into().unwrap())))
        }
        Err(_) if s.rogue => None,
        Err(e) => fail!("solo", "a client alone in a fresh process ends with: {e} ({:?})", s.sites),
    }
}

fn show(b: &[u8]) -> String {
    if b.starts_with(b"stage") {
        String::from_utf8_lossy(b).into_owned()
    } else {
        format!("a diagram ({} bytes)", b.len())
    }
}

fn compare(i: usize, got: &[u8], want: &[u8], s: &Spec) {
    if got != want {
        if s.rogue {
            fail!("isolation", "client {i} got another outcome than alone: {} instead of {} ({:?})", show(got), show(want), s.sites);
        }
        let (g, w) = if got.len() >= 24 && want.len() >= 24 && got != CRASHED { (Rec::from_bytes(got), Rec::from_bytes(want)) } else { Default::default() };
        fail!("isolation", "client {i} got another result than alone ({} bytes, alone {}): {} ({:?})", got.len(), want.len(), model::diff(&g, &w), s.sites);
    }
}

// ---------------------------------------------------------------------------------------------
// C06

fn c06() {
    swarm_env();
    let mode = sch(4);
    let n = 2 + ops(if mode == 0 { 3 } else { 2 }) as usize;
    let mut specs: Vec<Spec> = Vec::new();
    for i in 0..n {
        let mut s = if i > 0 && maybe(1, 4) {
            // several clients work on the same input
            let o = &specs[0];
            Spec { sites: o.sites.clone(), types: o.types, pb: o.pb.clone(), sb: o.sb.clone(), crash: None, exterior: o.exterior, sync: o.sync, text: o.text, rogue: o.rogue }
        } else {
            Spec::draw(14)
        };
        if s.crash.is_none() && flt_maybe(1, 5) {
            let batches = s.pb.len() + s.sb.len();
            s.crash = Some((flt(batches as u32) as usize, flt(6) as usize));
            ev!("client {i} is going to crash at {:?}", s.crash);
        }
        specs.push(s);
    }
    let mut want = Vec::new();
    let mut total = 0;
    for s in &mut specs {
        let (w, k) = match alone(s) {
            Some(x) => x,
            None => {
                ev!("given up: no end in sight");
                *s = Spec { sites: Sites::default(), types: s.types, pb: vec![(0, 0)], sb: vec![(0, 0)], crash: None, exterior: None, sync: false, text: false, rogue: false };
                alone(s).unwrap()
            }
        };
        total += k;
        want.push(w);
    }
    let mut outs: Vec<Vec<u8>> = vec![Vec::new(); n];
    rt::set_budget(20 * total + 5_000_000);
    match mode {
        // one thread, one step of one client after the other
        0 => {
            ev!("interleaved on one thread");
            let mut tasks: Vec<_> = specs.iter().zip(outs.iter_mut()).map(|(s, o)| s.task(o, None)).collect();
            interleave(&mut tasks);
        }
        // a client works from the callbacks of another one
        1 => {
            ev!("reentrant");
            let (first, rest) = outs.split_at_mut(1);
            let mut inner: Vec<_> = specs[1..].iter().zip(rest.iter_mut()).map(|(s, o)| Some(s.task(o, None))).collect();
            {
                let mut hook = |_item: usize| {
                    let k = sch(inner.len() as u32 * 2) as usize;
                    if k < inner.len() {
                        let steps = 1 + sch(6);
                        for _ in 0..steps {
                            if let Some(t) = &mut inner[k] {
                                rt::fault(F_REENTRANT);
                                if !t() {
                                    inner[k] = None;
                                }
                            }
                        }
                    }
                };
                let mut t = specs[0].task(&mut first[0], Some(&mut hook));
                while t() {}
            }
            for t in inner.iter_mut().flatten() {
                while t() {}
            }
        }
        // threads
        _ => {
            let gap = gap();
            ev!("threads, gap {gap}");
            let jobs = specs
                .iter()
                .zip(outs.iter_mut())
                .map(|(s, o)| Job {
                    stack: 2 << 20,
                    f: Box::new(move || {
                        let mut t = s.task(o, None);
                        while t() {
                            yield_now();
                        }
                    }),
                })
                .collect();
            run_threads(gap, jobs);
        }
    }
    rt::set_budget(DEFAULT_BUDGET);
    for i in 0..n {
        ev!("client {i}: {:016x}", rt::fnv(0, &outs[i]));
        compare(i, &outs[i], &want[i], &specs[i]);
    }
}

// ---------------------------------------------------------------------------------------------
// C07

/// everything a user can observe of one computation
fn observe<I: Int, F: OutputType + serde::Serialize>(s: &Sites) -> Vec<u8> {
    let mut o = Vec::new();
    let d = match lib(|| build::<I, F>(s)) {
        Ok(d) => d,
        Err(e) => fail!("error", "valid input was refused: {e:?} ({s:?})"),
    };
    o.extend(Rec::of(&d).bytes());
    let text = lib(|| format!("{d:?}{:?}", d.vertices_get_aabb::<I>()));
    o.extend_from_slice(text.as_bytes());
    lib(|| d.color_exterior_edges(5));
    o.extend(Rec::of(&d).bytes());
    for c in d.cells() {
        for e in lib(|| d.cell_edge_iterator(c.get().id()).take(10_000).collect::<Vec<_>>()) {
            o.extend_from_slice(&(e.0 as u32).to_le_bytes());
        }
    }
    let s: SyncDiagram<F> = lib(|| d.into());
    o.extend(lib(|| serde_json::to_vec(&s)).unwrap_or_default());
    let text = lib(|| format!("{s:?}"));
    o.extend_from_slice(text.as_bytes());
    o
}

/// what becomes of input that breaks the contract
fn attempt<I: Int, F: OutputType>(s: &Sites) -> Vec<u8> {
    match lib_catch(|| build::<I, F>(s)) {
        Caught::Done(Ok(d)) => Rec::of(&d).bytes(),
        Caught::Done(Err(e)) => format!("stage: {e:?}").into_bytes(),
        Caught::Panicked(m) => format!("stage: {m}").into_bytes(),
        Caught::Crashed => fail!("panic", "unexpected crash"),
    }
}

fn c07() {
    let types = ops(4);
    let s = if maybe(1, 30) { gen::large(60 + ops(300)) } else { gen::any(25) };
    log_sites("input", &s);
    let want = match pristine(|| typed!(types, observe(&s))) {
        Ok(w) => w,
        Err(e) => fail!("solo", "a computation in a fresh process ends with: {e} ({s:?})"),
    };
    let rounds = 1 + ops(3);
    for round in 0..rounds {
        swarm_env();
        // history
        for _ in 0..flt(4) {
            rt::fault(F_HISTORY);
            match flt(5) {
                0 => {
                    let o = gen::sites(20);
                    log_sites("before", &o);
                    let _ = typed!(ops(4), observe(&o));
                }
                1 => {
                    // an abandoned builder
                    let o = gen::sites(10);
                    let p = pts::<i32>(&o);
                    let l = segs::<i32>(&o);
                    rt::fault(F_CANCEL);
                    unwrap_caught("history", lib_catch(|| drop(Builder::<i32, f64>::default().with_vertices(p.iter()).and_then(|b| b.with_segments(l.iter())))));
                }
                2 => {
                    // input that breaks the contract, whatever comes of it
                    ev!("crossing segments");
                    let o = gen::crossing();
                    log_sites("crossing", &o);
                    let t = ops(4);
                    if let Ok(w) = pristine(|| {
                        rt::set_budget(ROGUE_BUDGET);
                        typed!(t, attempt(&o))
                    }) {
                        rt::fault(F_ROGUE);
                        let g = typed!(t, attempt(&o));
                        if g != w {
                            fail!("environment", "round {round}: contract-breaking input: {} instead of {} ({o:?})", show(&g), show(&w));
                        }
                    }
                }
                3 => {
                    let t = "3\n1 2\n3 x\n";
                    let _ = lib_catch(|| boostvoronoi::read_boost_input_buffer::<i32, _>(BufReader::new(t.as_bytes())).is_ok());
                }
                _ => {
                    rt::fault(F_CLOCK);
                    rt::clock_jump(flt(1 << 30) as u64 * [1, 1_000, 1_000_000_000][flt(3) as usize]);
                }
            }
        }
        let got = if sch(2) == 0 {
            typed!(types, observe(&s))
        } else {
            // on a thread of its own, next to another one that keeps the library busy
            rt::fault(F_THREAD);
            let stack = [2 << 20, 512 << 10, 256 << 10][flt(3) as usize];
            if stack < 2 << 20 {
                rt::fault(F_STACK);
            }
            let mut got = Vec::new();
            let o = gen::sites(15);
            let g = gap();
            {
                let (s, got, o) = (&s, &mut got, &o);
                run_threads(
                    g,
                    vec![
                        Job { stack, f: Box::new(move || *got = typed!(types, observe(s))) },
                        Job { stack: 2 << 20, f: Box::new(move || drop(observe::<i32, f64>(o))) },
                    ],
                );
            }
            got
        };
        ev!("round {round}: {:016x}", rt::fnv(0, &got));
        if got != want {
            let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            let r = (Rec::from_bytes(&got), Rec::from_bytes(&want));
            fail!("environment", "round {round}: the result depends on the environment or the history (first difference at byte {at} of {}/{}: {}) for {s:?}", got.len(), want.len(), model::diff(&r.0, &r.1));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C08

#[derive(Clone, Copy)]
struct MyPoint<'a, I>([I; 2], &'a std::cell::Cell<usize>);
impl<I: Int> From<MyPoint<'_, I>> for Point<I> {
    fn from(p: MyPoint<'_, I>) -> Point<I> {
        host(|| p.1.set(p.1.get() + 1));
        Point { x: p.0[0], y: p.0[1] }
    }
}
#[derive(Clone, Copy)]
struct MyLine<'a, I>([I; 4], &'a std::cell::Cell<usize>);
impl<I: Int> From<MyLine<'_, I>> for Line<I> {
    fn from(p: MyLine<'_, I>) -> Line<I> {
        host(|| p.1.set(p.1.get() + 1));
        Line { start: Point { x: p.0[0], y: p.0[1] }, end: Point { x: p.0[2], y: p.0[3] } }
    }
}

fn deliver<I: Int, F: OutputType>(s: &Sites) {
    let (p, l) = (pts::<I>(s), segs::<I>(s));
    let (pb, sb) = (pieces(p.len()), pieces(l.len()));
    let mut b = unwrap_caught("new", lib_catch(Builder::<I, F>::default));
    let conv = std::cell::Cell::new(0);
    let mut total = 0;
    macro_rules! give {
        ($method:ident, $items:expr) => {{
            let items = $items;
            let pulled = std::cell::Cell::new(0);
            let hint = draw_hint();
            let unfused = flt_maybe(1, 2);
            let wait = if flt_maybe(1, 3) { 1_000_000 * flt(1000) as u64 } else { 0 };
            let mut delay = |_: usize| rt::advance(wait);
            let f = Feed { items: &items[..], pos: 0, hint, crash_at: None, unfused, ended: 0, hook: Some(&mut delay), pulled: &pulled };
            ev!("{} of {} items, hint {hint:?} unfused {unfused}", stringify!($method), items.len());
            match unwrap_caught(stringify!($method), lib_catch(|| b.$method(f))) {
                Ok(x) => b = x,
                Err(e) => fail!("error", "{} refuses a batch: {e:?}", stringify!($method)),
            }
            if pulled.get() != items.len() {
                fail!("pulls", "{} took {} of the {} items of a batch", stringify!($method), pulled.get(), items.len());
            }
            total += items.len();
        }};
    }
    for (x, y) in pb {
        let q = &p[x..y];
        match ops(6) {
            0 => give!(with_vertices, q.iter().collect::<Vec<&[I; 2]>>()),
            1 => give!(with_vertices, q.to_vec()),
            2 => give!(with_vertices, q.iter().map(|q| Point { x: q[0], y: q[1] }).collect::<Vec<_>>()),
            3 => {
                let v: Vec<Point<I>> = q.iter().map(|q| Point { x: q[0], y: q[1] }).collect();
                give!(with_vertices, v.iter().collect::<Vec<&Point<I>>>())
            }
            4 => give!(with_vertices, q.iter().map(|q| MyPoint(*q, &conv)).collect::<Vec<_>>()),
            _ => {
                // a plain collection
                match unwrap_caught("with_vertices", lib_catch(|| b.with_vertices(host(|| q.to_vec())))) {
                    Ok(x) => b = x,
                    Err(e) => fail!("error", "with_vertices refuses a batch: {e:?}"),
                }
                total += q.len();
            }
        }
    }
    for (x, y) in sb {
        let q = &l[x..y];
        let line = |q: &[I; 4]| Line { start: Point { x: q[0], y: q[1] }, end: Point { x: q[2], y: q[3] } };
        match ops(8) {
            0 => give!(with_segments, q.iter().collect::<Vec<&[I; 4]>>()),
            1 => give!(with_segments, q.to_vec()),
            2 => give!(with_segments, q.iter().map(line).collect::<Vec<_>>()),
            3 => {
                let v: Vec<Line<I>> = q.iter().map(line).collect();
                give!(with_segments, v.iter().collect::<Vec<&Line<I>>>())
            }
            4 => give!(with_segments, q.iter().map(|q| [[q[0], q[1]], [q[2], q[3]]]).collect::<Vec<_>>()),
            5 => give!(with_segments, q.iter().map(|q| [Point { x: q[0], y: q[1] }, Point { x: q[2], y: q[3] }]).collect::<Vec<_>>()),
            6 => {
                let v: Vec<[Point<I>; 2]> = q.iter().map(|q| [Point { x: q[0], y: q[1] }, Point { x: q[2], y: q[3] }]).collect();
                give!(with_segments, v.iter().collect::<Vec<&[Point<I>; 2]>>())
            }
            _ => give!(with_segments, q.iter().map(|q| MyLine(*q, &conv)).collect::<Vec<_>>()),
        }
    }
    if total != s.len() {
        rt::harness_error("lost a site");
    }
    if flt_maybe(1, 4) {
        // vertices that arrive late are refused
        rt::fault(F_REORDER);
        let late: Vec<[I; 2]> = p.iter().copied().take(ops(3) as usize).collect();
        ev!("{} late vertices", late.len());
        match unwrap_caught("late", lib_catch(|| b.with_vertices(late.iter()))) {
            Err(BvError::VerticesGoesFirst(_)) => rt::probe(P_REJECTED),
            Err(e) => fail!("protocol", "vertices after segments: {e:?}"),
            Ok(_) => fail!("protocol", "vertices were accepted after segments"),
        }
        return;
    }
    let d = match unwrap_caught("build", lib_catch(|| b.build())) {
        Ok(d) => d,
        Err(e) => fail!("error", "valid input was refused: {e:?} ({s:?})"),
    };
    let got = Rec::of(&d);
    let want = Rec::of(&must_build::<I, F>(s));
    if got != want {
        fail!("delivery", "the result depends on how the sites are delivered: {} ({s:?})", model::diff(&got, &want));
    }
}

fn c08() {
    swarm_env();
    for _ in 0..1 + ops(3) {
        let s = if maybe(1, 40) { gen::large(60 + ops(200)) } else { gen::any(20) };
        log_sites("input", &s);
        typed!(ops(4), deliver(&s));
    }
}

// ---------------------------------------------------------------------------------------------
// C09

/// an at-least-once, reordering transport
pub fn transport(s: &Sites) -> Sites {
    let mut o = s.clone();
    let mut dup = false;
    if flt_maybe(2, 3) {
        for _ in 0..flt(6) {
            if !o.p.is_empty() {
                dup = true;
                let k = flt(o.p.len() as u32) as usize;
                let at = flt(o.p.len() as u32 + 1) as usize;
                let v = o.p[k];
                o.p.insert(at, v);
            }
            if !o.s.is_empty() {
                dup = true;
                let k = flt(o.s.len() as u32) as usize;
                let at = flt(o.s.len() as u32 + 1) as usize;
                let v = o.s[k];
                o.s.insert(at, v);
            }
        }
    }
    if dup {
        rt::fault(F_DUP);
        rt::probe(P_DUPSITE);
    }
    if flt_maybe(3, 4) {
        rt::fault(F_REORDER);
        for k in (1..o.p.len()).rev() {
            o.p.swap(k, flt(k as u32 + 1) as usize);
        }
        for k in (1..o.s.len()).rev() {
            o.s.swap(k, flt(k as u32 + 1) as usize);
        }
    }
    if flt_maybe(1, 2) {
        for t in o.s.iter_mut() {
            if flt_maybe(1, 2) {
                *t = [t[2], t[3], t[0], t[1]];
            }
        }
    }
    if flt_maybe(1, 3) {
        // end points and points, contributed a second time by other means
        for k in 0..flt(4) as usize {
            if !o.s.is_empty() {
                let t = o.s[flt(o.s.len() as u32) as usize];
                let q = if k & 1 == 0 { [t[0], t[1]] } else { [t[2], t[3]] };
                if flt_maybe(1, 2) {
                    o.p.push(q);
                } else {
                    o.s.push([q[0], q[1], q[0], q[1]]);
                }
            } else if !o.p.is_empty() {
                let q = o.p[flt(o.p.len() as u32) as usize];
                o.s.push([q[0], q[1], q[0], q[1]]);
            }
        }
    }
    o
}

fn c09() {
    fn f<I: Int, F: OutputType>(s: &Sites) -> Rec {
        Rec::of(&must_build::<I, F>(s))
    }
    swarm_env();
    let s = if maybe(1, 40) { gen::large(60 + ops(200)) } else { gen::any(25) };
    log_sites("sites", &s);
    let types = ops(4);
    let first = typed!(types, f(&s));
    check_sites(&s, &first);
    for _ in 0..1 + ops(4) {
        let t = transport(&s);
        log_sites("delivered", &t);
        let r = typed!(types, f(&t));
        check_sites(&t, &r);
        if r.geometry() != first.geometry() {
            fail!("order", "order or multiplicity of the sites changes the diagram: {} ({s:?} as {t:?})", model::diff(&r.geometry(), &first.geometry()));
        }
    }
}

fn check_sites(s: &Sites, r: &Rec) {
    model::note(r);
    match model::attribution(s, r) {
        Ok(v) => {
            if let Err(e) = model::classification(&v, r) {
                fail!("classification", "{e} ({s:?})");
            }
        }
        Err(e) => fail!("attribution", "{e} ({s:?})"),
    }
}

// ---------------------------------------------------------------------------------------------
// C10

fn verify(what: &str, s: &Sites, r: &Rec) {
    if let Err(e) = model::integrity(r) {
        fail!("integrity", "{what}: {e} ({s:?})");
    }
    match model::attribution(s, r) {
        Ok(v) => {
            if let Err(e) = model::classification(&v, r) {
                fail!("classification", "{what}: {e} ({s:?})");
            }
        }
        Err(e) => fail!("attribution", "{what}: {e} ({s:?})"),
    }
}

fn stages<I: Int, F: OutputType + serde::Serialize + serde::de::DeserializeOwned>(s: &Sites) {
    let d = must_build::<I, F>(s);
    let r = Rec::of(&d);
    model::note(&r);
    verify("after the build", s, &r);
    for _ in 0..ops(5) {
        match ops(5) {
            0 => unwrap_caught("color", lib_catch(|| d.color_exterior_edges(1 << ops(27)))),
            1 => {
                for _ in 0..ops(10) {
                    if r.edges.is_empty() {
                        break;
                    }
                    let e = model::eid(ops(r.edges.len() as u32) as usize);
                    let c = ops(u32::MAX);
                    let _ = unwrap_caught("color", lib_catch(|| if c & 1 == 0 { d.edge_set_color(e, c) } else { d.edge_or_color(e, c) }));
                }
            }
            2 => {
                for _ in 0..ops(10) {
                    if r.verts.is_empty() {
                        break;
                    }
                    let v = model::vid(ops(r.verts.len() as u32) as usize);
                    let c = ops(u32::MAX);
                    unwrap_caught("color", lib_catch(|| if c & 1 == 0 { drop(d.vertex_set_color(v, c)) } else { d.vertex_or_color(v, c) }));
                }
            }
            3 => {
                unwrap_caught(
                    "traverse",
                    lib_catch(|| {
                        for c in d.cells() {
                            d.cell_edge_iterator(c.get().id()).take(r.edges.len() + 1).for_each(drop);
                        }
                        let _ = d.vertices_get_aabb::<I>();
                    }),
                );
            }
            _ => {
                // another diagram comes and goes
                let o = gen::sites(8);
                drop(must_build::<I, F>(&o));
            }
        }
        let now = Rec::of(&d);
        if now.uncolored() != r.uncolored() {
            fail!("structure-changed", "annotation or traversal changed the structure: {} ({s:?})", model::diff(&now.uncolored(), &r.uncolored()));
        }
        verify("later", s, &now);
    }
    let y: SyncDiagram<F> = unwrap_caught("convert", lib_catch(|| d.into()));
    verify("after the conversion", s, &Rec::of_sync(&y));
    if maybe(1, 3) {
        let text = lib(|| serde_json::to_vec(&y)).unwrap_or_default();
        let z: Result<SyncDiagram<F>, _> = unwrap_caught("decode", lib_catch(|| serde_json::from_slice(&text)));
        match z {
            Ok(z) => verify("after being stored and loaded", s, &Rec::of_sync(&z)),
            Err(e) => fail!("store", "the stored diagram can't be loaded: {e}"),
        }
    }
}

fn c10() {
    swarm_env();
    for _ in 0..1 + ops(2) {
        let s = if maybe(1, 60) { gen::large(60 + ops(600)) } else { gen::any(40) };
        log_sites("sites", &s);
        typed!(ops(4), stages(&s));
    }
}

// ---------------------------------------------------------------------------------------------
// C19

#[derive(Clone, Copy)]
struct Bomb<I>([I; 4], bool);
impl<I: Int> From<Bomb<I>> for Point<I> {
    fn from(p: Bomb<I>) -> Point<I> {
        if p.1 {
            host(|| {
                rt::fault(F_CRASH);
                std::panic::panic_any(rt::Crash)
            })
        }
        Point { x: p.0[0], y: p.0[1] }
    }
}
impl<I: Int> From<Bomb<I>> for Line<I> {
    fn from(p: Bomb<I>) -> Line<I> {
        if p.1 {
            host(|| {
                rt::fault(F_CRASH);
                std::panic::panic_any(rt::Crash)
            })
        }
        Line { start: Point { x: p.0[0], y: p.0[1] }, end: Point { x: p.0[2], y: p.0[3] } }
    }
}

/// one unit of work that is abandoned or fails at some point
fn abandon<I: Int, F: OutputType + serde::Serialize + serde::de::DeserializeOwned + 'static>(s: &Sites, kind: u32) {
    let (p, l) = (pts::<I>(s), segs::<I>(s));
    let sites = || must_build::<I, F>(s);
    let ok = |c: Caught<()>| match c {
        Caught::Panicked(m) => fail!("panic", "{m}"),
        _ => {}
    };
    let upto = |n: usize| flt(n as u32 + 1) as usize;
    match kind {
        0 => {
            // the builder is dropped at some stage
            rt::fault(F_CANCEL);
            let (a, b) = (upto(p.len()), upto(l.len()));
            ev!("builder dropped after {a} points and {b} segments");
            ok(lib_catch(|| {
                let x = Builder::<I, F>::default();
                if a > 0 {
                    let x = x.with_vertices(p[..a].iter()).ok();
                    if b > 0 {
                        drop(x.and_then(|x| x.with_segments(l[..b].iter()).ok()));
                    }
                }
            }))
        }
        1 => {
            let k = upto(p.len());
            ev!("source of points crashes at {k}");
            let pulled = std::cell::Cell::new(0);
            ok(lib_catch(|| {
                let f = Feed { items: &p, pos: 0, hint: Hint::Exact, crash_at: Some(k), unfused: false, ended: 0, hook: None, pulled: &pulled };
                drop(Builder::<I, F>::default().with_vertices(f));
            }))
        }
        2 => {
            let k = upto(l.len());
            ev!("source of segments crashes at {k}");
            let pulled = std::cell::Cell::new(0);
            ok(lib_catch(|| {
                let x = Builder::<I, F>::default().with_vertices(p.iter());
                let f = Feed { items: &l, pos: 0, hint: Hint::None, crash_at: Some(k), unfused: false, ended: 0, hook: None, pulled: &pulled };
                drop(x.and_then(|x| x.with_segments(f)));
            }))
        }
        3 => {
            // a conversion crashes
            let k = upto(l.len());
            let v: Vec<Bomb<I>> = l.iter().enumerate().map(|(i, q)| Bomb(*q, i == k)).collect();
            let w: Vec<Bomb<I>> = p.iter().enumerate().map(|(i, q)| Bomb([q[0], q[1], q[0], q[1]], i == k && flt_maybe(1, 2))).collect();
            ev!("conversion crashes at {k}");
            ok(lib_catch(|| drop(Builder::<I, F>::default().with_vertices(w.iter().copied()).and_then(|b| b.with_segments(v.iter().copied())).and_then(|b| b.build()))))
        }
        4 => {
            // reading crashes
            let t = to_text(s);
            let mut plan = Plan::of(t.into_bytes());
            plan.vary();
            plan.crash_at = Some(flt(6) as u64);
            let mut src = Source::new(plan);
            ok(lib_catch(|| drop(boostvoronoi::read_boost_input_buffer::<I, _>(BufReader::with_capacity(16, &mut src)))))
        }
        5 => {
            // reading fails
            let t = to_text(s);
            let n = t.len();
            let mut plan = Plan::of(t.into_bytes());
            plan.fail_at = Some((upto(n), crate::io::Fault::draw()));
            let mut src = Source::new(plan);
            ok(lib_catch(|| drop(boostvoronoi::read_boost_input_buffer::<I, _>(BufReader::with_capacity(64, &mut src)))))
        }
        6 => {
            // the diagram goes while handles are in use
            rt::fault(F_CANCEL);
            let d = sites();
            let n = d.num_edges();
            let k = upto(n);
            ev!("diagram dropped before its handles");
            unwrap_caught(
                "handles",
                lib_catch(|| {
                    let h: Vec<_> = d.edges().iter().take(k).cloned().collect();
                    let v: Vec<_> = d.vertices().iter().take(k).cloned().collect();
                    let c: Vec<_> = d.cells().iter().take(k).cloned().collect();
                    drop(d);
                    for (i, h) in h.iter().enumerate() {
                        assert_eq!(h.get().id().0, i, "a handle lost its edge");
                    }
                    drop((h, v, c));
                }),
            )
        }
        7 => {
            // traversals are left part-way
            rt::fault(F_CANCEL);
            let d = sites();
            let k = flt(4) as usize;
            ev!("traversals left after {k} steps");
            unwrap_caught(
                "traversal",
                lib_catch(|| {
                    for c in d.cells() {
                        let _ = d.cell_edge_iterator(c.get().id()).nth(k);
                    }
                    for v in d.vertices() {
                        let _ = d.edge_rot_next_iterator(v.get().get_incident_edge().ok()).nth(k);
                        let _ = d.edge_rot_prev_iterator(v.get().get_incident_edge().ok()).nth(k);
                    }
                    d.color_exterior_edges(3);
                    drop(d);
                }),
            )
        }
        8 => {
            // conversion while handles are in use, storing that fails part-way
            rt::fault(F_CANCEL);
            let d = sites();
            let room = flt(2000) as usize;
            struct Small(usize);
            impl std::io::Write for Small {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    host(|| {
                        if self.0 == 0 {
                            rt::fault(F_WRITEERR);
                            return Err(std::io::Error::from_raw_os_error(28));
                        }
                        let n = b.len().min(self.0);
                        self.0 -= n;
                        Ok(n)
                    })
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            ev!("stored with room for {room} bytes");
            unwrap_caught(
                "store",
                lib_catch(|| {
                    let h = d.edges().first().cloned();
                    let y: SyncDiagram<F> = d.into();
                    let _ = serde_json::to_writer(Small(room), &y);
                    let text = serde_json::to_vec(&y).unwrap_or_default();
                    let cut = room.min(text.len());
                    let z: Result<SyncDiagram<F>, _> = serde_json::from_slice(&text[..cut]);
                    drop(z);
                    drop(h);
                }),
            )
        }
        11 => {
            // a build that fails or panics
            let o = gen::crossing();
            log_sites("crossing", &o);
            if pristine(|| {
                rt::set_budget(ROGUE_BUDGET);
                attempt::<I, F>(&o)
            })
            .is_ok()
            {
                rt::fault(F_ROGUE);
                drop(attempt::<I, F>(&o));
            }
        }
        9 => {
            // refused
            ok(lib_catch(|| drop(Builder::<I, F>::default().with_segments(l.iter()).and_then(|b| b.with_vertices(p.iter())))))
        }
        _ => {
            // cleared while handles are in use, then used again
            let mut d = sites();
            rt::fault(F_CANCEL);
            unwrap_caught(
                "clear",
                lib_catch(|| {
                    let h = d.edges().first().cloned();
                    d.clear();
                    d.reserve_(10);
                    assert!(d.num_edges() == 0 && d.num_cells() == 0 && d.num_vertices() == 0, "clear() left something");
                    d.color_exterior_edges(1);
                    drop(h);
                }),
            )
        }
    }
}

fn c19() {
    swarm_env();
    let s = gen::sites(15);
    log_sites("sites", &s);
    let types = ops(4);
    let want = solo(&s, types);
    // everything that is set up once and kept
    for k in 0..12 {
        typed!(types, abandon(&Sites { p: vec![[0, 0], [3, 1]], s: vec![[5, 5, 9, 6]] }, k));
    }
    let _ = lib_catch(|| drop(boostvoronoi::read_boost_input_buffer::<i32, _>(BufReader::new(&b"x\n"[..]))));
    let base = (rt::alloc::live_blocks(), rt::alloc::live());
    for _ in 0..1 + ops(6) {
        let kind = flt(12);
        ev!("work of kind {kind}");
        typed!(types, abandon(&s, kind));
        let now = (rt::alloc::live_blocks(), rt::alloc::live());
        if now.1 > base.1 {
            fail!("leak", "abandoned work of kind {kind} leaves {} blocks, {} bytes behind ({s:?})", now.0 as i64 - base.0 as i64, now.1 as i64 - base.1 as i64);
        }
    }
    // the library is as good as new
    fn f<I: Int, F: OutputType>(s: &Sites) -> Rec {
        Rec::of(&must_build::<I, F>(s))
    }
    let r = typed!(types, f(&s));
    if r != want {
        fail!("aftermath", "abandoned work changes later results: {} ({s:?})", model::diff(&r, &want));
    }
    let now = (rt::alloc::live_blocks(), rt::alloc::live());
    if now.1 > base.1 {
        fail!("leak", "a build leaves {} blocks, {} bytes behind ({s:?})", now.0 as i64 - base.0 as i64, now.1 as i64 - base.1 as i64);
    }
}

pub fn props() -> Vec<Prop> {
    let stub = "the clients' iterators and byte sources, thread scheduling and futexes, heap and hash entropy, clock";
    vec![
        Prop {
            id: "C06", run: c06, quick: 24_000, thorough: 400_000,
            rule: "2-4 clients with generated inputs and different pipelines (text, batches, build, exterior marking, conversion), interleaved step by step on one thread, nested in each other's callbacks, or on threads preempted between any two instrumented steps; some clients crash; every survivor's result is compared byte for byte with the same client alone in a fresh process",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C07", run: c07, quick: 24_000, thorough: 400_000,
            rule: "one generated input computed 1-3 times under drawn hash seeds, heap layouts and contents, histories (other inputs, abandoned builders, contract-breaking input, failed reads, clock jumps), threads and stack sizes; every observable output is compared byte for byte with a fresh process; identical runs are executed twice and compared",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C08", run: c08, quick: 60_000, thorough: 700_000,
            rule: "generated inputs cut into batches (also empty ones), delivered by iterators with drawn element forms, size hints, delays and behaviour after their end, late vertices now and then; compared with the delivery in one go",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C09", run: c09, quick: 40_000, thorough: 600_000,
            rule: "generated sites delivered 1-4 times through a transport that duplicates, reorders, reverses segments and contributes end points again; the set of cells is compared with the set of distinct sites, the geometry with the first delivery",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C10", run: c10, quick: 36_000, thorough: 500_000,
            rule: "histories of builds (all four type combinations), annotations, exterior marking, traversals, conversion, storing and loading; the half-edge invariants, Euler's formula, the attribution of cells and the kind of every edge are checked after every stage",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C19", run: c19, quick: 36_000, thorough: 500_000,
            rule: "1-6 units of work per run that crash in a callback, fail, or are dropped at a drawn point; live memory is compared with the state before, released memory is checked for double release, a later build is compared with a fresh process",
            real: REAL_LIB, stub,
        },
    ]
}
