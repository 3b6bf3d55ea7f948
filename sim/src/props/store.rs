//! C16, C17: stored diagrams

use super::diagram::{color, input};
use super::*;
use crate::gen;
use crate::io::{Fault, Plan, Source};
use crate::model::{self, cid, eid, vid, Rec};
use crate::typed;
use boostvoronoi::{Cell, CellIndex, Edge, EdgeIndex, SyncDiagram, Vertex, VertexIndex};
use serde::{de::DeserializeOwned, Serialize};
use std::io::{BufReader, BufWriter, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Format {
    Json,
    Pretty,
    Cbor,
    /// fields without names, in order
    Bin,
}
fn format() -> Format {
    [Format::Json, Format::Pretty, Format::Cbor, Format::Bin][ops(4) as usize]
}

fn encode_to<T: Serialize>(f: Format, v: &T, w: impl Write) -> Result<(), String> {
    match f {
        Format::Json => serde_json::to_writer(w, v).map_err(|e| e.to_string()),
        Format::Pretty => serde_json::to_writer_pretty(w, v).map_err(|e| e.to_string()),
        Format::Cbor => ciborium::into_writer(v, w).map_err(|e| e.to_string()),
        Format::Bin => bincode::serialize_into(w, v).map_err(|e| e.to_string()),
    }
}
fn encode<T: Serialize>(f: Format, v: &T) -> Vec<u8> {
    let mut o = Vec::new();
    match unwrap_caught("encode", lib_catch(|| encode_to(f, v, &mut o))) {
        Ok(()) => o,
        Err(e) => fail!("store", "a diagram can't be stored: {e}"),
    }
}
fn decode_from<T: DeserializeOwned>(f: Format, r: impl std::io::Read) -> Result<T, String> {
    match f {
        Format::Json | Format::Pretty => serde_json::from_reader(r).map_err(|e| e.to_string()),
        Format::Cbor => ciborium::from_reader(r).map_err(|e| e.to_string()),
        Format::Bin => bincode::deserialize_from(r).map_err(|e| e.to_string()),
    }
}
fn decode<T: DeserializeOwned>(f: Format, b: &[u8]) -> Result<T, String> {
    unwrap_caught(
        "decode",
        lib_catch(|| match f {
            Format::Json | Format::Pretty => serde_json::from_slice(b).map_err(|e| e.to_string()),
            Format::Cbor => ciborium::from_reader(b).map_err(|e| e.to_string()),
            Format::Bin => bincode::deserialize(b).map_err(|e| e.to_string()),
        }),
    )
}

/// a medium that stores what it is given, with faults
#[derive(Default)]
struct Medium {
    data: Vec<u8>,
    room: Option<usize>,
    errno: i32,
    chunk: usize,
    eintr: u32,
    row: u32,
    failed: bool,
    flushes: u32,
    fail_flush: bool,
}
impl Medium {
    fn draw() -> Medium {
        let mut m = Medium::default();
        if flt_maybe(1, 2) {
            m.chunk = [1, 2, 7, 100][flt(4) as usize];
        }
        if flt_maybe(1, 3) {
            m.eintr = 1 + flt(8);
        }
        m.errno = [28, 5, 122, 27][flt(4) as usize];
        m
    }
}
impl Write for &mut Medium {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        host(|| {
            if self.eintr > 0 && self.row < 5 && flt_maybe(self.eintr, 16) {
                self.row += 1;
                rt::fault(F_EINTR);
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            self.row = 0;
            let mut n = b.len();
            if self.chunk > 0 && n > 1 {
                let k = 1 + flt(self.chunk as u32) as usize;
                if k < n {
                    n = k;
                    rt::fault(F_TORN);
                }
            }
            if let Some(r) = self.room {
                if self.data.len() >= r && n > 0 {
                    self.failed = true;
                    rt::fault(F_WRITEERR);
                    ev!("write fails at offset {}", self.data.len());
                    return Err(std::io::Error::from_raw_os_error(self.errno));
                }
                n = n.min(r - self.data.len());
            }
            self.data.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        host(|| {
            self.flushes += 1;
            if self.fail_flush {
                self.failed = true;
                rt::fault(F_WRITEERR);
                return Err(std::io::Error::from_raw_os_error(self.errno));
            }
            Ok(())
        })
    }
}

fn annotate<F: OutputType>(d: &Diagram<F>) {
    let (ne, nv) = (d.num_edges(), d.num_vertices());
    lib(|| {
        for _ in 0..ops(8) {
            if ne > 0 {
                let _ = d.edge_set_color(eid(ops(ne as u32) as usize), color());
            }
            if nv > 0 {
                d.vertex_or_color(vid(ops(nv as u32) as usize), color());
            }
        }
        if ops(2) == 1 {
            d.color_exterior_edges(color());
        }
    })
}

fn same<F: OutputType>(what: &str, y: &SyncDiagram<F>, m: &Rec, text: &str) {
    let now = Rec::of_sync(y);
    if now != *m {
        fail!("roundtrip", "{what}: {}", model::diff(&now, m));
    }
    if lib(|| format!("{y:?}")) != text {
        fail!("roundtrip", "{what}: the textual description differs");
    }
}

fn store<I: Int + Serialize + DeserializeOwned, F: OutputType + Serialize + DeserializeOwned>(s: &Sites) {
    let d = must_build::<I, F>(s);
    annotate(&d);
    let y: SyncDiagram<F> = unwrap_caught("convert", lib_catch(|| d.into()));
    let m = Rec::of_sync(&y);
    let text = lib(|| format!("{y:?}"));
    for _ in 0..1 + ops(3) {
        let f = format();
        let plain = encode(f, &y);
        ev!("{f:?}, {} bytes", plain.len());
        // writing
        let mut w = Medium::draw();
        if flt_maybe(1, 3) {
            w.room = Some(flt(plain.len() as u32 + 3) as usize);
        }
        w.fail_flush = flt_maybe(1, 10);
        let buffered = ops(2) == 1;
        let r = unwrap_caught(
            "store",
            lib_catch(|| {
                if buffered {
                    let mut b = BufWriter::with_capacity(1 + ops(300) as usize, &mut w);
                    let r = encode_to(f, &y, &mut b).and_then(|_| b.flush().map_err(|e| e.to_string()));
                    let _ = b.into_parts();
                    r
                } else {
                    encode_to(f, &y, &mut w).and_then(|_| (&mut w).flush().map_err(|e| e.to_string()))
                }
            }),
        );
        if w.failed {
            rt::probe(P_ERR);
            if r.is_ok() {
                fail!("store", "a failing write isn't reported");
            }
            if !plain.starts_with(&w.data) {
                fail!("store", "something else was written before the failure");
            }
            // what is there after a failure is never mistaken for a diagram
            if w.data.len() < plain.len() {
                if decode::<SyncDiagram<F>>(f, &w.data).is_ok() {
                    fail!("truncated", "{} of {} bytes are taken for a diagram", w.data.len(), plain.len());
                }
            }
            continue;
        }
        rt::probe(P_OK);
        if r.is_err() {
            fail!("store", "storing fails without a fault: {r:?}");
        }
        if w.data != plain {
            fail!("store", "the stored bytes depend on the way they are written");
        }
        // reading
        let mut plan = Plan::of(plain.clone());
        plan.vary();
        let mut cut = None;
        match flt(5) {
            1 => {
                let at = flt(plain.len() as u32 + 1) as usize;
                plan.fail_at = Some((at, Fault::draw()));
                plan.persistent = true;
                cut = Some(at);
            }
            2 => {
                rt::fault(F_TRUNC);
                let at = flt(plain.len() as u32) as usize;
                plan.data.truncate(at);
                cut = Some(at);
            }
            _ => {}
        }
        let would_be_eof = plan.fail_at.is_some_and(|x| x.1.kind() == std::io::ErrorKind::Interrupted);
        if would_be_eof {
            continue;
        }
        let mut src = Source::new(plan);
        let r: Result<SyncDiagram<F>, String> = unwrap_caught("load", lib_catch(|| decode_from(f, BufReader::with_capacity(16 + ops(500) as usize, &mut src))));
        match (r, cut) {
            (Ok(z), None) => same("stored and loaded", &z, &m, &text),
            (Ok(z), Some(at)) => {
                if at < plain.len() {
                    fail!("truncated", "{at} of {} bytes ({f:?}) are taken for a diagram", plain.len());
                }
                same("stored and loaded, error after the end", &z, &m, &text);
            }
            (Err(e), None) => fail!("load", "a stored diagram ({f:?}) can't be loaded: {e}"),
            (Err(_), Some(_)) => rt::probe(P_DESER_ERR),
        }
        // by way of a tree
        if maybe(1, 5) {
            let r: Result<SyncDiagram<F>, String> = unwrap_caught(
                "tree",
                lib_catch(|| serde_json::to_value(&y).and_then(serde_json::from_value).map_err(|e| e.to_string())),
            );
            match r {
                Ok(z) => same("by way of a tree", &z, &m, &text),
                Err(e) => fail!("load", "a diagram can't be rebuilt from its tree: {e}"),
            }
        }
    }
    // single parts
    let f = format();
    macro_rules! part {
        ($t:ty, $list:expr, $of:expr) => {
            if !$list.is_empty() {
                let k = ops($list.len() as u32) as usize;
                let b = encode(f, &$list[k]);
                match decode::<$t>(f, &b) {
                    Ok(x) => {
                        if $of(&x) != $of(&$list[k]) {
                            fail!("roundtrip", "{}: {:?} instead of {:?}", stringify!($t), $of(&x), $of(&$list[k]));
                        }
                    }
                    Err(e) => fail!("load", "{}: {e}", stringify!($t)),
                }
            }
        };
    }
    part!(Cell, y.cells(), model::CellR::of);
    part!(Vertex<F>, y.vertices(), model::VertR::of);
    part!(Edge, y.edges(), model::EdgeR::of);
    let k = ops(u32::MAX) as usize;
    if decode::<EdgeIndex>(f, &encode(f, &eid(k))) != Ok(eid(k)) || decode::<VertexIndex>(f, &encode(f, &vid(k))) != Ok(vid(k)) || decode::<CellIndex>(f, &encode(f, &cid(k))) != Ok(cid(k)) {
        fail!("roundtrip", "an index doesn't survive");
    }
    // the input
    use boostvoronoi::{Line, Point};
    let p: Vec<Point<I>> = pts::<I>(s).iter().map(|p| Point { x: p[0], y: p[1] }).collect();
    let l: Vec<Line<I>> = segs::<I>(s).iter().map(|l| Line { start: Point { x: l[0], y: l[1] }, end: Point { x: l[2], y: l[3] } }).collect();
    let b = encode(f, &(&p, &l));
    match decode::<(Vec<Point<I>>, Vec<Line<I>>)>(f, &b) {
        Ok(z) if z == (p, l) => {}
        Ok(z) => fail!("roundtrip", "the input comes back as {z:?} ({s:?})"),
        Err(e) => fail!("load", "stored input can't be loaded: {e}"),
    }
}

// ---------------------------------------------------------------------------------------------
// versions on a disk that forgets what isn't synced

#[derive(Clone, Default)]
struct Node {
    cached: Vec<u8>,
    /// length that certainly survives
    synced: usize,
}
/// a directory; names are durable when they are renamed or the file is created
struct Dir {
    files: Vec<(u32, Node)>,
    ops: u32,
    crash_at: Option<u32>,
}
struct Died;
impl Dir {
    fn step(&mut self) -> Result<(), Died> {
        yield_now();
        self.ops += 1;
        if self.crash_at == Some(self.ops) {
            rt::fault(F_CRASHRESTART);
            ev!("crash in operation {}", self.ops);
            return Err(Died);
        }
        Ok(())
    }
    fn file(&mut self, name: u32) -> &mut Node {
        if !self.files.iter().any(|f| f.0 == name) {
            self.files.push((name, Node::default()));
        }
        &mut self.files.iter_mut().find(|f| f.0 == name).unwrap().1
    }
    fn create(&mut self, name: u32) -> Result<(), Died> {
        self.step()?;
        *self.file(name) = Node::default();
        Ok(())
    }
    fn append(&mut self, name: u32, b: &[u8]) -> Result<(), Died> {
        let r = self.step();
        let n = if r.is_err() && !b.is_empty() {
            rt::fault(F_TORN);
            flt(b.len() as u32 + 1) as usize
        } else {
            b.len()
        };
        self.file(name).cached.extend_from_slice(&b[..n]);
        r
    }
    fn sync(&mut self, name: u32) -> Result<(), Died> {
        self.step()?;
        let f = self.file(name);
        f.synced = f.cached.len();
        Ok(())
    }
    fn rename(&mut self, from: u32, to: u32) -> Result<(), Died> {
        self.step()?;
        let n = self.file(from).clone();
        self.files.retain(|f| f.0 != from && f.0 != to);
        self.files.push((to, n));
        Ok(())
    }
    /// only what is durable survives, the rest in part
    fn restart(&mut self) {
        for (_, n) in self.files.iter_mut() {
            let loose = n.cached.len() - n.synced;
            if loose > 0 {
                let keep = flt(loose as u32 + 1) as usize;
                if keep < loose {
                    rt::fault(F_LOSTWRITE);
                }
                n.cached.truncate(n.synced + keep);
            }
            n.synced = n.cached.len();
        }
        self.ops = 0;
        self.crash_at = None;
    }
}

fn versions<I: Int, F: OutputType + Serialize + DeserializeOwned>(s: &Sites) {
    const MAIN: u32 = 1;
    const TMP: u32 = 2;
    let d = must_build::<I, F>(s);
    annotate(&d);
    let mut y: SyncDiagram<F> = unwrap_caught("convert", lib_catch(|| d.into()));
    let mut dir = Dir { files: vec![], ops: 0, crash_at: None };
    let f = format();
    let mut stored: Option<(Rec, String)> = None;
    for round in 0..1 + ops(5) {
        // the next version
        let ne = y.edges().len();
        lib(|| {
            for _ in 0..ops(5) {
                if ne > 0 {
                    let _ = y.edge_get_mut(eid(ops(ne as u32) as usize)).map(|e| e.set_color(color()));
                }
            }
        });
        let new = (Rec::of_sync(&y), lib(|| format!("{y:?}")));
        let careful = ops(3) > 0;
        let bytes = encode(f, &y);
        let chunk = [64usize, 512, 4096, 7][ops(4) as usize];
        let n_ops = bytes.len().div_ceil(chunk) as u32 + 4;
        if flt_maybe(2, 3) {
            dir.crash_at = Some(dir.ops + 1 + flt(n_ops));
        }
        ev!("version {round}: {} bytes, careful {careful}", bytes.len());
        let save = |dir: &mut Dir| -> Result<(), Died> {
            let name = if careful { TMP } else { MAIN };
            dir.create(name)?;
            for c in bytes.chunks(chunk) {
                dir.append(name, c)?;
            }
            dir.sync(name)?;
            if careful {
                dir.rename(TMP, MAIN)?;
            }
            Ok(())
        };
        let done = save(&mut dir).is_ok();
        if !done || flt_maybe(1, 3) {
            if done {
                rt::fault(F_CRASHRESTART);
                ev!("crash after the version was stored");
            }
            dir.restart();
        }
        let have = dir.files.iter().find(|x| x.0 == MAIN).map(|x| x.1.cached.clone());
        let loaded = have.as_ref().map(|b| decode::<SyncDiagram<F>>(f, b));
        let is = |z: &SyncDiagram<F>, v: &Option<(Rec, String)>| v.as_ref().is_some_and(|v| Rec::of_sync(z) == v.0 && lib(|| format!("{z:?}")) == v.1);
        let next = match loaded {
            Some(Ok(z)) => {
                let (is_new, is_old) = (is(&z, &Some(new.clone())), is(&z, &stored));
                if done && !is_new {
                    fail!("versions", "version {round} was stored completely, something else comes back: {}", model::diff(&Rec::of_sync(&z), &new.0));
                }
                if !is_new && !is_old {
                    fail!("versions", "after a crash neither the old nor the new version comes back: {}", model::diff(&Rec::of_sync(&z), &new.0));
                }
                rt::probe(if is_new { P_NEW } else { P_OLD });
                Some(z)
            }
            Some(Err(e)) => {
                if done || careful && stored.is_some() {
                    fail!("versions", "version {round}: no version can be loaded: {e}");
                }
                rt::probe(P_DESER_ERR);
                None
            }
            None => {
                if done || stored.is_some() {
                    fail!("versions", "the file is gone");
                }
                None
            }
        };
        match next {
            Some(z) => {
                stored = Some((Rec::of_sync(&z), lib(|| format!("{z:?}"))));
                y = z;
            }
            None => {
                // start over
                dir.files.clear();
                stored = None;
            }
        }
    }
}

fn c16() {
    swarm_env();
    let s = if maybe(1, 60) { gen::large(60 + ops(100)) } else { gen::sites(12) };
    log_sites("sites", &s);
    if maybe(1, 3) {
        typed!(ops(4), versions(&s));
    } else {
        typed!(ops(4), store(&s));
    }
}

// ---------------------------------------------------------------------------------------------
// C17

fn twist(v: &mut serde_json::Value, n: usize) {
    use serde_json::Value;
    // a random walk down to something to damage
    let leaf = match v {
        Value::Array(a) if !a.is_empty() => {
            if flt_maybe(1, 12) {
                match flt(5) {
                    0 => {
                        rt::fault(F_LOST);
                        let k = flt(a.len() as u32) as usize;
                        a.remove(k);
                    }
                    1 => {
                        rt::fault(F_DUP);
                        let k = flt(a.len() as u32) as usize;
                        let x = a[k].clone();
                        a.insert(flt(a.len() as u32 + 1) as usize, x);
                    }
                    2 => {
                        rt::fault(F_REORDER);
                        let (i, j) = (flt(a.len() as u32) as usize, flt(a.len() as u32) as usize);
                        a.swap(i, j);
                    }
                    3 => {
                        rt::fault(F_TRUNC);
                        let k = flt(a.len() as u32) as usize;
                        a.truncate(k);
                    }
                    _ => {
                        rt::fault(F_REORDER);
                        a.reverse();
                    }
                }
                return;
            }
            let k = flt(a.len() as u32) as usize;
            return twist(&mut a[k], n);
        }
        Value::Object(o) if !o.is_empty() => {
            let k = flt(o.len() as u32) as usize;
            let key = o.keys().nth(k).unwrap().clone();
            if flt_maybe(1, 30) {
                rt::fault(F_FIELD);
                o.remove(&key);
                return;
            }
            return twist(o.get_mut(&key).unwrap(), n);
        }
        l => l,
    };
    rt::fault(F_FIELD);
    *leaf = match flt(9) {
        0..=3 => Value::from(flt(n as u32 + 2)),
        4 => Value::Null,
        5 => Value::from(flt(u32::MAX)),
        6 => Value::from([u64::MAX, u64::MAX - 1, 1 << 63, u32::MAX as u64, 1 << 32, usize::MAX as u64 / 24][flt(6) as usize]),
        7 => Value::from([1e308, -1e308, 1e39, f64::MIN_POSITIVE, -0.0][flt(5) as usize]),
        _ => Value::from(-1 - flt(5) as i64),
    };
}

fn damage(b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    for _ in 0..1 + flt(4) {
        let n = b.len() as u32;
        if n == 0 {
            return;
        }
        let at = flt(n) as usize;
        match flt(7) {
            0 | 1 => {
                rt::fault(F_BITFLIP);
                b[at] ^= 1 << flt(8);
            }
            2 => {
                rt::fault(F_CORRUPT);
                b[at] = flt(256) as u8;
            }
            3 => {
                rt::fault(F_TRUNC);
                b.truncate(at);
            }
            4 => {
                rt::fault(F_LOST);
                let e = (at + 1 + flt(64) as usize).min(b.len());
                b.drain(at..e);
            }
            5 => {
                rt::fault(F_DUP);
                let e = (at + 1 + flt(64) as usize).min(b.len());
                let c = b[at..e].to_vec();
                let to = flt(b.len() as u32 + 1) as usize;
                b.splice(to..to, c);
            }
            _ => {
                rt::fault(F_LOSTWRITE);
                let e = (at + 1 + flt(64) as usize).min(b.len());
                b[at..e].fill(0);
            }
        }
    }
}

/// everything that can be asked
fn exercise<F: OutputType + Serialize + DeserializeOwned>(y: &mut SyncDiagram<F>) {
    let (nc, nv, ne) = (y.cells().len(), y.vertices().len(), y.edges().len());
    let mut ids: Vec<usize> = (0..ne.max(nv).max(nc).min(40)).collect();
    ids.extend([ne, nv, nc, ne.wrapping_sub(1), usize::MAX, usize::MAX / 2]);
    rt::set_budget(20_000_000 + (ne as u64 + 50) * (ne as u64 + 50) * 200);
    unwrap_caught(
        "use of a loaded diagram",
        lib_catch(|| {
            for c in y.cells().iter() {
                let _ = (c.id(), c.source_index(), c.source_category(), c.source_index_2(), c.contains_point(), c.contains_segment());
                let _ = (c.contains_segment_startpoint(), c.contains_segment_endpoint(), c.is_degenerate(), c.get_incident_edge());
            }
            for v in y.vertices().iter() {
                let mut w = *v;
                let _ = (v.get_id(), v.x(), v.y(), v.get_color(), v.is_site_point(), v.get_incident_edge());
                let _ = (w.set_color(u32::MAX), w.or_color(77), w.get_color());
            }
            for e in y.edges().iter() {
                let mut w = *e;
                let _ = (e.id(), e.cell(), e.vertex0(), e.twin(), e.next(), e.prev());
                let _ = (e.is_linear(), e.is_curved(), e.is_primary(), e.is_secondary(), e.get_color());
                let _ = (w.set_color(u32::MAX), w.or_color(77), w.get_color());
            }
            for k in &ids {
                let e = eid(*k);
                let _ = (y.edge_get(e), y.edge_get_next(e), y.edge_get_prev(e), y.edge_get_twin(e));
                let _ = (y.edge_get_vertex0(e), y.edge_get_vertex1(e), y.edge_is_finite(e), y.edge_is_infinite(e));
                let _ = (y.edge_rot_next(e), y.edge_rot_prev(e), y.cell_get(cid(*k)), y.vertex_get(vid(*k)));
                let n = y.edge_rot_next_iterator(e).take(2 * ne + 2).count();
                if n > ne.max(1) {
                    fail!("no-progress", "a traversal of a loaded diagram with {ne} edges doesn't come to an end after {n} edges");
                }
                let _ = y.edge_get_mut(e).map(|e| e.or_color(1));
                let _ = y.vertex_get_mut(vid(*k)).map(|e| e.set_color(1));
            }
            let _ = format!("{y:?}");
        }),
    );
    // what was accepted can be stored again
    let m = Rec::of_sync(y);
    let finite = m.verts.iter().all(|v| f64::from_bits(v.x).is_finite() && f64::from_bits(v.y).is_finite());
    let f = if finite { format() } else { [Format::Cbor, Format::Bin][ops(2) as usize] };
    let b = encode(f, &*y);
    match decode::<SyncDiagram<F>>(f, &b) {
        Ok(z) => {
            let now = Rec::of_sync(&z);
            if finite && now != m {
                fail!("roundtrip", "an accepted diagram changes when it is stored again: {}", model::diff(&now, &m));
            }
        }
        Err(e) => fail!("load", "an accepted diagram can't be stored and loaded again: {e}"),
    }
}

fn damaged<I: Int, F: OutputType + Serialize + DeserializeOwned>(s: &Sites) {
    let d = must_build::<I, F>(s);
    annotate(&d);
    let handles = (d.edges().to_vec(), d.vertices().to_vec(), d.cells().to_vec());
    let y: SyncDiagram<F> = unwrap_caught("convert", lib_catch(|| d.into()));
    let n = y.edges().len();
    for _ in 0..1 + ops(4) {
        let what = ops(4);
        rt::alloc::limit(64 << 20);
        rt::set_budget(DEFAULT_BUDGET);
        let r: Result<SyncDiagram<F>, String> = match what {
            0 | 1 => {
                // damaged contents in an intact format
                let mut v = serde_json::to_value(&y).unwrap();
                for _ in 0..1 + flt(6) {
                    twist(&mut v, n);
                }
                let f = [Format::Json, Format::Pretty, Format::Cbor][ops(3) as usize];
                let b = match f {
                    Format::Json => serde_json::to_vec(&v).unwrap(),
                    Format::Pretty => serde_json::to_vec_pretty(&v).unwrap(),
                    _ => {
                        let mut o = Vec::new();
                        let _ = ciborium::into_writer(&v, &mut o);
                        o
                    }
                };
                ev!("twisted, {f:?}: {:016x}", rt::fnv(0, &b));
                decode(f, &b)
            }
            2 => {
                // damaged bytes
                let f = format();
                let mut b = encode(f, &y);
                damage(&mut b);
                ev!("damaged, {f:?}: {:016x}", rt::fnv(0, &b));
                decode(f, &b)
            }
            _ => {
                // parts that don't belong together
                let mut e: Vec<Edge> = handles.0.iter().map(|e| e.get()).collect();
                let mut v: Vec<Vertex<F>> = handles.1.iter().map(|e| e.get()).collect();
                let mut c: Vec<Cell> = handles.2.iter().map(|e| e.get()).collect();
                for _ in 0..1 + flt(6) {
                    match flt(6) {
                        0 if !e.is_empty() => {
                            let k = flt(e.len() as u32) as usize;
                            e.swap_remove(k);
                        }
                        1 if !v.is_empty() => {
                            let k = flt(v.len() as u32) as usize;
                            v.swap_remove(k);
                        }
                        2 if !c.is_empty() => {
                            let k = flt(c.len() as u32) as usize;
                            c.swap_remove(k);
                        }
                        3 if !e.is_empty() => {
                            let (i, j) = (flt(e.len() as u32) as usize, flt(e.len() as u32) as usize);
                            e[i] = e[j];
                        }
                        4 => c.push(Cell::new(cid(flt(9) as usize), flt(9) as usize, flt(u32::MAX))),
                        _ => {
                            rt::fault(F_REORDER);
                            e.reverse();
                        }
                    }
                    rt::fault(F_LOST);
                }
                ev!("{} edges {} vertices {} cells", e.len(), v.len(), c.len());
                Ok(unwrap_caught("parts", lib_catch(|| SyncDiagram::new(c, v, e))))
            }
        };
        match r {
            Ok(mut z) => {
                rt::probe(P_DESER_OK);
                exercise(&mut z);
            }
            Err(e) => {
                ev!("refused: {e}");
                rt::probe(P_DESER_ERR)
            }
        }
    }
}

fn c17() {
    swarm_env();
    let s = input(10);
    log_sites("sites", &s);
    typed!(ops(4), damaged(&s));
}

pub fn props() -> Vec<Prop> {
    let real = "all of boostvoronoi, boostvoronoi_core and boostvoronoi_ext, std, serde, serde_json, ciborium and the third party crates they use";
    vec![
        Prop {
            id: "C16", run: c16, quick: 40_000, thorough: 600_000,
            rule: "annotated generated diagrams stored and loaded (JSON compact and pretty, CBOR) over a medium with short, interrupted and failing writes and reads, full disk and truncation; histories of up to 5 versions on a disk that crashes at any operation, tears the last write and forgets what isn't synced",
            real, stub: "the storage medium and directory, crash and restart, heap and hash entropy",
        },
        Prop {
            id: "C17", run: c17, quick: 40_000, thorough: 600_000,
            rule: "stored diagrams with 1-6 damaged fields or 1-4 damaged byte ranges, or made of parts that don't belong together; what the decoder accepts is used with every query and every id within step and memory budgets, then stored and loaded again",
            real, stub: "the storage medium, heap and hash entropy",
        },
    ]
}
