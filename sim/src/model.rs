//! Plain recordings of diagrams, the invariants on them, and the executable reference models.

use crate::gen::{Sites, P, S};
use boostvoronoi as vd;
use boostvoronoi::{cast, OutputType, SourceCategory};
use boostvoronoi::{Cell, Diagram, Edge, SyncDiagram, Vertex};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct CellR {
    pub id: usize,
    pub src: usize,
    pub cat: u8,
    pub inc: Option<usize>,
    pub point: bool,
    pub segment: bool,
    pub start: bool,
    pub end: bool,
    pub degenerate: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct VertR {
    pub id: usize,
    pub x: u64,
    pub y: u64,
    pub inc: Option<usize>,
    pub color: u32,
    pub site: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct EdgeR {
    pub id: usize,
    pub cell: Option<usize>,
    pub v0: Option<usize>,
    pub twin: Option<usize>,
    pub next: Option<usize>,
    pub prev: Option<usize>,
    pub linear: bool,
    pub primary: bool,
    pub color: u32,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Rec {
    pub cells: Vec<CellR>,
    pub verts: Vec<VertR>,
    pub edges: Vec<EdgeR>,
}

pub const SINGLE: u8 = 0;
pub const START: u8 = 1;
pub const END: u8 = 2;
pub const SEGMENT: u8 = 3;

pub fn cat(c: SourceCategory) -> u8 {
    match c {
        SourceCategory::SinglePoint => SINGLE,
        SourceCategory::SegmentStart => START,
        SourceCategory::SegmentEnd => END,
        SourceCategory::Segment => SEGMENT,
    }
}
impl CellR {
    pub fn of(c: &Cell) -> CellR {
        let (src, k) = c.source_index_2();
        CellR {
            id: c.id().0,
            src,
            cat: cat(k),
            inc: c.get_incident_edge().map(|e| e.0),
            point: c.contains_point(),
            segment: c.contains_segment(),
            start: c.contains_segment_startpoint(),
            end: c.contains_segment_endpoint(),
            degenerate: c.is_degenerate(),
        }
    }
}
impl VertR {
    pub fn of<F: OutputType>(v: &Vertex<F>) -> VertR {
        VertR {
            id: v.get_id().0,
            x: cast::<F, f64>(v.x()).to_bits(),
            y: cast::<F, f64>(v.y()).to_bits(),
            inc: v.get_incident_edge().ok().map(|e| e.0),
            color: v.get_color(),
            site: v.is_site_point(),
        }
    }
}
impl EdgeR {
    pub fn of(e: &Edge) -> EdgeR {
        EdgeR {
            id: e.id().0,
            cell: e.cell().ok().map(|c| c.0),
            v0: e.vertex0().map(|v| v.0),
            twin: e.twin().ok().map(|e| e.0),
            next: e.next().ok().map(|e| e.0),
            prev: e.prev().ok().map(|e| e.0),
            linear: e.is_linear(),
            primary: e.is_primary(),
            color: e.get_color(),
        }
    }
}

impl Rec {
    pub fn of<F: OutputType>(d: &Diagram<F>) -> Rec {
        Rec {
            cells: d.cells().iter().map(|c| CellR::of(&c.get())).collect(),
            verts: d.vertices().iter().map(|v| VertR::of(&v.get())).collect(),
            edges: d.edges().iter().map(|e| EdgeR::of(&e.get())).collect(),
        }
    }
    pub fn of_sync<F: OutputType>(d: &SyncDiagram<F>) -> Rec {
        Rec {
            cells: d.cells().iter().map(CellR::of).collect(),
            verts: d.vertices().iter().map(VertR::of).collect(),
            edges: d.edges().iter().map(EdgeR::of).collect(),
        }
    }
    /// without the attribution of cells to input indices and roles
    pub fn geometry(&self) -> Rec {
        let mut r = self.clone();
        for c in r.cells.iter_mut() {
            c.src = 0;
            c.cat = 0;
            c.start = false;
            c.end = false;
        }
        r
    }
    pub fn uncolored(&self) -> Rec {
        let mut r = self.clone();
        r.verts.iter_mut().for_each(|v| v.color = 0);
        r.edges.iter_mut().for_each(|v| v.color = 0);
        r
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        let mut w = |v: u64| o.extend_from_slice(&v.to_le_bytes());
        let opt = |v: Option<usize>| v.map(|x| x as u64).unwrap_or(u64::MAX - 1);
        w(self.cells.len() as u64);
        w(self.verts.len() as u64);
        w(self.edges.len() as u64);
        for c in &self.cells {
            w(c.id as u64);
            w(c.src as u64);
            w(c.cat as u64);
            w(opt(c.inc));
            w(c.point as u64 | (c.segment as u64) << 1 | (c.start as u64) << 2 | (c.end as u64) << 3 | (c.degenerate as u64) << 4);
        }
        for v in &self.verts {
            w(v.id as u64);
            w(v.x);
            w(v.y);
            w(opt(v.inc));
            w(v.color as u64 | (v.site as u64) << 32);
        }
        for e in &self.edges {
            w(e.id as u64);
            w(opt(e.cell));
            w(opt(e.v0));
            w(opt(e.twin));
            w(opt(e.next));
            w(opt(e.prev));
            w(e.color as u64 | (e.linear as u64) << 32 | (e.primary as u64) << 33);
        }
        o
    }
    pub fn digest(&self) -> u64 {
        rt::fnv(0xcbf29ce484222325, &self.bytes())
    }
    pub fn v1(&self, e: usize) -> Option<usize> {
        self.edges[self.edges[e].twin?].v0
    }
    pub fn infinite(&self, e: usize) -> bool {
        self.edges[e].v0.is_none() || self.v1(e).is_none()
    }
    pub fn rot_next(&self, e: usize) -> Option<usize> {
        self.edges[self.edges[e].prev?].twin
    }
    pub fn rot_prev(&self, e: usize) -> Option<usize> {
        self.edges[self.edges[e].twin?].next
    }
    /// the ring of edges around a cell / a vertex (either direction), starting with e
    pub fn ring(&self, e: usize, step: impl Fn(&Rec, usize) -> Option<usize>) -> Vec<usize> {
        let mut v = vec![e];
        let mut c = e;
        while let Some(n) = step(self, c) {
            if n == e || v.len() > self.edges.len() {
                break;
            }
            v.push(n);
            c = n;
        }
        v
    }
    pub fn cell_ring(&self, e: usize) -> Vec<usize> {
        self.ring(e, |r, e| r.edges[e].next)
    }
}

/// describes the first difference of two recordings
pub fn diff(a: &Rec, b: &Rec) -> String {
    if (a.cells.len(), a.verts.len(), a.edges.len()) != (b.cells.len(), b.verts.len(), b.edges.len()) {
        return format!(
            "{}/{}/{} cells/vertices/edges instead of {}/{}/{}",
            a.cells.len(), a.verts.len(), a.edges.len(), b.cells.len(), b.verts.len(), b.edges.len()
        );
    }
    for (x, y) in a.cells.iter().zip(&b.cells) {
        if x != y {
            return format!("{x:?} instead of {y:?}");
        }
    }
    for (x, y) in a.verts.iter().zip(&b.verts) {
        if x != y {
            return format!("{x:?} instead of {y:?}");
        }
    }
    for (x, y) in a.edges.iter().zip(&b.edges) {
        if x != y {
            return format!("{x:?} instead of {y:?}");
        }
    }
    "no difference".into()
}

// ---------------------------------------------------------------------------------------------
// structural integrity

macro_rules! need {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn integrity(r: &Rec) -> Result<(), String> {
    let (nc, nv, ne) = (r.cells.len(), r.verts.len(), r.edges.len());
    let mut per_cell = vec![0usize; nc];
    let mut per_vertex = vec![0usize; nv];
    need!(ne % 2 == 0, "an odd number of half-edges");
    for (i, e) in r.edges.iter().enumerate() {
        need!(e.id == i, "edge at position {i} has id {}", e.id);
        let (Some(t), Some(n), Some(p), Some(c)) = (e.twin, e.next, e.prev, e.cell) else {
            return Err(format!("edge {i} lacks a link: {e:?}"));
        };
        need!(t < ne && n < ne && p < ne && c < nc, "edge {i} has a dangling link: {e:?}");
        need!(t != i, "edge {i} is its own twin");
        let (te, nn, pp) = (&r.edges[t], &r.edges[n], &r.edges[p]);
        need!(te.twin == Some(i), "twin of the twin of edge {i} is {:?}", te.twin);
        need!(nn.prev == Some(i), "prev of the next of edge {i} is {:?}", nn.prev);
        need!(pp.next == Some(i), "next of the prev of edge {i} is {:?}", pp.next);
        need!(nn.cell == e.cell, "edge {i} belongs to another cell than its next");
        need!(te.cell != e.cell, "edge {i} belongs to the same cell as its twin");
        need!(te.linear == e.linear && te.primary == e.primary, "edge {i} and its twin disagree about their kind");
        need!(nn.v0 == te.v0, "edge {i} ends at {:?}, its next starts at {:?}", te.v0, nn.v0);
        need!(e.primary || e.linear, "edge {i} is secondary and curved");
        if let Some(v) = e.v0 {
            need!(v < nv, "edge {i} starts at the unknown vertex {v}");
            per_vertex[v] += 1;
        }
        per_cell[c] += 1;
    }
    let mut degenerate = 0;
    for (i, c) in r.cells.iter().enumerate() {
        need!(c.id == i, "cell at position {i} has id {}", c.id);
        need!(c.degenerate == c.inc.is_none(), "cell {i} is inconsistent about being degenerate");
        need!(c.point != c.segment, "cell {i} contains neither or both of point and segment");
        need!(c.segment == (c.cat == SEGMENT), "cell {i}: source category and contents disagree: {c:?}");
        need!(c.start == (c.cat == START) && c.end == (c.cat == END), "cell {i}: end point flags disagree: {c:?}");
        match c.inc {
            Some(e) => {
                need!(e < ne && r.edges[e].cell == Some(i), "incident edge of cell {i} isn't one of its edges");
                let n = r.cell_ring(e).len();
                need!(n == per_cell[i], "the boundary of cell {i} has {n} edges, {} belong to the cell", per_cell[i]);
            }
            None => {
                degenerate += 1;
                need!(per_cell[i] == 0, "cell {i} is degenerate but has {} edges", per_cell[i]);
            }
        }
    }
    for (i, v) in r.verts.iter().enumerate() {
        need!(v.id == i, "vertex at position {i} has id {}", v.id);
        need!(f64::from_bits(v.x).is_finite() && f64::from_bits(v.y).is_finite(), "vertex {i} isn't finite");
        let Some(e) = v.inc else { return Err(format!("vertex {i} has no incident edge")) };
        need!(e < ne && r.edges[e].v0 == Some(i), "incident edge of vertex {i} doesn't start there");
        let ring = r.ring(e, |r, e| r.rot_next(e));
        need!(ring.len() == per_vertex[i], "{} edges around vertex {i}, {} start there", ring.len(), per_vertex[i]);
        need!(ring.len() >= 3, "vertex {i} has degree {}", ring.len());
    }
    if nc >= 2 {
        let euler = nv as i64 - ne as i64 / 2 + nc as i64;
        need!(euler == 1 + degenerate, "V-E+F is {euler} with {degenerate} degenerate cells");
    } else {
        need!(nv == 0 && ne == 0, "{nc} cells but {nv} vertices and {ne} edges");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// sites

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Site {
    Point(P),
    Seg(P, P),
}
pub fn seg_key(s: &S) -> Site {
    let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
    Site::Seg(a.min(b), a.max(b))
}
fn zero_len(s: &S) -> bool {
    s[0] == s[2] && s[1] == s[3]
}
/// the site a cell claims to belong to; None: there is no such input or role
pub fn resolve(o: &Sites, c: &CellR) -> Option<Site> {
    if c.src < o.p.len() {
        return (c.cat == SINGLE).then_some(Site::Point(o.p[c.src]));
    }
    let s = o.s.get(c.src - o.p.len())?;
    match (zero_len(s), c.cat) {
        (true, SINGLE) => Some(Site::Point([s[0], s[1]])),
        (false, START) => Some(Site::Point([s[0], s[1]])),
        (false, END) => Some(Site::Point([s[2], s[3]])),
        (false, SEGMENT) => Some(seg_key(s)),
        _ => None,
    }
}
/// every distinct site and how often it was contributed
pub fn distinct(o: &Sites) -> BTreeMap<Site, u32> {
    let mut m = BTreeMap::new();
    let mut add = |k: Site| *m.entry(k).or_insert(0) += 1;
    o.p.iter().for_each(|p| add(Site::Point(*p)));
    for s in &o.s {
        add(Site::Point([s[0], s[1]]));
        if !zero_len(s) {
            add(Site::Point([s[2], s[3]]));
            add(seg_key(s));
        }
    }
    m
}
/// every distinct site has exactly one cell, which names one of its contributors
pub fn attribution(o: &Sites, r: &Rec) -> Result<Vec<Site>, String> {
    let want = distinct(o);
    let mut got = BTreeMap::new();
    let mut v = Vec::new();
    for c in &r.cells {
        let Some(s) = resolve(o, c) else {
            return Err(format!("cell {} refers to input {} as {}, which doesn't exist", c.id, c.src, c.cat));
        };
        need!(got.insert(s, c.id).is_none(), "{s:?} has two cells: {} and another one", c.id);
        v.push(s);
    }
    for s in want.keys() {
        need!(got.contains_key(s), "{s:?} has no cell");
    }
    need!(got.len() == want.len(), "{} cells for {} distinct sites", got.len(), want.len());
    Ok(v)
}
/// kind of the edges between two sites: (primary, linear)
pub fn edge_kind(a: Site, b: Site) -> (bool, bool) {
    match (a, b) {
        (Site::Point(p), Site::Seg(x, y)) | (Site::Seg(x, y), Site::Point(p)) => {
            if p == x || p == y {
                (false, true)
            } else {
                (true, false)
            }
        }
        _ => (true, true),
    }
}
pub fn classification(sites: &[Site], r: &Rec) -> Result<(), String> {
    for e in &r.edges {
        let (a, b) = (sites[e.cell.unwrap()], sites[r.edges[e.twin.unwrap()].cell.unwrap()]);
        let (primary, linear) = edge_kind(a, b);
        need!(
            (e.primary, e.linear) == (primary, linear),
            "edge {} between {a:?} and {b:?}: primary {} linear {}",
            e.id, e.primary, e.linear
        );
    }
    Ok(())
}

pub fn note(r: &Rec) {
    use crate::common::*;
    if r.cells.is_empty() {
        rt::probe(P_EMPTY);
    }
    if r.cells.len() == 1 {
        rt::probe(P_SINGLE);
    }
    if r.verts.is_empty() {
        rt::probe(P_NOVERTEX);
    }
    if r.edges.iter().any(|e| !e.linear) {
        rt::probe(P_CURVED);
    }
    if r.edges.iter().any(|e| !e.primary) {
        rt::probe(P_SECONDARY);
    }
    if r.cells.iter().any(|e| e.degenerate) {
        rt::probe(P_DEGENERATE);
    }
    if r.verts.iter().any(|e| e.site) {
        rt::probe(P_SITEVERTEX);
    }
    let mut deg = vec![0u32; r.verts.len()];
    for e in &r.edges {
        if let Some(v) = e.v0 {
            if v < deg.len() {
                deg[v] += 1;
            }
        }
    }
    if deg.iter().any(|d| *d > 3) {
        rt::probe(P_HIGHDEG);
    }
}

// ---------------------------------------------------------------------------------------------
// exterior marking

/// (edges, vertices) reached from the unbounded edges through primary edges
pub fn exterior(r: &Rec) -> (Vec<bool>, Vec<bool>) {
    let mut reached = vec![false; r.verts.len()];
    let mut edges = vec![false; r.edges.len()];
    let mut todo = Vec::new();
    let mut from = vec![Vec::new(); r.verts.len()];
    for e in &r.edges {
        if let Some(v) = e.v0 {
            from[v].push(e.id);
        }
    }
    let mut visit = |e: &EdgeR, reached: &mut Vec<bool>, todo: &mut Vec<usize>| {
        let t = e.twin.unwrap();
        edges[e.id] = true;
        edges[t] = true;
        if let Some(v) = r.edges[t].v0 {
            if e.primary && !r.verts[v].site && !reached[v] {
                reached[v] = true;
                todo.push(v);
            }
        }
    };
    for e in &r.edges {
        if r.infinite(e.id) {
            visit(e, &mut reached, &mut todo);
        }
    }
    while let Some(v) = todo.pop() {
        for e in &from[v] {
            visit(&r.edges[*e], &mut reached, &mut todo);
        }
    }
    (edges, reached)
}

// ---------------------------------------------------------------------------------------------
// the text format

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Text {
    pub p: Vec<P>,
    pub s: Vec<S>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum End {
    /// the outcome was fixed by the line ending at this offset
    Decided(usize),
    /// all data was consumed
    Eof,
    /// a line that isn't UTF-8 and the offset of its end
    BadUtf8(usize),
}
/// what has to come out of the given (complete) data
pub fn parse(data: &[u8]) -> (Text, End) {
    let mut t = Text::default();
    let mut pos = 0;
    let (mut want_p, mut want_s): (Option<usize>, Option<usize>) = (None, None);
    while pos < data.len() {
        let (line, next) = match data[pos..].iter().position(|b| *b == b'\n') {
            Some(n) => {
                let l = &data[pos..pos + n];
                (l.strip_suffix(b"\r").unwrap_or(l), pos + n + 1)
            }
            None => (&data[pos..], data.len()),
        };
        pos = next;
        let Ok(l) = std::str::from_utf8(line) else { return (t, End::BadUtf8(pos)) };
        let tok: Vec<&str> = l.split(' ').collect();
        let num = || if tok.len() == 1 { tok[0].parse::<usize>().ok() } else { None };
        let ints = |n: usize| -> Option<Vec<i64>> {
            if tok.len() != n {
                return None;
            }
            tok.iter().map(|x| x.parse::<i32>().ok().map(|v| v as i64)).collect()
        };
        match (want_p, want_s) {
            (None, _) => match num() {
                Some(n) => want_p = Some(n),
                None => return (t, End::Decided(pos)),
            },
            (Some(n), None) if t.p.len() < n => match ints(2) {
                Some(v) => t.p.push([v[0], v[1]]),
                None => return (t, End::Decided(pos)),
            },
            (Some(_), None) => match num() {
                Some(n) => want_s = Some(n),
                None => return (t, End::Decided(pos)),
            },
            (Some(_), Some(n)) => match ints(4) {
                Some(v) if t.s.len() < n => {
                    t.s.push([v[0], v[1], v[2], v[3]]);
                    if t.s.len() == n {
                        return (t, End::Decided(pos));
                    }
                }
                _ => return (t, End::Decided(pos)),
            },
        }
    }
    (t, End::Eof)
}

#[allow(unused)]
pub fn eid(e: usize) -> vd::EdgeIndex {
    vd::EdgeIndex(e)
}
#[allow(unused)]
pub fn vid(e: usize) -> vd::VertexIndex {
    vd::VertexIndex(e)
}
#[allow(unused)]
pub fn cid(e: usize) -> vd::CellIndex {
    vd::CellIndex(e)
}

impl Rec {
    pub fn from_bytes(b: &[u8]) -> Rec {
        Rec::prefix(b).0
    }
    /// several recordings, one after the other
    pub fn all(mut b: &[u8]) -> Vec<Rec> {
        let mut v = Vec::new();
        while !b.is_empty() {
            let (r, n) = Rec::prefix(b);
            v.push(r);
            b = &b[n..];
        }
        v
    }
    fn prefix(b: &[u8]) -> (Rec, usize) {
        let mut i = 0;
        let mut w = || {
            let v = u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
            i += 8;
            v
        };
        let opt = |v: u64| if v == u64::MAX - 1 { None } else { Some(v as usize) };
        let (nc, nv, ne) = (w(), w(), w());
        let mut r = Rec::default();
        for _ in 0..nc {
            let (id, src, cat, inc, f) = (w(), w(), w(), w(), w());
            let bit = |k: u32| f >> k & 1 != 0;
            r.cells.push(CellR {
                id: id as usize,
                src: src as usize,
                cat: cat as u8,
                inc: opt(inc),
                point: bit(0),
                segment: bit(1),
                start: bit(2),
                end: bit(3),
                degenerate: bit(4),
            });
        }
        for _ in 0..nv {
            let (id, x, y, inc, c) = (w(), w(), w(), w(), w());
            r.verts.push(VertR { id: id as usize, x, y, inc: opt(inc), color: c as u32, site: c >> 32 & 1 != 0 });
        }
        for _ in 0..ne {
            let (id, cell, v0, twin, next, prev, c) = (w(), w(), w(), w(), w(), w(), w());
            r.edges.push(EdgeR {
                id: id as usize,
                cell: opt(cell),
                v0: opt(v0),
                twin: opt(twin),
                next: opt(next),
                prev: opt(prev),
                color: c as u32,
                linear: c >> 32 & 1 != 0,
                primary: c >> 33 & 1 != 0,
            });
        }
        (r, i)
    }
}
