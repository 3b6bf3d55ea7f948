//! one scenario per property

use crate::common::*;
use crate::gen::Sites;
use crate::model::Rec;
use crate::Prop;
use boostvoronoi::{Builder, BvError, Diagram, InputType, OutputType};

mod aabb;
mod build;
mod diagram;
mod geo;
mod reader;
mod store;
mod sync;
mod view;

/// coordinates of the library
pub trait Int: InputType {
    fn of(v: i64) -> Self;
    fn to(self) -> i64;
}
impl Int for i32 {
    fn of(v: i64) -> i32 {
        v as i32
    }
    fn to(self) -> i64 {
        self as i64
    }
}
impl Int for i64 {
    fn of(v: i64) -> i64 {
        v
    }
    fn to(self) -> i64 {
        self
    }
}
pub fn pts<I: Int>(s: &Sites) -> Vec<[I; 2]> {
    s.p.iter().map(|p| p.map(I::of)).collect()
}
pub fn segs<I: Int>(s: &Sites) -> Vec<[I; 4]> {
    s.s.iter().map(|p| p.map(I::of)).collect()
}

/// the plain way to use the library
pub fn build<I: Int, F: OutputType>(s: &Sites) -> Result<Diagram<F>, BvError> {
    let (p, l) = host(|| (pts::<I>(s), segs::<I>(s)));
    let r = Builder::<I, F>::default().with_vertices(p.iter())?.with_segments(l.iter())?.build();
    host(|| drop((p, l)));
    r
}
/// builds a diagram, anything but success is a violation
pub fn must_build<I: Int, F: OutputType>(s: &Sites) -> Diagram<F> {
    match unwrap_caught("build", lib_catch(|| build::<I, F>(s))) {
        Ok(d) => d,
        Err(e) => fail!("error", "valid input was refused: {e:?} ({s:?})"),
    }
}

/// calls f::<I, F> with one of the four type combinations
#[macro_export]
macro_rules! typed {
    ($sel:expr, $f:ident ( $($a:expr),* )) => {
        match $sel {
            0 => $f::<i64, f64>($($a),*),
            1 => $f::<i32, f64>($($a),*),
            2 => $f::<i32, f32>($($a),*),
            _ => $f::<i64, f32>($($a),*),
        }
    };
}

/// the recording of the plain use in a process that has done nothing else
pub fn solo(s: &Sites, types: u32) -> Rec {
    fn f<I: Int, F: OutputType>(s: &Sites) -> Vec<u8> {
        let d = match lib(|| build::<I, F>(s)) {
            Ok(d) => d,
            Err(e) => fail!("error", "valid input was refused: {e:?} ({s:?})"),
        };
        Rec::of(&d).bytes()
    }
    match pristine(|| typed!(types, f(s))) {
        Ok(b) => Rec::from_bytes(&b),
        Err(e) => fail!("solo", "the plain build of {s:?} ends with: {e}"),
    }
}

pub fn log_sites(what: &str, s: &Sites) {
    ev!("{what}: points {:?} segments {:?}", s.p, s.s);
}

/// raw pointers for closures that move to simulated threads (only one thread runs at a time)
#[derive(Clone, Copy)]
pub struct Ptr<T>(pub *mut T);
impl<T> Ptr<T> {
    #[allow(clippy::mut_from_ref)]
    pub fn get<'a>(self) -> &'a mut T {
        unsafe { &mut *self.0 }
    }
}

pub const REAL_LIB: &str = "all of boostvoronoi, boostvoronoi_core and boostvoronoi_ext, std, and the third party crates they use (ahash, cpp_map, vob, itertools, ...)";

pub fn all() -> Vec<Prop> {
    let mut v = reader::props();
    v.extend(build::props());
    v.extend(diagram::props());
    v.extend(sync::props());
    v.extend(store::props());
    v.extend(aabb::props());
    v.extend(geo::props());
    v.extend(view::props());
    v.sort_by_key(|p| p.id);
    v
}
