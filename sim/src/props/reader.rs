//! C01 - C05: the reader of the text format

use super::*;
use crate::disk::{disk, File};
use crate::io::{Fault, Plan, Source};
use crate::model::{parse, End, Text};
use boostvoronoi::{Line, Point};
use std::io::{BufRead, BufReader};

/// what came out of a read
#[derive(Clone, PartialEq, Debug)]
enum Out {
    Ok(Text),
    Io(std::io::ErrorKind),
    Other(String),
}
type Raw<I> = Result<(Vec<Point<I>>, Vec<Line<I>>), BvError>;

fn out<I: Int>(r: Raw<I>) -> Out {
    match r {
        Ok((p, s)) => {
            rt::probe(P_OK);
            Out::Ok(Text {
                p: p.iter().map(|p| [p.x.to(), p.y.to()]).collect(),
                s: s.iter().map(|l| [l.start.x.to(), l.start.y.to(), l.end.x.to(), l.end.y.to()]).collect(),
            })
        }
        Err(BvError::BvError(e)) => {
            rt::probe(P_ERR);
            Out::Io(e.kind())
        }
        Err(e) => {
            rt::probe(P_ERR);
            Out::Other(format!("{e:?}"))
        }
    }
}

const CAPS: &[usize] = &[8192, 1, 2, 3, 7, 16, 64, 300];

fn read_plain<I: Int>(src: &mut Source, cap: usize) -> Out {
    let r = lib_catch(|| boostvoronoi::read_boost_input_buffer::<I, _>(BufReader::with_capacity(cap, src)));
    out::<I>(unwrap_caught("read", r))
}

// ---------------------------------------------------------------------------------------------
// texts

const NUMBERS: &[&str] = &[
    "0", "1", "-1", "7", "-12", "100", "12345", "-99999", "2147483647", "-2147483648", "+5", "-0", "007", "1000000", "3", "42",
];
const ODD: &[&str] = &[
    "", " ", "x", "1  2", "1\t2", "2147483648", "-2147483649", "1.5", "1 2 3", " 1 2", "1 2 ", "\u{e9}", "1 2 3 4 5", "\0",
    "18446744073709551616", "-1", "1 2 3 x", "1e3", "# 1", "1,2", "1 -", "\u{1F600} 1", "1 2 3 4 ", "1 99999999999",
];
const HUGE: &[&str] = &["18446744073709551615", "9223372036854775807", "4294967296", "1000000000000", "2147483648"];

fn num(o: &mut String) {
    o.push_str(NUMBERS[ops(NUMBERS.len() as u32) as usize]);
}

/// a text in the format, some of them with oddities
fn text(max: u32) -> String {
    let mut o = String::new();
    let eol = if maybe(1, 4) { "\r\n" } else { "\n" };
    let odd = maybe(1, 3);
    let line = |o: &mut String, n: u32| {
        if odd && maybe(1, 12) {
            o.push_str(ODD[ops(ODD.len() as u32) as usize]);
        } else {
            for i in 0..n {
                if i > 0 {
                    o.push(' ');
                }
                num(o);
            }
        }
        o.push_str(eol);
    };
    for n in [2, 4] {
        let max = if maybe(1, 6) { max * 8 } else { max };
        let count = ops(max + 1);
        let declared = match if maybe(1, 4) { 1 + ops(5) } else { 0 } {
            0 => count.to_string(),
            1 => (count + 1).to_string(),
            2 => count.saturating_sub(1).to_string(),
            3 => "0".into(),
            4 => {
                rt::fault(F_HUGE);
                HUGE[ops(HUGE.len() as u32) as usize].into()
            }
            _ => ODD[ops(ODD.len() as u32) as usize].into(),
        };
        o.push_str(&declared);
        o.push_str(eol);
        for _ in 0..count {
            line(&mut o, n);
        }
    }
    for _ in 0..if maybe(1, 3) { ops(4) } else { 0 } {
        let n = [4, 2, 1][ops(3) as usize];
        line(&mut o, n);
    }
    if maybe(1, 4) {
        while o.ends_with(['\n', '\r']) {
            o.pop();
        }
    }
    o
}

/// what storage and transport do to the data
fn damage(mut d: Vec<u8>) -> Vec<u8> {
    let lines = |d: &[u8]| -> Vec<Vec<u8>> { d.split_inclusive(|b| *b == b'\n').map(|x| x.to_vec()).collect() };
    for _ in 0..if flt_maybe(1, 2) { 1 + flt(3) } else { 0 } {
        if d.is_empty() {
            break;
        }
        let n = d.len() as u32;
        match flt(7) {
            0 => {
                rt::fault(F_TRUNC);
                d.truncate(flt(n) as usize);
            }
            1 => {
                rt::fault(F_CORRUPT);
                let k = flt(n) as usize;
                d[k] = if flt_maybe(1, 2) { b" \n\r0159-+x."[flt(11) as usize] } else { d[k] ^ (1 << flt(7)) };
            }
            2 => {
                rt::fault(F_LOST);
                let a = flt(n) as usize;
                let b = (a + 1 + flt(20) as usize).min(d.len());
                d.drain(a..b);
            }
            3 => {
                rt::fault(F_DUP);
                let a = flt(n) as usize;
                let b = (a + 1 + flt(20) as usize).min(d.len());
                let c = d[a..b].to_vec();
                d.splice(b..b, c);
            }
            4 | 5 => {
                let mut l = lines(&d);
                let k = flt(l.len() as u32) as usize;
                match flt(3) {
                    0 => {
                        rt::fault(F_LOST);
                        l.remove(k);
                    }
                    1 => {
                        rt::fault(F_DUP);
                        let c = l[k].clone();
                        l.insert(k, c);
                    }
                    _ => {
                        rt::fault(F_REORDER);
                        let j = flt(l.len() as u32) as usize;
                        l.swap(k, j);
                    }
                }
                d = l.concat();
            }
            _ => {
                rt::fault(F_UTF8);
                let bad: &[u8] = [&[0xff][..], &[0xc3], &[0x80], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f]][flt(5) as usize];
                let k = flt(n + 1) as usize;
                d.splice(k..k, bad.iter().copied());
            }
        }
    }
    d
}

fn show(d: &[u8]) -> String {
    let mut s = String::from_utf8_lossy(&d[..d.len().min(600)]).escape_debug().to_string();
    if d.len() > 600 {
        s.push_str("...");
    }
    s
}

/// what a complete, healthy delivery of the data has to yield
fn expected(d: &[u8]) -> (Text, End) {
    let (t, e) = parse(d);
    if matches!(e, End::Decided(_)) {
        rt::probe(P_MALFORMED);
    }
    if !t.p.is_empty() {
        rt::probe(P_POINTS);
    }
    if !t.s.is_empty() {
        rt::probe(P_SEGS);
    }
    (t, e)
}
fn check_healthy(what: &str, got: &Out, t: &Text, e: &End) {
    match (e, got) {
        (End::BadUtf8(_), Out::Ok(g)) => fail!("utf8", "{what}: a line that isn't UTF-8 was passed over, {} points and {} lines returned", g.p.len(), g.s.len()),
        (End::BadUtf8(_), _) => {}
        (_, Out::Ok(g)) if g == t => {}
        _ => fail!("result", "{what}: got {got:?} instead of {t:?}"),
    }
}

// ---------------------------------------------------------------------------------------------
// C01

/// the offset of the fault: any, or close to the end of a line
fn fault_offset(d: &[u8]) -> usize {
    let n = d.len();
    if flt_maybe(1, 2) {
        let ends: Vec<usize> = (0..n).filter(|i| d[*i] == b'\n').collect();
        if !ends.is_empty() {
            let e = ends[flt(ends.len() as u32) as usize];
            return (e + flt(3) as usize).min(n);
        }
    }
    flt(n as u32 + 1) as usize
}

fn faulted(d: &[u8], at: usize, f: Fault, got: &Out) {
    let prefix = &d[..at];
    let (t, e) = parse(prefix);
    let kind = f.kind();
    let complete = |o: usize| o > 0 && prefix[o - 1] == b'\n';
    let is_fault = |o: &Out| matches!(o, Out::Io(k) if *k == kind);
    match e {
        End::Decided(o) if complete(o) => {
            rt::probe(P_DECIDED);
            let late = prefix[o..].contains(&b'\n');
            if *got == Out::Ok(t.clone()) || (!late && is_fault(got)) {
                return;
            }
            fail!("decided", "the outcome was decided at offset {o}, the fault comes at {at}; got {got:?} instead of {t:?}");
        }
        End::BadUtf8(o) => {
            if matches!(got, Out::Ok(_)) {
                fail!("utf8", "a line that isn't UTF-8 (ends at {o}) was passed over: {got:?}");
            }
        }
        _ => {
            if !is_fault(got) {
                fail!("masked", "the source failed with {kind:?} at offset {at}, before the data was complete; got {got:?}");
            }
        }
    }
}

fn c01() {
    swarm_env();
    for _ in 0..1 + ops(3) {
        let mut d = text(6).into_bytes();
        if flt_maybe(1, 5) {
            d = damage(d);
        }
        let at = fault_offset(&d);
        let f = Fault::draw();
        let mut plan = Plan::of(d.clone());
        plan.fail_at = Some((at, f));
        plan.persistent = !flt_maybe(1, 3);
        plan.vary();
        let cap = CAPS[ops(CAPS.len() as u32) as usize];
        ev!("text {} fails at {at} with {f:?} persistent {} capacity {cap} {}", show(&d), plan.persistent, plan.chunk);
        let mut src = Source::new(plan);
        let got = if ops(2) == 0 { read_plain::<i64>(&mut src, cap) } else { read_plain::<i32>(&mut src, cap) };
        ev!("-> {got:?}");
        if src.log.errors == 0 {
            // never reached
            let (t, e) = expected(&d);
            check_healthy("fault not reached", &got, &t, &e);
        }
        faulted(&d, at, f, &got);
    }
}

// ---------------------------------------------------------------------------------------------
// C02

fn c02() {
    swarm_env();
    for _ in 0..1 + ops(3) {
        let mut d = text(6).into_bytes();
        let mut plan;
        let mut decided = None;
        let mode = flt(4);
        match mode {
            // endless
            0 | 1 => {
                if !d.ends_with(b"\n") {
                    d.push(b'\n');
                }
                let mut tail = String::new();
                for _ in 0..1 + flt(3) {
                    let n = [4, 1, 2, 3][flt(4) as usize];
                    let mut l = String::new();
                    for i in 0..n {
                        if i > 0 {
                            l.push(' ');
                        }
                        l.push_str(NUMBERS[flt(NUMBERS.len() as u32) as usize]);
                    }
                    if flt_maybe(1, 8) {
                        l = ODD[flt(ODD.len() as u32) as usize].to_string();
                    }
                    tail.push_str(&l);
                    tail.push('\n');
                }
                let mut all = d.clone();
                for _ in 0..60 {
                    all.extend_from_slice(tail.as_bytes());
                }
                let (t, e) = parse(&all);
                match e {
                    End::Decided(o) if o < all.len() - 2 * tail.len() => {
                        let next = all[o..].iter().position(|b| *b == b'\n').map(|k| o + k + 1).unwrap_or(all.len());
                        decided = Some((t, next));
                    }
                    _ => continue, // legitimately goes on for ever
                }
                plan = Plan::of(d.clone());
                plan.endless = tail.into_bytes();
            }
            // an error that persists
            2 => {
                plan = Plan::of(d.clone());
                plan.fail_at = Some((fault_offset(&d), Fault::draw()));
            }
            _ => plan = Plan::of(d.clone()),
        }
        plan.vary();
        let cap = CAPS[ops(CAPS.len() as u32) as usize];
        ev!("text {} endless {} capacity {cap} mode {mode}", show(&d), show(&plan.endless));
        let fails = plan.fail_at;
        let endless = !plan.endless.is_empty();
        let mut src = Source::new(plan);
        let upto = decided.as_ref().map(|x| x.1).unwrap_or(d.len());
        rt::alloc::limit((64 << 10) + 64 * upto + 3 * cap);
        rt::set_budget(2_000_000 + 20_000 * (upto + cap) as u64);
        let start = rt::steps();
        let got = if ops(2) == 0 { read_plain::<i64>(&mut src, cap) } else { read_plain::<i32>(&mut src, cap) };
        rt::set_budget(DEFAULT_BUDGET);
        rt::alloc::limit(2 << 30);
        ev!("-> {got:?} after {} steps, {:?}", rt::steps() - start, src.log);
        if src.log.errors > 3 {
            fail!("polling", "the source was polled again after it failed, {} times", src.log.errors);
        }
        if src.log.eofs > 4 {
            fail!("polling", "the source was polled {} times after its end", src.log.eofs);
        }
        if endless {
            let (t, next) = decided.unwrap();
            if src.log.bytes > (next + cap) as u64 {
                fail!("reads-on", "{} bytes were taken from the source, the outcome was decided at {next}", src.log.bytes);
            }
            if got != Out::Ok(t.clone()) {
                fail!("result", "got {got:?} instead of {t:?}");
            }
        } else if let Some((at, f)) = fails {
            faulted(&d, at, f, &got);
        } else {
            let (t, e) = expected(&d);
            check_healthy("read", &got, &t, &e);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C03

fn read_varied<I: Int>(d: &[u8], plan: Plan, cap: usize, header: usize) -> Out {
    // the header is taken by the caller, the reader gets the rest (in part already buffered)
    let mut src = Source::new(plan);
    let r = lib_catch(|| {
        let mut b = BufReader::with_capacity(cap, &mut src);
        let mut skipped = 0;
        while skipped < header {
            let n = match b.fill_buf() {
                Ok(x) => x.len().min(header - skipped),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(e) => return Err(e.into()),
            };
            if n == 0 {
                break;
            }
            b.consume(n);
            skipped += n;
        }
        boostvoronoi::read_boost_input_buffer::<I, _>(b)
    });
    let _ = d;
    out::<I>(unwrap_caught("read", r))
}

/// a read of another input that fails or is abandoned half-way
fn disturbance() -> Option<(Plan, usize)> {
    if !flt_maybe(1, 3) {
        return None;
    }
    let d = text(6).into_bytes();
    let mut plan = Plan::of(d.clone());
    plan.vary();
    if flt_maybe(1, 4) {
        plan.crash_at = Some(flt(8) as u64);
    } else {
        plan.fail_at = Some((flt(d.len() as u32 + 1) as usize, Fault::draw()));
    }
    let cap = CAPS[ops(CAPS.len() as u32) as usize];
    ev!("before: a read of {} that fails at {:?} crashes at {:?} capacity {cap}", show(&d), plan.fail_at, plan.crash_at);
    Some((plan, cap))
}
fn disturb(x: &Option<(Plan, usize)>) {
    if let Some((plan, cap)) = x {
        let mut src = Source::new(plan.clone());
        match lib_catch(|| boostvoronoi::read_boost_input_buffer::<i32, _>(BufReader::with_capacity(*cap, &mut src))) {
            Caught::Panicked(m) => fail!("panic", "read: {m}"),
            Caught::Crashed => {}
            Caught::Done(r) => drop(r),
        }
    }
}

fn c03() {
    swarm_env();
    let n = 1 + ops(3) as usize;
    let mut cases = Vec::new();
    for i in 0..n {
        let d = damage(text(if maybe(1, 10) { 300 } else { 8 }).into_bytes());
        let (t, e) = expected(&d);
        let header: Vec<u8> = if maybe(1, 3) { b"# header 1 2\n"[..1 + ops(13) as usize].to_vec() } else { vec![] };
        let mut all = header.clone();
        all.extend_from_slice(&d);
        let mut plan = Plan::of(all);
        plan.vary();
        let cap = CAPS[ops(CAPS.len() as u32) as usize];
        let types = ops(2);
        ev!("source {i}: {} header {} capacity {cap} chunks {} types {types}: {t:?} {e:?}", show(&d), header.len(), plan.chunk);
        cases.push((d, t, e, plan, cap, header.len(), types, disturbance()));
    }
    let run = |c: &(Vec<u8>, Text, End, Plan, usize, usize, u32, Option<(Plan, usize)>)| {
        let (d, t, e, plan, cap, h, types, before) = c;
        disturb(before);
        let got = match types {
            0 => read_varied::<i64>(d, plan.clone(), *cap, *h),
            _ => read_varied::<i32>(d, plan.clone(), *cap, *h),
        };
        check_healthy("varied delivery", &got, t, e);
    };
    if n > 1 && sch(3) == 2 {
        // all of them at the same time
        let gap = gap();
        let jobs = cases.iter().map(|c| Job { stack: 1 << 20, f: Box::new(move || run(c)) }).collect();
        run_threads(gap, jobs);
    } else {
        cases.iter().for_each(run);
    }
    // all at once, from memory, as the examples do it
    let (d, t, e, ..) = &cases[0];
    let r = lib_catch(|| boostvoronoi::read_boost_input_buffer::<i64, _>(BufReader::new(std::io::Cursor::new(&d[..]))));
    check_healthy("delivery at once", &out::<i64>(unwrap_caught("read", r)), t, e);
}

// ---------------------------------------------------------------------------------------------
// C04

fn c04() {
    swarm_env();
    const PATHS: [&str; 3] = ["/simdisk/a.txt", "/simdisk/b", "/simdisk/sub/c d.txt"];
    for round in 0..1 + ops(3) {
        let d = damage(text(6).into_bytes());
        let mut plan = Plan::of(d.clone());
        plan.vary();
        let path = PATHS[ops(3) as usize];
        let mut f = File::new(path, plan);
        let mut must_fail = None; // Some(None): any error
        let mut io_fault = None;
        match flt(12) {
            0 => {
                f.open_error = [13, 24, 5, 12, 116][flt(5) as usize];
                must_fail = Some(Some(std::io::Error::from_raw_os_error(f.open_error).kind()));
            }
            1 => {
                f.stat_error = [13, 5, 40][flt(3) as usize];
                must_fail = Some(None);
            }
            2 => {
                f.vanish = true;
                must_fail = Some(None);
            }
            3 => {
                f.mode = 0o040755; // a directory
                rt::fault(F_OPEN);
                must_fail = Some(None);
            }
            4 => {
                f.mode = 0;
                rt::fault(F_OPEN);
                must_fail = Some(None);
            }
            5..=7 => {
                let e = Fault::Os(Fault::draw_os());
                let at = fault_offset(&d);
                f.plan.fail_at = Some((at, e));
                f.plan.persistent = !flt_maybe(1, 3);
                io_fault = Some((at, e));
            }
            8 => {
                // the size reported for the file is wrong (it grows or shrinks meanwhile)
                f.size = [0, 1, 1 << 20, 1 << 40, u64::MAX >> 1][flt(5) as usize];
                rt::fault(F_STAT);
            }
            _ => {}
        }
        f.open_eintr = if flt_maybe(1, 4) { 1 + flt(3) } else { 0 };
        ev!("file {path} mode {:o} size {} {} fault {io_fault:?} chunks {} {}", f.mode, f.size, show(&d), f.plan.chunk, round);
        let k = disk();
        k.files.clear();
        k.files.push(f);
        let (opens, closes) = (k.opens, k.closes);
        rt::alloc::limit((256 << 10) + 64 * d.len());
        let got = if ops(2) == 0 {
            out::<i64>(unwrap_caught("file", lib_catch(|| boostvoronoi::read_boost_input_file::<i64>(std::path::Path::new(path)))))
        } else {
            out::<i32>(unwrap_caught("file", lib_catch(|| boostvoronoi::read_boost_input_file::<i32>(std::path::Path::new(path)))))
        };
        rt::alloc::limit(2 << 30);
        let k = disk();
        ev!("-> {got:?}");
        if k.opens - opens != k.closes - closes || k.bad_closes > 0 {
            fail!("descriptor", "{} files opened, {} closed, {} bad closes", k.opens - opens, k.closes - closes, k.bad_closes);
        }
        match must_fail {
            Some(want) => match (&got, want) {
                (Out::Ok(_), _) => fail!("masked", "a file that can't be read yields {got:?}"),
                (Out::Io(k), Some(w)) if *k != w => fail!("kind", "the open failed with {w:?}, reported is {got:?}"),
                (Out::Other(_), Some(w)) => fail!("kind", "the open failed with {w:?}, reported is {got:?}"),
                _ => {}
            },
            None => {
                if let Some((at, e)) = io_fault {
                    faulted(&d, at, e, &got);
                } else {
                    let (t, e) = expected(&d);
                    check_healthy("file", &got, &t, &e);
                    // the same bytes as a stream
                    let mut src = Source::new(Plan::of(d.clone()));
                    let s = read_plain::<i64>(&mut src, 8192);
                    if s != got && !matches!((&s, &got), (Out::Io(_) | Out::Other(_), Out::Io(_) | Out::Other(_))) {
                        fail!("file-stream", "the file yields {got:?}, the same bytes as a stream {s:?}");
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C05

fn c05() {
    swarm_env();
    let c = &mut disk().console;
    c.error = [0, 32 /*EPIPE*/, 28 /*ENOSPC*/, 5 /*EIO*/, 11 /*EAGAIN*/, 9 /*EBADF*/, 27][flt(7) as usize];
    c.from = if flt_maybe(1, 2) { flt(4) as u64 } else { 0 };
    c.short = flt_maybe(1, 3);
    c.eintr = if flt_maybe(1, 3) { 1 + flt(8) } else { 0 };
    c.yields = true;
    ev!("console: errno {} from write {} short {} eintr {}", c.error, c.from, c.short, c.eintr);
    let n = 1 + ops(4) as usize;
    let mut cases = Vec::new();
    for _ in 0..n {
        // these draw diagnostics
        let mut d = text(5);
        if maybe(2, 3) {
            let mut l: Vec<String> = d.split_inclusive('\n').map(|x| x.to_string()).collect();
            let k = ops(l.len() as u32 + 1) as usize;
            l.insert(k, format!("{}\n", ODD[ops(ODD.len() as u32) as usize]));
            d = l.concat();
        }
        if maybe(1, 10) {
            // a long line in a diagnostic
            d = format!("{}{}\n{d}", "z".repeat(1 + ops(5000) as usize), "\u{e9}");
        }
        let d = d.into_bytes();
        let (t, e) = expected(&d);
        ev!("text {}: {t:?} {e:?}", show(&d));
        cases.push((d, t, e, ops(2)));
    }
    let run = |c: &(Vec<u8>, Text, End, u32)| {
        let (d, t, e, types) = c;
        let mut src = Source::new(Plan::of(d.clone()));
        let got = if *types == 0 { read_plain::<i64>(&mut src, 8192) } else { read_plain::<i32>(&mut src, 64) };
        check_healthy("with a failing console", &got, t, e);
    };
    match sch(3) {
        0 | 1 => cases.iter().for_each(run),
        _ => {
            // several readers and a client that occupies stdout/stderr for a while
            let gap = gap();
            let run = &run;
            let mut jobs: Vec<Job> = cases.iter().map(|c| Job { stack: 1 << 20, f: Box::new(move || run(c)) }).collect();
            let which = ops(2);
            jobs.push(Job {
                stack: 1 << 20,
                f: Box::new(move || {
                    use std::io::Write;
                    let hold = |w: &mut dyn Write| {
                        let _ = w.write(b"other client\n");
                        for _ in 0..4 {
                            yield_now();
                        }
                        let _ = w.flush();
                    };
                    if which == 0 {
                        hold(&mut std::io::stdout().lock())
                    } else {
                        hold(&mut std::io::stderr().lock())
                    }
                }),
            });
            run_threads(gap, jobs);
        }
    }
}

pub fn props() -> Vec<Prop> {
    let stub = "the byte source (a simulated medium delivering chunks, interruptions, errors), heap and hash entropy";
    vec![
        Prop {
            id: "C01", run: c01, quick: 120_000, thorough: 2_000_000,
            rule: "1-3 reads per run of a generated text (valid, mis-declared, malformed, damaged) from a simulated source that fails at a drawn offset (line boundaries preferred), once or for good, with one of 22 errors; chunking, EINTR, buffer capacity drawn; the oracle is the reference grammar applied to the bytes delivered before the fault",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C02", run: c02, quick: 120_000, thorough: 2_000_000,
            rule: "1-3 reads per run from endless sources (after the outcome is decided), persistently failing sources, sources with huge declared counts; limits on steps, reads after an error/the end, bytes taken and memory in use",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C03", run: c03, quick: 90_000, thorough: 1_500_000,
            rule: "1-3 sources per run, texts damaged by truncation/corruption/loss/duplication/reordering/invalid UTF-8, delivered in drawn chunks with interruptions through drawn buffer capacities, partly consumed beforehand, one after the other or from preempted threads; compared with the reference grammar",
            real: REAL_LIB, stub,
        },
        Prop {
            id: "C04", run: c04, quick: 120_000, thorough: 2_000_000,
            rule: "1-3 files per run on a simulated disk: failing stat/open, directories, files that vanish or lie about their size, short reads, EINTR, read errors; compared with the reference grammar and the stream entry point, descriptors counted",
            real: REAL_LIB, stub: "the file system below open/statx/read/lseek/close (simulated disk), heap and hash entropy",
        },
        Prop {
            id: "C05", run: c05, quick: 120_000, thorough: 2_000_000,
            rule: "1-4 texts that draw diagnostics, on a console whose writes fail, are short or interrupted, one after the other or from preempted threads competing for the console with another client; outcome compared with the reference grammar",
            real: REAL_LIB, stub: "the console below write(1)/write(2), the byte source, futexes of simulated threads, heap and hash entropy",
        },
    ]
}
