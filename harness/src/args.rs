//! Arguments: C13.
use crate::api::*;
use crate::world::*;
use cola::*;
use std::ops::Bound::*;

fn start(s: &str) -> World {
    let len = sym(0, MAXLEN);
    let mut w = World::new(CONV | FIT, &[1, 2], len);
    crate::conc::run(&mut w, s);
    w
}

fn finish(mut w: World, s: &str) {
    crate::conc::run(&mut w, s);
    w.settle();
    w.converged();
}

/// runs `f`, which must panic exactly when `bad`
fn guarded<T>(bad: bool, code: u64, f: impl FnOnce() -> T) -> T {
    if bad {
        cover(1);
        expect_panic(true);
    } else {
        cover(0);
    }
    let r = f();
    // got through although the arguments were bad
    check(!bad, code);
    r
}

/// insertion at any offset whatsoever
pub fn insert(s: &str) {
    let mut w = start(s);
    let off = sym(0, u64::MAX);
    let n = sym(0, MAXLEN);
    let bad = off > w.p[0].len;
    let before = w.p[0].r.clone();
    if n == 0 {
        let e = guarded(bad, 1301, || w.p[0].r.inserted(off as usize, 0));
        cover(2);
        check(w.p[0].r.eq_decoded(&before) && w.p[0].r.len() as u64 == w.p[0].len, 1302);
        let b = w.p[1].r.clone();
        check(w.p[1].r.integrate_insertion(&e).is_none(), 1303);
        check(w.p[1].r.eq_decoded(&b), 1304);
        check(w.p[1].r.backlogged_insertions().next().is_none(), 1305);
        return finish(w, "EE");
    }
    if bad {
        guarded(true, 1306, || w.p[0].r.inserted(off as usize, n as usize));
        return;
    }
    w.insert(0, off, n);
    finish(w, "")
}

/// deletion of any range whatsoever, written in any way
pub fn delete(s: &str, form: usize) {
    let mut w = start(s);
    let (a, b) = (sym(0, u64::MAX), sym(0, u64::MAX));
    let (x, y) = (a as usize, b as usize);
    let len = w.p[0].len;
    // first offset and first offset after the range; none if it can't be reached
    let next = |n: u64| if n < len { Some(n + 1) } else { None };
    let upto = |n: u64| if n <= len { Some(n) } else { None };
    let (lo, hi) = match form {
        0 => (upto(a), upto(b)),
        1 => (upto(a), next(b)),
        2 => (upto(a), Some(len)),
        3 => (Some(0), upto(b)),
        4 => (Some(0), next(b)),
        5 => (Some(0), Some(len)),
        6 => (next(a), next(b)),
        7 => (next(a), upto(b)),
        8 => (next(a), Some(len)),
        9 => (upto(a), upto(b)),
        _ => (upto(a), next(b)),
    };
    let bad = match (lo, hi) {
        (Some(lo), Some(hi)) => lo > hi,
        _ => true,
    };
    let (lo, hi) = (lo.unwrap_or(0), hi.unwrap_or(0));
    let before = w.p[0].r.clone();
    let mut other = before.clone();
    let r = &mut w.p[0].r;
    let e = guarded(bad, 1311, || match form {
        0 => r.deleted(x..y),
        1 => r.deleted(x..=y),
        2 => r.deleted(x..),
        3 => r.deleted(..y),
        4 => r.deleted(..=y),
        5 => r.deleted(..),
        6 => r.deleted((Excluded(x), Included(y))),
        7 => r.deleted((Excluded(x), Excluded(y))),
        8 => r.deleted((Excluded(x), Unbounded)),
        9 => r.deleted((Included(x), Excluded(y))),
        _ => r.deleted((Included(x), Included(y))),
    });
    let same = other.deleted(lo as usize..hi as usize);
    check(e == same, 1312);
    check(w.p[0].r.len() as u64 == len - (hi - lo), 1313);
    check(w.p[0].r.eq_decoded(&other), 1314);
    if lo == hi {
        cover(2);
        check(w.p[0].r.eq_decoded(&before), 1315);
        let b = w.p[1].r.clone();
        check(w.p[1].r.integrate_deletion(&e).is_empty(), 1316);
        check(w.p[1].r.eq_decoded(&b), 1317);
        check(w.p[1].r.backlogged_deletions().next().is_none(), 1318);
        finish(w, "EE");
    }
}

pub fn anchor(s: &str) {
    let w = start(s);
    let off = sym(0, u64::MAX);
    let bias = if choose(2) == 0 { AnchorBias::Left } else { AnchorBias::Right };
    let bad = off > w.p[0].len;
    let a = guarded(bad, 1321, || w.p[0].r.create_anchor(off as usize, bias));
    check(w.p[0].r.resolve_anchor(a) == Some(off as usize), 1322);
}

/// an interesting id
fn id() -> u64 {
    match choose(3) {
        0 => 0,
        1 => sym(1, 2),
        _ => sym(1, u64::MAX),
    }
}

pub fn new() {
    let i = id();
    let len = sym(0, MAXLEN);
    let r = guarded(i == 0, 1331, || Replica::new(i, len as usize));
    check(r.id() == i && r.len() as u64 == len, 1332);
}

pub fn fork() {
    let w = start("");
    let i = id();
    let r = guarded(i == 0 || i == w.p[0].id, 1333, || w.p[0].r.fork(i));
    check(r.id() == i && r.len() as u64 == w.p[0].len, 1334);
}

pub fn decode() {
    let i = id();
    let r = Replica::new(1, sym(0, 20) as usize);
    let e = r.encode();
    let d = guarded(i == 0, 1335, || Replica::decode(i, &e));
    match d {
        Ok(d) => check(d.id() == i && d.len() == r.len(), 1336),
        Err(_) => check(false, 1337),
    }
}
