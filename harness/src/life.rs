//! Lifetimes: C17. The engine tracks every allocation and access; here
//! everything is dropped in all kinds of states.
use crate::api::*;
use crate::world::*;

/// whatever `f` allocates is freed when it returns
pub fn clean(f: impl FnOnce()) {
    let before = live();
    f();
    check(live() == before, 1701);
}

/// a history, then everything is dropped
pub fn script(ids: &[u64], max: u64, s: &str) {
    clean(|| crate::conc::script(INV, ids, max, s));
}

pub fn big(ids: &[u64], shape: usize, n: usize, s: &str) {
    clean(|| crate::big::then(INV, ids, shape, n, s));
}

/// the edits made by `s` arrive in any order; at any moment some of the waiting
/// ones are taken out, or none, or the iterator is leaked
pub fn partial(s: &str, leak: bool) {
    let before = live();
    let mut leaked = false;
    {
        let len = sym(4, MAXLEN);
        let mut w = World::new(0, &[1, 2], len);
        let mut r = w.p[0].r.fork(9);
        crate::conc::run(&mut w, s);
        let n = w.e.len();
        let mut todo: u32 = (1 << n) - 1;
        while todo != 0 {
            let mut opts = vec![];
            for k in 0..n {
                if todo & (1 << k) != 0 {
                    opts.push(k);
                }
            }
            let k = opts[choose(opts.len())];
            todo &= !(1 << k);
            match &w.e[k].what {
                What::I(i) => {
                    let _ = r.integrate_insertion(&i.e);
                }
                What::D(d) => {
                    let _ = r.integrate_deletion(&d.e);
                }
            }
            // a clone, dropped at once or after the original
            match choose(if leak { 7 } else { 5 }) {
                0 => {}
                1 => {
                    r.backlogged_insertions().next();
                }
                2 => {
                    r.backlogged_deletions().next();
                }
                3 => {
                    let c = r.clone();
                    let old = std::mem::replace(&mut r, c);
                    drop(old);
                }
                4 => {
                    let mut it = r.backlogged_deletions();
                    it.next();
                    it.next();
                    drop(it);
                    let mut it = r.backlogged_insertions();
                    it.next();
                    it.next();
                }
                5 => {
                    let mut it = r.backlogged_insertions();
                    it.next();
                    std::mem::forget(it);
                    leaked = true;
                }
                _ => {
                    let mut it = r.backlogged_deletions();
                    it.next();
                    std::mem::forget(it);
                    leaked = true;
                }
            }
        }
        loop {
            let a = r.backlogged_insertions().count();
            let b = r.backlogged_deletions().count();
            if a + b == 0 {
                break;
            }
        }
        r.assert_invariants();
        w.settle();
        check(r.len() == w.p[0].r.len(), 1702);
    }
    if !leaked {
        check(live() == before, 1701);
    }
}

/// encodings outlive their replicas, anchors and edits too
pub fn mixed(s: &str) {
    clean(|| {
        let len = sym(0, 20);
        let mut w = World::new(0, &[1, 2], len);
        w.max = 20;
        crate::conc::run(&mut w, s);
        let e = w.p[0].r.encode();
        let t = e.to_static();
        let f = w.p[1].r.fork(7);
        let es = w.e.clone();
        let aa = w.a.clone();
        drop(w);
        drop(e);
        if let Ok(mut d) = cola::Replica::decode(8, &t) {
            drop(t);
            for x in &es {
                match &x.what {
                    What::I(i) => {
                        let _ = d.integrate_insertion(&i.e);
                    }
                    What::D(i) => {
                        let _ = d.integrate_deletion(&i.e);
                    }
                }
            }
            for a in &aa {
                d.resolve_anchor(a.a);
                f.resolve_anchor(a.a);
            }
            check(d.clone().eq_decoded(&d), 1703);
        } else {
            check(false, 1704);
        }
    });
}
