//! Peers editing concurrently.
use crate::api::*;
use crate::world::*;

pub fn edit(w: &mut World, i: usize, del: bool) {
    if del {
        assume(w.p[i].len > 0);
        cover(1);
        w.any_delete(i);
    } else {
        cover(0);
        w.any_insert(i);
    }
}

/// peer `i` receives, in order of creation, everything it lacks
pub fn receive(w: &mut World, i: usize) -> bool {
    let mut any = false;
    for ix in 0..w.e.len() {
        if (w.p[i].have | w.p[i].wait) & (1 << ix) == 0 {
            w.deliver(ix, i);
            any = true;
        }
    }
    any
}

/// `k` steps; in each one of the peers inserts, deletes, or receives all it lacks
pub fn steps(focus: u32, ids: &[u64], k: usize, len0: u64) {
    let len = sym(len0, MAXLEN);
    let mut w = World::new(focus | OBS, ids, len);
    for step in 0..k {
        any(&mut w, step > 0 && step + 1 < k);
    }
    w.settle();
    w.converged();
}

/// any peer does anything
pub fn any(w: &mut World, recv: bool) {
    let n = w.p.len();
    let c = choose(if recv { 3 * n } else { 2 * n });
    let (i, what) = (c % n, c / n);
    if what < 2 {
        edit(w, i, what == 1);
    } else {
        assume(receive(w, i));
        cover(2);
    }
}

/// A history given by a script: `i0` `d0` `e0` insertion, deletion, either at
/// peer 0; `g0` peer 0 receives all; `S` everyone receives all; `I` `X` `E` any peer
/// inserts, deletes, edits; `*` any peer does anything; `j0` `k0` peer 0 inserts 3 characters at 2, appends 2; `l0` `m0` deletes
/// 1..3, 2..6; `f0` `x0` a new peer is forked / decoded from
/// peer 0; `c0` calls on 0 are repeated on a clone; `a0` peer 0 makes an anchor,
/// `A` any peer does; `L0` a stranger with a large clock inserts into what peer 0
/// has; `T0` inserts 20 times at 2, `Y0` appends 9 times while the next peer
/// deletes what it receives of it, `Z0` appends 3 times and hears from the next
/// peer in between, so that its runs are adjacent; `r` all peers resolve all anchors
pub fn run(w: &mut World, script: &str) {
    let b = script.as_bytes();
    let mut k = 0;
    while k < b.len() {
        let c = b[k];
        let i = if k + 1 < b.len() { (b[k + 1].wrapping_sub(b'0')) as usize } else { 0 };
        match c {
            b'i' => edit(w, i, false),
            b'd' => edit(w, i, true),
            b'e' => edit(w, i, choose(2) == 1),
            b'g' => {
                receive(w, i);
            }
            b'S' => w.settle(),
            b'D' => {
                for j in 0..w.p.len() {
                    w.drain(j);
                }
            }
            b'E' => any(w, false),
            b'I' | b'X' => {
                let n = w.p.len();
                let i = choose(n);
                edit(w, i, c == b'X')
            }
            b'*' => any(w, true),
            b'j' => {
                assume(w.p[i].len >= 2);
                w.insert(i, 2, 3);
            }
            b'k' => {
                let n = w.p[i].len;
                w.insert(i, n, 2);
            }
            b'l' => {
                assume(w.p[i].len >= 4);
                w.delete(i, 1, 3);
            }
            b'm' => {
                assume(w.p[i].len >= 6);
                w.delete(i, 2, 6);
            }
            b'a' => w.any_anchor(i),
            b'A' => {
                let n = w.p.len();
                let i = choose(n);
                w.any_anchor(i)
            }
            b'r' => w.resolve(),
            b'L' => {
                w.stranger(i);
            }
            // twenty insertions at one place
            b'T' => {
                for _ in 0..20 {
                    let off = (w.p[i].len).min(2);
                    w.insert(i, off, 1);
                }
            }
            // a run of nine pieces, each cut by the next peer before the next
            b'Y' => {
                let n = w.p.len();
                for _ in 0..9 {
                    let off = w.p[i].len;
                    w.insert(i, off, 2);
                    let j = (i + 1) % n;
                    receive(w, j);
                    let off = w.p[j].len;
                    w.delete(j, off - 1, off);
                }
            }
            // adjacent runs of one author
            b'Z' => {
                let n = w.p.len();
                let j = (i + 1) % n;
                for r in 0..3 {
                    let off = w.p[i].len;
                    w.insert(i, off, 2);
                    receive(w, j);
                    if r < 2 {
                        w.insert(j, 0, 1);
                        receive(w, i);
                    }
                }
            }
            // from here on insertions are short
            b'o' => w.max = 20,
            b'f' => {
                let id = 100 + w.p.len() as u64;
                w.fork(i, id);
            }
            b'x' => {
                let id = 100 + w.p.len() as u64;
                w.recode(i, id);
            }
            b'c' => w.clone_peer(i),
            _ => {}
        }
        k += 1;
        if k < b.len() && (b[k] >= b'0' && b[k] <= b'9') {
            k += 1;
        }
    }
}

pub fn script(focus: u32, ids: &[u64], max: u64, s: &str) {
    let len = sym(0, max);
    let mut w = World::new(focus | OBS, ids, len);
    w.max = max;
    run(&mut w, s);
    w.settle();
    if !w.a.is_empty() {
        w.resolve();
    }
    w.converged();
}

/// the edits made by script `s` among the first peers reach the last one in any
/// order, with draining and up to `dup` repeated deliveries at any moment
pub fn reorder(focus: u32, ids: &[u64], s: &str, own: bool, dup: usize, after: &str) {
    let len = sym(0, MAXLEN);
    let mut w = World::new(focus | OBS, &ids[..ids.len() - 1], len);
    let last = ids[ids.len() - 1];
    // the receiver knows the initial text only
    let j = w.fork(0, last);
    let p = w.p.remove(j);
    run(&mut w, s);
    w.p.push(p);
    if own {
        edit(&mut w, j, false);
    }
    deliveries(&mut w, j, dup);
    w.drain(j);
    run(&mut w, after);
    w.settle();
    w.converged();
}

/// any edit reaches any peer that knows it, its author included, once more:
/// before and after everyone has everything
pub fn again(ids: &[u64], s: &str) {
    let len = sym(0, MAXLEN);
    let mut w = World::new(CONV | FIT | OBS, ids, len);
    run(&mut w, s);
    repeated(&mut w);
}

pub fn repeated(w: &mut World) {
    let once_more = |w: &mut World, all: bool| {
        let mut opts = vec![];
        for j in 0..w.p.len() {
            for ix in 0..w.e.len() {
                if (w.p[j].have | w.p[j].wait) & (1 << ix) != 0 {
                    opts.push((ix, j));
                }
            }
        }
        if all {
            for (ix, j) in opts {
                w.deliver(ix, j);
            }
        } else if !opts.is_empty() {
            let (ix, j) = opts[choose(opts.len())];
            w.deliver(ix, j);
            cover(4);
        }
    };
    once_more(w, false);
    w.settle();
    once_more(w, true);
    for j in 0..w.p.len() {
        w.drain(j);
    }
    w.converged();
}

/// some of the edits made by `s` reach the last peer, in any order; then it is
/// forked, encoded and decoded, or cloned (`how`), and everything else arrives
pub fn late(focus: u32, ids: &[u64], max: u64, s: &str, how: &str, after: &str) {
    let len = sym(0, max);
    let mut w = World::new(focus | OBS, &ids[..ids.len() - 1], len);
    w.max = max;
    let j = w.fork(0, ids[ids.len() - 1]);
    let p = w.p.remove(j);
    run(&mut w, s);
    w.p.push(p);
    loop {
        let known = w.p[j].have | w.p[j].wait;
        let mut opts = vec![w.e.len()];
        for ix in 0..w.e.len() {
            if known & (1 << ix) == 0 {
                opts.push(ix);
            }
        }
        let c = opts[choose(opts.len())];
        if c == w.e.len() {
            break;
        }
        w.deliver(c, j);
    }
    if w.p[j].wait != 0 {
        cover(5);
    }
    for c in how.bytes() {
        let id = 100 + w.p.len() as u64;
        match c {
            b'f' => {
                w.fork(j, id);
            }
            b'x' => {
                w.recode(j, id);
            }
            _ => w.clone_peer(j),
        }
    }
    run(&mut w, after);
    w.settle();
    w.converged();
}

/// all edits reach peer `j` in any order
pub fn deliveries(w: &mut World, j: usize, mut dup: usize) {
    let mut drained = true;
    // something was put in the backlog (a copy of an edit may be left there)
    let mut waited = false;
    loop {
        let n = w.e.len();
        let known = w.p[j].have | w.p[j].wait;
        let mut opts: Vec<usize> = vec![];
        let mut fresh = false;
        for ix in 0..n {
            if known & (1 << ix) == 0 {
                opts.push(ix);
                fresh = true;
            } else if dup > 0 {
                opts.push(ix);
            }
        }
        if !fresh && dup == 0 {
            return;
        }
        // draining again only makes sense after a delivery
        if waited && !drained {
            opts.push(n);
        }
        if !fresh {
            // stop here
            opts.push(n + 1);
        }
        let c = opts[choose(opts.len())];
        if c == n + 1 {
            return;
        }
        if c == n {
            w.drain(j);
            drained = true;
            cover(3);
        } else {
            if known & (1 << c) != 0 {
                dup -= 1;
                cover(4);
            }
            w.deliver(c, j);
            if w.p[j].wait != 0 {
                cover(5);
                waited = true;
            }
            drained = false;
        }
    }
}
