//! Documents made of many runs. They are grown by fixed histories; what comes
//! after that is symbolic.
use crate::api::*;
use crate::world::*;

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}

/// a document of one of several shapes, made in `n` steps
/// 0 one author writes all over the place
/// 1 a long run broken into pieces by someone else's insertions, all over it
/// 2 every other piece of a long run deleted
/// 3 two authors append in turns
/// 4 two authors prepend in turns
/// 5 everyone inserts and deletes anywhere
/// 6 one author keeps writing into the middle of the own text
/// 7 like 1, from the end to the start
/// 8 like 5, mostly deletions of pieces of a long run, by everyone
/// 9 one author appends in a single run whose end someone else keeps deleting
/// 10 everyone inserts at the same place without having seen the others
/// 11 like 10, all insertions next to one piece of a run cut into many
#[inline(never)]
pub fn grow(w: &mut World, shape: usize, n: usize) {
    let mut g = Rng(shape as u64 * 77 + 5);
    let np = w.p.len();
    let sync = |w: &mut World| {
        w.settle();
        w.forget();
    };
    for k in 0..n as u64 {
        let i = k as usize % np;
        match shape {
            0 => {
                let off = g.below(w.p[0].len + 1);
                w.insert(0, off, 3);
            }
            1 => {
                // the spot is in the first piece of the run, the middle one or the last
                let len = w.p[np - 1].len;
                let off = 2 + g.below(len - 4);
                w.insert(np - 1, off, 2);
            }
            2 => {
                let off = 3 * k + 2;
                w.delete(0, off, off + 3);
            }
            3 => {
                let off = w.p[i].len;
                w.insert(i, off, 2);
                sync(w);
            }
            4 => {
                w.insert(i, 0, 2);
                sync(w);
            }
            5 => {
                let len = w.p[i].len;
                if g.below(4) == 0 && len > 6 {
                    let off = g.below(len - 6);
                    let d = 1 + g.below(5);
                    w.delete(i, off, off + d);
                } else {
                    let off = g.below(len + 1);
                    w.insert(i, off, 1 + k % 5);
                }
            }
            6 => {
                let off = w.p[0].len / 2;
                w.insert(0, off, 4);
            }
            7 => {
                let off = w.p[np - 1].len - 3 * k - 5;
                w.insert(np - 1, off, 1);
            }
            9 => {
                let off = w.p[0].len;
                w.insert(0, off, 3);
                let off = w.p[1].len;
                let e = w.e.len() - 1;
                w.deliver(e, 1);
                w.delete(1, off + 1, off + 3);
            }
            10 => {
                w.insert(i, 2, 1 + k % 3);
            }
            11 => {
                let off = if k % 3 == 0 { 4 * k + 5 } else { 4 };
                w.insert(i, off, 1 + k % 3);
            }
            _ => {
                let len = w.p[i].len;
                let off = g.below(len - 8);
                if k % 5 == 4 {
                    w.insert(i, off, 2);
                } else {
                    w.delete(i, off, off + 2 + g.below(2));
                }
            }
        }
        if w.e.len() >= if shape >= 9 { 28 } else { 16 } {
            sync(w);
        }
    }
    sync(w);
}

fn base(shape: usize, n: usize) -> u64 {
    match shape {
        1 | 7 => 6 * n as u64 + 20,
        2 | 8 | 11 => 12 * n as u64 + 20,
        5 => 20,
        6 => 8,
        _ => 4,
    }
}

/// peers that all hold a document of that shape
pub fn grown(focus: u32, ids: &[u64], shape: usize, n: usize) -> World {
    let mut w = World::new(0, ids, base(shape, n));
    grow(&mut w, shape, n);
    w.focus = focus | OBS;
    observe(w.p[0].r.num_runs() as u64);
    if focus & INV != 0 {
        for p in &w.p {
            p.r.assert_invariants();
        }
    }
    w
}

/// a grown document and then `s`
pub fn then(focus: u32, ids: &[u64], shape: usize, n: usize, s: &str) {
    let mut w = grown(focus, ids, shape, n);
    finish(&mut w, s);
}

/// as above, within the given part of the document (in 1/16)
pub fn within(focus: u32, ids: &[u64], shape: usize, n: usize, s: &str, from: u64, to: u64) {
    let mut w = grown(focus, ids, shape, n);
    let len = w.p[0].len;
    w.win = (len * from / 16, len * to / 16);
    finish(&mut w, s);
}

/// the edits made by `s` on a grown document reach another peer in any order
pub fn reorder(focus: u32, shape: usize, n: usize, s: &str) {
    let mut w = grown(focus, &[1, 2, 3], shape, n);
    let len = w.p[0].len;
    w.win = (len * 7 / 16, len * 8 / 16);
    let p = w.p.pop().unwrap();
    crate::conc::run(&mut w, s);
    w.p.push(p);
    crate::conc::deliveries(&mut w, 2, 0);
    w.drain(2);
    w.settle();
    w.converged();
}

/// edits on a grown document arrive more than once
pub fn again(shape: usize, n: usize, s: &str) {
    let mut w = grown(CONV | FIT, &[1, 2], shape, n);
    let len = w.p[0].len;
    w.win = (len * 7 / 16, len * 8 / 16);
    crate::conc::run(&mut w, s);
    crate::conc::repeated(&mut w);
}

fn finish(w: &mut World, s: &str) {
    crate::conc::run(w, s);
    w.settle();
    if !w.a.is_empty() {
        w.resolve();
    }
    w.converged();
}
