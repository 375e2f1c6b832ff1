//! Anchors: C07, C08.
use crate::api::*;
use crate::world::*;
use cola::AnchorBias;

fn holds(b: &[Span], c: &Span) -> bool {
    !disjoint(b, &[*c])
}

impl World {
    /// anchors the offset `off` of peer `i`
    #[inline(never)]
    pub fn anchor(&mut self, i: usize, off: u64, to_left: bool) {
        let bias = if to_left { AnchorBias::Left } else { AnchorBias::Right };
        let p = &self.p[i];
        let a = p.r.create_anchor(off as usize, bias);
        let nil = Span { a: 0, s: 0, n: 1 };
        let an = if to_left && off == 0 {
            Anch { a, kind: 0, to_left, c: nil, left: vec![], right: vec![] }
        } else if !to_left && off == p.len {
            Anch { a, kind: 1, to_left, c: nil, left: vec![], right: vec![] }
        } else {
            let mut b = p.b.clone();
            let k = split(&mut b, off);
            let c = if to_left {
                let x = b[k - 1];
                Span { a: x.a, s: x.s + x.n - 1, n: 1 }
            } else {
                Span { a: b[k].a, s: b[k].s, n: 1 }
            };
            Anch { a, kind: 2, to_left, c, left: b[..k].to_vec(), right: b[k..].to_vec() }
        };
        cover(8 + an.kind as u64);
        self.a.push(an);
    }
    /// any offset, either side
    pub fn any_anchor(&mut self, i: usize) {
        let off = sym(self.win.0, self.win.1);
        assume(off <= self.p[i].len);
        let side = choose(2) == 0;
        self.anchor(i, off, side);
    }
    /// resolves all anchors at all peers
    #[inline(never)]
    pub fn resolve(&mut self) {
        for k in 0..self.a.len() {
            let an = self.a[k].clone();
            let mut got: Vec<Option<u64>> = vec![];
            for j in 0..self.p.len() {
                let p = &self.p[j];
                let r = p.r.resolve_anchor(an.a).map(|x| x as u64);
                got.push(r);
                let share = self.on(SHARE);
                let here = an.kind != 2 || an.c.s < p.seen(an.c.a);
                if share {
                    check(r.is_some() == here, 801);
                    if let Some(o) = r {
                        check(o <= p.len, 802);
                    }
                    // same edits, same offset
                    for i in 0..j {
                        if self.p[i].have == p.have {
                            check(got[i] == r, 803);
                            cover(13);
                        }
                    }
                }
                if !here {
                    cover(12);
                }
                if !self.on(ANCH) || !here {
                    continue;
                }
                check(r.is_some(), 701);
                let o = match r {
                    Some(o) => o,
                    None => continue,
                };
                if self.on(OBS) {
                    observe(o);
                }
                if an.kind == 0 {
                    check(o == 0, 702);
                    continue;
                }
                if an.kind == 1 {
                    check(o == p.len, 703);
                    continue;
                }
                check(o <= p.len, 704);
                let mut b = p.b.clone();
                let m = split(&mut b, o);
                let (x, y) = (&b[..m], &b[m..]);
                if holds(&b, &an.c) {
                    // right next to the character
                    let mut ok = false;
                    if an.to_left {
                        if m > 0 {
                            let z = x[m - 1];
                            ok = z.a == an.c.a && z.s + z.n == an.c.s + 1;
                        }
                    } else if m < b.len() {
                        let z = y[0];
                        ok = z.a == an.c.a && z.s == an.c.s;
                    }
                    check(ok, 705);
                } else {
                    cover(11);
                    check(disjoint(x, &an.right), 706);
                    check(disjoint(y, &an.left), 707);
                    // text whose author saw the character
                    for e in &self.e {
                        if let What::I(d) = &e.what {
                            if holds(&d.left, &an.c) {
                                check(disjoint(x, &[d.span]), 708);
                            } else if holds(&d.right, &an.c) {
                                check(disjoint(y, &[d.span]), 709);
                            }
                        }
                    }
                }
            }
        }
    }
}
