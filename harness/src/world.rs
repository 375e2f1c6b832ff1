//! What a user of cola sees: replicas and, next to each, the text buffer it
//! belongs to. Text is kept as spans of characters (author, first, count), so
//! that one run covers all lengths and positions.
use crate::api::*;
use cola::*;
use std::ops::Range;

pub const MAXLEN: u64 = 1 << 40;

#[derive(Clone, Copy, PartialEq)]
pub struct Span {
    pub a: u64, // author (replica id)
    pub s: u64, // first character
    pub n: u64, // number of characters
}

impl Span {
    /// disjoint from `o`
    #[inline]
    pub fn apart(&self, o: &Span) -> bool {
        (self.s + self.n <= o.s) | (o.s + o.n <= self.s)
    }
}

pub type Buf = Vec<Span>;

pub fn total(b: &[Span]) -> u64 {
    let mut t = 0;
    for s in b {
        t += s.n;
    }
    t
}

/// all spans of `x` are disjoint from all spans of `y`
#[inline(never)]
pub fn disjoint(x: &[Span], y: &[Span]) -> bool {
    let mut ok = true;
    for p in x {
        for q in y {
            if p.a == q.a {
                ok &= p.apart(q);
            }
        }
    }
    ok
}

/// splits the buffer at an offset, returns the index of the span starting there
#[inline(never)]
pub fn split(b: &mut Buf, off: u64) -> usize {
    let mut acc = 0;
    let mut i = 0;
    while i < b.len() {
        if off <= acc {
            return i;
        }
        let end = acc + b[i].n;
        if off < end {
            let k = off - acc;
            let x = b[i];
            b[i].n = k;
            b.insert(i + 1, Span { a: x.a, s: x.s + k, n: x.n - k });
            return i + 1;
        }
        acc = end;
        i += 1;
    }
    i
}

/// characters of the same author that follow each other become one span
pub fn coalesce(b: &mut Buf) {
    let mut i = 1;
    while i < b.len() {
        if b[i - 1].a == b[i].a && b[i - 1].s + b[i - 1].n == b[i].s {
            b[i - 1].n += b[i].n;
            b.remove(i);
        } else {
            i += 1;
        }
    }
}

/// both buffers hold the same characters in the same order
#[inline(never)]
pub fn same(x: &[Span], y: &[Span]) -> bool {
    let (mut i, mut j) = (0, 0);
    let (mut p, mut q) = (Span { a: 0, s: 0, n: 0 }, Span { a: 0, s: 0, n: 0 });
    loop {
        if p.n == 0 {
            if i < x.len() {
                p = x[i];
                i += 1;
            } else {
                // spans are never empty
                return q.n == 0 && j >= y.len();
            }
        }
        if q.n == 0 {
            if j < y.len() {
                q = y[j];
                j += 1;
            } else {
                return false;
            }
        }
        if p.a != q.a || p.s != q.s {
            return false;
        }
        if p.n == q.n {
            p.n = 0;
            q.n = 0;
        } else if p.n < q.n {
            q.s += p.n;
            q.n -= p.n;
            p.n = 0;
        } else {
            p.s += q.n;
            p.n -= q.n;
            q.n = 0;
        }
    }
}

#[derive(Clone)]
pub struct Ins {
    pub e: Insertion,
    pub span: Span,
    pub left: Buf,
    pub right: Buf,
}

#[derive(Clone)]
pub struct Del {
    pub e: Deletion,
    pub removed: Buf,
    pub kept: Buf,
    pub seen: Vec<(u64, u64)>,
}

/// `gone` is text that deletion `d` may remove: its author had received it
/// and did not keep it
#[inline(never)]
pub fn fits(d: &Del, gone: &[Span]) -> bool {
    let mut ok = disjoint(gone, &d.kept);
    for x in gone {
        let mut v = 0;
        for (a, n) in &d.seen {
            if *a == x.a {
                v = *n;
            }
        }
        ok &= x.s + x.n <= v;
    }
    ok
}

#[derive(Clone)]
pub enum What {
    I(Ins),
    D(Del),
}

#[derive(Clone)]
pub struct Edit {
    pub by: usize,
    pub what: What,
    pub deps: u32,
}

pub struct Peer {
    pub id: u64,
    pub r: Replica,
    pub b: Buf,
    pub len: u64,
    /// characters of each author integrated here
    pub seen: Vec<(u64, u64)>,
    /// edits made or integrated here
    pub have: u32,
    /// edits received but still waiting
    pub wait: u32,
    /// deletions among the waiting edits that have been released
    pub rel_d: u32,
    /// a clone that is given the same calls
    pub twin: Option<Replica>,
}

impl Peer {
    pub fn seen(&self, a: u64) -> u64 {
        for (b, n) in &self.seen {
            if *b == a {
                return *n;
            }
        }
        0
    }
    pub fn set_seen(&mut self, a: u64, n: u64) {
        for x in self.seen.iter_mut() {
            if x.0 == a {
                x.1 = n;
                return;
            }
        }
        self.seen.push((a, n));
    }
}

/// an anchor and what it was attached to
#[derive(Clone)]
pub struct Anch {
    pub a: Anchor,
    /// 0 start of the document, 1 end of it, 2 a character
    pub kind: u8,
    pub to_left: bool,
    pub c: Span,
    pub left: Buf,
    pub right: Buf,
}

/// which assertions a scenario makes
pub const CONV: u32 = 1; // C01
pub const FIT: u32 = 2; // C02
pub const LAND: u32 = 4; // C03
pub const REMOVE: u32 = 8; // C04
pub const WAIT: u32 = 16; // C05
pub const IDENT: u32 = 32; // C12
pub const INV: u32 = 64; // internal consistency checks
pub const OBS: u32 = 128;
pub const ANCH: u32 = 256; // C07
pub const SHARE: u32 = 512; // C08
pub const WIRE: u32 = 1024; // C14: edits travel serialized

pub struct World {
    pub focus: u32,
    /// longest insertion
    pub max: u64,
    /// where edits and anchors are made
    pub win: (u64, u64),
    pub p: Vec<Peer>,
    pub e: Vec<Edit>,
    pub a: Vec<Anch>,
}

/// the ids peers get: like small numbers in order, but they differ only in
/// their upper halves
pub fn uid(n: u64) -> u64 {
    match n {
        1 => 5,
        2 => 5 + (1 << 32),
        3 => 5 + (1 << 63),
        4 => 5 + (1 << 63) + (1 << 32),
        _ => 5 + (n << 40),
    }
}

impl World {
    /// peers with ids `ids`, all forked from the first, whose text has length `len`
    pub fn new(focus: u32, ids: &[u64], len: u64) -> World {
        let ids: Vec<u64> = ids.iter().map(|&n| uid(n)).collect();
        World::raw(focus, &ids, len)
    }
    pub fn raw(focus: u32, ids: &[u64], len: u64) -> World {
        let r = Replica::new(ids[0], len as usize);
        let base = if len == 0 { vec![] } else { vec![Span { a: ids[0], s: 0, n: len }] };
        let mut w = World { focus, max: MAXLEN, win: (0, MAXLEN), p: vec![], e: vec![], a: vec![] };
        for &id in &ids[1..] {
            w.p.push(Peer { id, r: r.fork(id), b: base.clone(), len, seen: vec![(ids[0], len)], have: 0, wait: 0, rel_d: 0, twin: None });
        }
        w.p.insert(0, Peer { id: ids[0], r, b: base, len, seen: vec![(ids[0], len)], have: 0, wait: 0, rel_d: 0, twin: None });
        w
    }
    #[inline]
    pub fn on(&self, f: u32) -> bool {
        self.focus & f != 0
    }
    fn after(&mut self, i: usize) {
        if self.on(FIT) {
            check(self.p[i].r.len() as u64 == self.p[i].len, 201);
        }
        if self.on(INV) {
            self.p[i].r.assert_invariants();
        }
    }
    /// a local insertion of `n` characters at `off`
    #[inline(never)]
    pub fn insert(&mut self, i: usize, off: u64, n: u64) -> usize {
        let p = &mut self.p[i];
        let e = p.r.inserted(off as usize, n as usize);
        self.twin(i, |t| t.inserted(off as usize, n as usize) == e, 1101);
        let p = &mut self.p[i];
        let span = Span { a: p.id, s: p.seen(p.id), n };
        if self.focus & IDENT != 0 {
            let t = e.text();
            check(t.inserted_by() == p.id, 1201);
            check(e.inserted_by() == p.id, 1202);
            let r = t.temporal_range();
            check((r.start as u64 == span.s) & (r.end as u64 == span.s + span.n), 1203);
        }
        let k = split(&mut p.b, off);
        let left = p.b[..k].to_vec();
        let right = p.b[k..].to_vec();
        p.b.insert(k, span);
        coalesce(&mut p.b);
        p.len += n;
        p.set_seen(p.id, span.s + n);
        let deps = p.have;
        let ix = self.e.len();
        p.have |= 1 << ix;
        self.e.push(Edit { by: i, what: What::I(Ins { e, span, left, right }), deps });
        self.after(i);
        ix
    }
    /// insertion anywhere, of any length
    pub fn any_insert(&mut self, i: usize) -> usize {
        let off = sym(self.win.0, self.win.1);
        assume(off <= self.p[i].len);
        let n = sym(1, self.max);
        self.insert(i, off, n)
    }
    /// an insertion by someone not among the peers, made on what peer `i` has:
    /// the first one of an author who has seen any number of other edits (so
    /// that its timestamp is large)
    #[inline(never)]
    pub fn stranger(&mut self, i: usize) -> usize {
        let off = sym(0, 20);
        assume(off <= self.p[i].len);
        let n = sym(1, 20);
        let ts = [1 << 31, 1 << 32, (1 << 62) + (1 << 32)][choose(3)];
        let id = uid(60 + self.e.len() as u64);
        let mut r = self.p[i].r.fork(id);
        let e = r.inserted(off as usize, n as usize);
        let e = crate::wire::later(&e, ts);
        let span = Span { a: id, s: 0, n };
        let mut b = self.p[i].b.clone();
        let k = split(&mut b, off);
        let (left, right) = (b[..k].to_vec(), b[k..].to_vec());
        let deps = self.p[i].have;
        self.e.push(Edit { by: self.p.len(), what: What::I(Ins { e, span, left, right }), deps });
        self.e.len() - 1
    }
    /// a local deletion
    #[inline(never)]
    pub fn delete(&mut self, i: usize, s: u64, t: u64) -> usize {
        let p = &mut self.p[i];
        let e = p.r.deleted(s as usize..t as usize);
        self.twin(i, |w| w.deleted(s as usize..t as usize) == e, 1102);
        let p = &mut self.p[i];
        if self.focus & IDENT != 0 {
            check(e.deleted_by() == p.id, 1204);
        }
        let x = split(&mut p.b, s);
        let y = split(&mut p.b, t);
        let removed: Buf = p.b.drain(x..y).collect();
        coalesce(&mut p.b);
        p.len -= t - s;
        let kept = p.b.clone();
        let deps = p.have;
        let ix = self.e.len();
        p.have |= 1 << ix;
        let seen = p.seen.clone();
        self.e.push(Edit { by: i, what: What::D(Del { e, removed, kept, seen }), deps });
        self.after(i);
        ix
    }
    /// deletion of any non-empty range (skipped when there is no text)
    pub fn any_delete(&mut self, i: usize) -> usize {
        let s = sym(self.win.0, self.win.1);
        let t = sym(self.win.0, self.win.1);
        assume(s < t);
        assume(t <= self.p[i].len);
        self.delete(i, s, t)
    }

    /// text `span` was inserted at `off` of peer `j`'s buffer
    #[inline(never)]
    fn land(&mut self, j: usize, ix: usize, span: Span, off: u64, last: bool) {
        let p = &mut self.p[j];
        check(off <= p.len, 202);
        let k = split(&mut p.b, off);
        if let What::I(d) = &self.e[ix].what {
            if self.focus & LAND != 0 {
                check(disjoint(&p.b[..k], &d.right), 301);
                check(disjoint(&p.b[k..], &d.left), 302);
            }
            if self.focus & IDENT != 0 {
                check((d.span.s == span.s) & (d.span.n == span.n), 1205);
            }
        }
        // text of one author arrives in order, without gaps
        if self.focus & (WAIT | IDENT) != 0 {
            check(span.s == p.seen(span.a), 501);
        }
        p.b.insert(k, span);
        coalesce(&mut p.b);
        p.len += span.n;
        p.set_seen(span.a, span.s + span.n);
        p.have |= 1 << ix;
        p.wait &= !(1 << ix);
        if self.focus & OBS != 0 {
            observe(off);
        }
        // (of several insertions released at once, only the last leaves the
        // buffer up to date)
        if last {
            self.after(j);
        }
    }

    /// removes the ranges from peer `j`'s buffer
    #[inline(never)]
    fn cut(&mut self, j: usize, rs: &[Range<usize>]) -> Buf {
        let p = &mut self.p[j];
        let mut prev = 0u64;
        let mut ok = true;
        for r in rs {
            ok &= (r.start as u64 >= prev) & (r.start < r.end);
            prev = r.end as u64;
        }
        ok &= prev <= p.len;
        check(ok, 203);
        let mut removed = vec![];
        for r in rs.iter().rev() {
            let x = split(&mut p.b, r.start as u64);
            let y = split(&mut p.b, r.end as u64);
            removed.extend(p.b.drain(x..y));
            p.len -= (r.end - r.start) as u64;
            if self.focus & OBS != 0 {
                observe(r.start as u64);
                observe(r.end as u64);
            }
        }
        coalesce(&mut p.b);
        removed
    }

    #[inline(never)]
    fn removed(&mut self, j: usize, ix: usize, rs: &[Range<usize>]) {
        let removed = self.cut(j, rs);
        let p = &mut self.p[j];
        if let What::D(d) = &self.e[ix].what {
            if self.focus & REMOVE != 0 {
                // everything its author removed is gone
                check(disjoint(&p.b, &d.removed), 401);
                // nothing its author still saw
                // or had not received was removed
                check(fits(d, &removed), 402);
            }
            if self.focus & WAIT != 0 {
                // a deletion is applied only once all text it removes is here
                let mut ok = true;
                for x in &d.removed {
                    ok &= x.s + x.n <= p.seen(x.a);
                }
                check(ok, 502);
            }
        }
        p.have |= 1 << ix;
        p.wait &= !(1 << ix);
        self.after(j);
    }

    /// edit `ix` arrives at peer `j`; true if it was integrated
    #[inline(never)]
    pub fn deliver(&mut self, ix: usize, j: usize) -> bool {
        let bit = 1u32 << ix;
        let fresh = (self.p[j].have | self.p[j].wait) & bit == 0;
        let ready = self.e[ix].deps & !self.p[j].have == 0;
        let mut ed = self.e[ix].what.clone();
        if self.on(WIRE) {
            match &mut ed {
                What::I(d) => d.e = crate::wire::trip(&d.e),
                What::D(d) => d.e = crate::wire::trip(&d.e),
            }
        }
        match ed {
            What::I(d) => {
                let r = self.p[j].r.integrate_insertion(&d.e);
                self.twin(j, |t| t.integrate_insertion(&d.e) == r, 1104);
                match r {
                    Some(off) => {
                        // a second integration of the same edit
                        check(self.p[j].have & bit == 0, 601);
                        self.land(j, ix, d.span, off as u64, true);
                        true
                    }
                    None => {
                        check(!(ready && fresh), 503);
                        if self.p[j].have & bit == 0 {
                            self.p[j].wait |= bit;
                        }
                        self.after(j);
                        false
                    }
                }
            }
            What::D(d) => {
                let rs = self.p[j].r.integrate_deletion(&d.e);
                self.twin(j, |t| t.integrate_deletion(&d.e) == rs, 1106);
                if self.p[j].have & bit != 0 {
                    check(rs.is_empty(), 602);
                    return false;
                }
                if !rs.is_empty() {
                    self.removed(j, ix, &rs);
                    return true;
                }
                // nothing removed: either it waits or everything was already gone
                if ready && fresh {
                    self.removed(j, ix, &rs);
                    true
                } else {
                    self.p[j].wait |= bit;
                    self.after(j);
                    false
                }
            }
        }
    }

    /// drains both backlogs until nothing comes out any more
    #[inline(never)]
    pub fn drain(&mut self, j: usize) -> usize {
        let mut n = 0;
        loop {
            let ins: Vec<(Text, usize)> = self.p[j].r.backlogged_insertions().collect();
            let mut any = !ins.is_empty();
            self.twin(j, |t| t.backlogged_insertions().collect::<Vec<_>>() == ins, 1107);
            let m = ins.len();
            for (k, (t, off)) in ins.into_iter().enumerate() {
                let a = t.inserted_by();
                let r = t.temporal_range();
                let (s, e) = (r.start as u64, r.end as u64);
                let mut hit = None;
                for (ix, ed) in self.e.iter().enumerate() {
                    if let What::I(d) = &ed.what {
                        if d.span.a == a && d.span.s == s && d.span.s + d.span.n == e {
                            hit = Some(ix);
                        }
                    }
                }
                // an edit nobody made
                check(hit.is_some(), 504);
                if let Some(ix) = hit {
                    // released although it was not waiting (any more)
                    check(self.p[j].wait & (1 << ix) != 0, 505);
                    n += 1;
                    self.land(j, ix, Span { a, s, n: e - s }, off as u64, k + 1 == m);
                }
            }
            let mut it = self.p[j].r.backlogged_deletions();
            let rs = it.next();
            drop(it);
            self.twin(j, |t| t.backlogged_deletions().next() == rs, 1103);
            if let Some(rs) = rs {
                any = true;
                n += 1;
                let gone = self.cut(j, &rs);
                self.p[j].rel_d += 1;
                let p = &self.p[j];
                let mut waiting = 0;
                let mut ok = false;
                for (k, ed) in self.e.iter().enumerate() {
                    if let What::D(d) = &ed.what {
                        if p.wait & (1 << k) == 0 {
                            continue;
                        }
                        waiting += 1;
                        // is this the one that was released? (what it removes
                        // must be here, other deletions need not)
                        let mut here = true;
                        for x in &d.removed {
                            here &= x.s + x.n <= p.seen(x.a);
                        }
                        ok |= here & fits(d, &gone) & disjoint(&p.b, &d.removed);
                    }
                }
                if self.on(WAIT | REMOVE) {
                    check(ok, 506);
                    check(p.rel_d <= waiting, 507);
                }
                self.after(j);
            }
            if !any {
                break;
            }
        }
        // released deletions carry no name, and those with nothing left to
        // remove are not reported: all that are ready must be done now
        loop {
            let ready = self.p[j].wait & self.ready(j);
            let mut done = 0;
            for (k, ed) in self.e.iter().enumerate() {
                if ready & (1 << k) == 0 {
                    continue;
                }
                match &ed.what {
                    What::D(d) => {
                        if self.on(WAIT) {
                            check(disjoint(&self.p[j].b, &d.removed), 510);
                        }
                        done |= 1 << k;
                    }
                    What::I(_) => {
                        if self.on(WAIT) {
                            check(false, 511);
                        }
                    }
                }
            }
            if done == 0 {
                break;
            }
            self.p[j].have |= done;
            self.p[j].wait &= !done;
        }
        self.p[j].rel_d = 0;
        n
    }
    /// edits whose context has arrived at `j` (transitively, through waiting ones)
    fn ready(&self, j: usize) -> u32 {
        let p = &self.p[j];
        let mut r = 0u32;
        loop {
            let mut more = 0u32;
            for (k, ed) in self.e.iter().enumerate() {
                let bit = 1u32 << k;
                if (p.have | r) & bit == 0 && ed.deps & !(p.have | (r & p.wait)) == 0 {
                    more |= bit;
                }
            }
            if more == 0 {
                return r;
            }
            r |= more;
        }
    }
    /// the same call on a clone gives the same answer
    #[inline]
    fn twin(&mut self, j: usize, f: impl FnOnce(&mut Replica) -> bool, code: u64) {
        if let Some(t) = self.p[j].twin.as_mut() {
            check(f(t), code);
        }
    }
    fn child(&mut self, j: usize, id: u64, r: Replica) -> usize {
        let p = &self.p[j];
        let mut seen = p.seen.clone();
        seen.push((id, 0));
        self.p.push(Peer { id, r, b: p.b.clone(), len: p.len, seen, have: p.have, wait: p.wait, rel_d: p.rel_d, twin: None });
        let n = self.p.len() - 1;
        check(self.p[n].r.id() == id, 206);
        self.after(n);
        n
    }
    /// peer `j` forks a new peer
    #[inline(never)]
    pub fn fork(&mut self, j: usize, id: u64) -> usize {
        let id = uid(id);
        let r = self.p[j].r.fork(id);
        self.child(j, id, r)
    }
    /// a new peer from the encoding of peer `j`
    #[inline(never)]
    pub fn recode(&mut self, j: usize, id: u64) -> usize {
        let id = uid(id);
        let enc = self.p[j].r.encode();
        match Replica::decode(id, &enc) {
            Ok(r) => {
                check(r.eq_decoded(&self.p[j].r), 902);
                self.child(j, id, r)
            }
            Err(_) => {
                check(false, 901);
                0
            }
        }
    }
    /// from now on every call on `j` is repeated on a clone
    #[inline(never)]
    pub fn clone_peer(&mut self, j: usize) {
        let r = self.p[j].r.clone();
        check(r.id() == self.p[j].id, 1105);
        self.p[j].twin = Some(r);
    }

    /// delivers every outstanding edit to every peer, in order of creation
    pub fn settle(&mut self) {
        for j in 0..self.p.len() {
            for ix in 0..self.e.len() {
                let bit = 1u32 << ix;
                if (self.p[j].have | self.p[j].wait) & bit == 0 {
                    self.deliver(ix, j);
                }
            }
            if self.p[j].wait != 0 {
                self.drain(j);
            }
        }
    }

    /// everyone has everything: the edits so far need not be remembered
    pub fn forget(&mut self) {
        self.e.clear();
        for p in self.p.iter_mut() {
            p.have = 0;
            p.wait = 0;
        }
    }

    /// all peers received everything: same text everywhere
    pub fn converged(&mut self) {
        let full = if self.e.is_empty() { 0 } else { u32::MAX >> (32 - self.e.len()) };
        for j in 0..self.p.len() {
            if self.on(WAIT) {
                check(self.p[j].have & full == full, 508);
                check(self.p[j].wait == 0, 509);
            }
            if self.on(CONV) {
                check(self.p[j].len == self.p[0].len, 102);
                if j > 0 {
                    check(same(&self.p[j].b, &self.p[0].b), 101);
                }
            }
        }
        if self.on(OBS) {
            observe(self.p[0].len);
            for s in &self.p[0].b {
                observe(s.a);
                observe(s.s);
                observe(s.n);
            }
        }
    }
}
