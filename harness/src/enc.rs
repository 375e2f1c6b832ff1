//! Encoded replicas: C09, C10, C18.
use crate::api::*;
use crate::world::*;
use cola::*;
use sha2::{Digest, Sha256};

/// small replicas of every kind
pub fn specimen(k: usize) -> Replica {
    let mut a = Replica::new(1, if k == 0 { 0 } else { 10 });
    if k == 0 {
        return a;
    }
    let mut b = a.fork(2);
    let e = a.inserted(3, 2);
    let f = b.inserted(7, 2);
    let g = b.inserted(9, 1);
    let h = b.deleted(1..4);
    if k == 1 {
        return a;
    }
    let _ = a.integrate_insertion(&f);
    if k == 2 {
        // the deletion waits
        let _ = a.integrate_deletion(&h);
        return a;
    }
    let _ = b.integrate_insertion(&e);
    let i = b.inserted(0, 1);
    let j = b.deleted(2..8);
    if k == 3 {
        // insertions and deletions wait
        let _ = a.integrate_insertion(&i);
        let _ = a.integrate_deletion(&j);
        let _ = a.integrate_deletion(&h);
        return a;
    }
    let _ = a.integrate_insertion(&g);
    let _ = a.integrate_insertion(&i);
    let _ = a.integrate_deletion(&h);
    let _ = a.integrate_deletion(&j);
    a
}
pub const KINDS: usize = 5;

fn decode(v: &[u8]) -> Result<Replica, DecodeError> {
    limit(1 << 16);
    Replica::decode(9, &EncodedReplica::from_bytes(v))
}

fn refused(v: &[u8]) -> DecodeError {
    match decode(v) {
        Ok(_) => {
            check(false, 1001);
            DecodeError::InvalidData
        }
        Err(e) => e,
    }
}

const HEADER: usize = 33;

pub fn truncated(k: usize) {
    let b = specimen(k).encode();
    let n = choose(b.len());
    let e = refused(&b[..n]);
    // less than a header: no contents to compare; otherwise the contents differ
    if n < HEADER {
        check(e == DecodeError::InvalidData, 1002);
    } else {
        check(e == DecodeError::ChecksumFailed, 1003);
    }
    cover((n < HEADER) as u64);
}

/// one byte altered
pub fn flipped(k: usize) {
    let mut b = specimen(k).encode().to_vec();
    let i = choose(b.len());
    let x = byte();
    assume(x != b[i]);
    b[i] = x;
    let e = refused(&b);
    if i >= 1 {
        check(e == DecodeError::ChecksumFailed, 1004);
        cover(1);
    } else {
        // a protocol version of one byte
        if x < 128 {
            check(matches!(e, DecodeError::DifferentProtocol { encoded_on, decoding_on } if encoded_on == x as u64 && decoding_on == 3), 1005);
        }
        cover(0);
    }
}

/// `n` bytes from some place on altered, or appended
pub fn altered(k: usize, n: usize) {
    let mut b = specimen(k).encode().to_vec();
    let i = 1 + choose(b.len());
    let mut same = true;
    for t in 0..n {
        let x = byte();
        if i < HEADER && i + t >= HEADER {
            // stay within the header (a hash is not inverted here)
        } else if i + t < b.len() {
            same &= b[i + t] == x;
            b[i + t] = x;
        } else {
            same = false;
            b.push(x);
        }
    }
    assume(!same);
    let e = refused(&b);
    check(e == DecodeError::ChecksumFailed, 1006);
}

/// two bytes swapped, a byte dropped or doubled
pub fn moved(k: usize) {
    let mut b = specimen(k).encode().to_vec();
    match choose(3) {
        0 => {
            let i = 1 + choose(b.len() - 2);
            if b[i] == b[i + 1] {
                return;
            }
            b.swap(i, i + 1);
        }
        1 => {
            let i = 1 + choose(b.len() - 1);
            b.remove(i);
        }
        _ => {
            let i = 1 + choose(b.len() - 1);
            let x = b[i];
            b.insert(i, x);
        }
    }
    let e = refused(&b);
    check(e != DecodeError::InvalidData || b.len() < HEADER, 1007);
}

/// any other protocol version
pub fn protocol(k: usize) {
    let b = specimen(k).encode();
    let v = sym(0, u64::MAX);
    assume(v != 3);
    let mut x = vec![];
    crate::wire::varint(v, &mut x);
    match choose(3) {
        0 => x.extend_from_slice(&b[1..]),
        1 => x.extend_from_slice(&b[1..HEADER]),
        _ => {}
    }
    let e = refused(&x);
    check(matches!(e, DecodeError::DifferentProtocol { encoded_on, decoding_on } if encoded_on == v && decoding_on == 3), 1008);
    let _ = format_error(&e);
}

struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
fn format_error(e: &DecodeError) -> u64 {
    use std::fmt::Write;
    let mut s = Sink(0);
    if matches!(e, DecodeError::DifferentProtocol { .. }) {
        return 0;
    }
    let _ = write!(s, "{}", e);
    s.0
}

/// any short byte string
pub fn short(n: usize) {
    let mut v = vec![];
    for _ in 0..n {
        v.push(byte());
    }
    let e = refused(&v);
    check(n >= HEADER || e != DecodeError::ChecksumFailed, 1009);
}

/// one replica's header on another's contents
pub fn crossed(k: usize) {
    let a = specimen(k).encode();
    let o = choose(KINDS);
    if o == k {
        return;
    }
    let b = specimen(o).encode();
    let mut v = a[..HEADER].to_vec();
    v.extend_from_slice(&b[HEADER..]);
    check(refused(&v) == DecodeError::ChecksumFailed, 1010);
}

// ---- valid header and checksum

fn sealed(payload: &[u8]) -> Vec<u8> {
    let mut v = vec![3u8];
    v.extend_from_slice(&Sha256::digest(payload));
    v.extend_from_slice(payload);
    v
}

fn survives(payload: &[u8]) {
    match decode(&sealed(payload)) {
        Ok(r) => {
            cover(1);
            drop(r);
        }
        Err(e) => {
            cover(2);
            check(e == DecodeError::InvalidData, 1801);
        }
    }
}

fn payload(k: usize) -> Vec<u8> {
    specimen(k).encode()[HEADER..].to_vec()
}

/// the contents end early
pub fn cut(k: usize) {
    let b = payload(k);
    let n = choose(b.len());
    match decode(&sealed(&b[..n])) {
        Ok(_) => check(false, 1802),
        Err(e) => check(e == DecodeError::InvalidData, 1803),
    }
}

/// one byte of the contents is any other
pub fn changed(k: usize) {
    let mut b = payload(k);
    let i = choose(b.len());
    b[i] = byte();
    survives(&b);
}

/// one byte of the contents replaced by `n` arbitrary ones
pub fn widened(k: usize, n: usize) {
    let b = payload(k);
    let i = choose(b.len());
    let mut v = b[..i].to_vec();
    for _ in 0..n {
        v.push(byte());
    }
    v.extend_from_slice(&b[i + 1..]);
    survives(&v);
}

/// one number in the contents is any number
pub fn valued(k: usize) {
    let b = payload(k);
    let i = choose(b.len());
    let mut v = b[..i].to_vec();
    crate::wire::varint(sym(0, u64::MAX), &mut v);
    v.extend_from_slice(&b[i + 1..]);
    survives(&v);
}

/// contents of `n` arbitrary bytes
pub fn random(n: usize) {
    let mut v = vec![];
    for _ in 0..n {
        v.push(byte());
    }
    survives(&v);
}

/// the encoding of a reached state decodes to an equal replica
pub fn round(s: &str, max: u64) {
    let len = sym(0, max);
    let mut w = World::new(0, &[1, 2], len);
    w.max = max;
    crate::conc::run(&mut w, s);
    for j in 0..2 {
        let e = w.p[j].r.encode();
        observe(e.len() as u64);
        match Replica::decode(9, &e) {
            Ok(r) => {
                check(r.eq_decoded(&w.p[j].r), 903);
                check(r.len() == w.p[j].r.len(), 904);
                r.assert_invariants();
            }
            Err(_) => check(false, 905),
        }
    }
}
