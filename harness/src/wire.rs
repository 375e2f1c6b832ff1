//! The trip over the wire: C14, C15.
use crate::api::*;
use crate::world::*;
use cola::*;
use serde::de::{self, DeserializeOwned, Visitor};
use serde::ser::{self, Impossible};
use serde::Serialize;

#[derive(Debug)]
pub struct Fail;
impl std::fmt::Display for Fail {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Fail {}
struct Sink;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl de::Error for Fail {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        // error messages are made
        use std::fmt::Write;
        let _ = write!(Sink, "{}", m);
        Fail
    }
}
impl ser::Error for Fail {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Fail
    }
}

/// collects the bytes a value is serialized to
pub struct Ser;
macro_rules! no {
    ($($f:ident $t:ty,)*) => { $(fn $f(self, _: $t) -> Result<Vec<u8>, Fail> { Err(Fail) })* };
}
impl ser::Serializer for Ser {
    type Ok = Vec<u8>;
    type Error = Fail;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Impossible<Vec<u8>, Fail>;
    type SerializeTupleVariant = Impossible<Vec<u8>, Fail>;
    type SerializeMap = Impossible<Vec<u8>, Fail>;
    type SerializeStruct = Impossible<Vec<u8>, Fail>;
    type SerializeStructVariant = Impossible<Vec<u8>, Fail>;
    fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, Fail> {
        Ok(v.to_vec())
    }
    no! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
    serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64,
    serialize_char char, serialize_str &str, serialize_unit_struct &'static str, }
    fn serialize_u8(self, v: u8) -> Result<Vec<u8>, Fail> {
        Ok(vec![v])
    }
    fn serialize_none(self) -> Result<Vec<u8>, Fail> {
        Err(Fail)
    }
    fn serialize_unit(self) -> Result<Vec<u8>, Fail> {
        Err(Fail)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Vec<u8>, Fail> {
        Err(Fail)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Vec<u8>, Fail> {
        Err(Fail)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Vec<u8>, Fail> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Vec<u8>, Fail> {
        Err(Fail)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, Fail> {
        Ok(Seq(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq, Fail> {
        Ok(Seq(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> {
        Err(Fail)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fail> {
        Err(Fail)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> {
        Err(Fail)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> {
        Err(Fail)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fail> {
        Err(Fail)
    }
}
/// bytes serialized one by one
pub struct Seq(Vec<u8>);
impl ser::SerializeSeq for Seq {
    type Ok = Vec<u8>;
    type Error = Fail;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.0.extend(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<Vec<u8>, Fail> {
        Ok(self.0)
    }
}
impl ser::SerializeTuple for Seq {
    type Ok = Vec<u8>;
    type Error = Fail;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.0.extend(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<Vec<u8>, Fail> {
        Ok(self.0)
    }
}

/// how the data format hands over the bytes
#[derive(Clone, Copy)]
pub enum How {
    Slice,
    Borrowed,
    Owned,
    Seq,
    /// a sequence announcing this many elements
    Hint(usize),
}
pub struct De<'a>(pub &'a [u8], pub How);
struct Access<'a>(&'a [u8], Option<usize>);
impl<'de> de::SeqAccess<'de> for Access<'_> {
    type Error = Fail;
    fn next_element_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Fail> {
        match self.0.split_first() {
            Some((b, rest)) => {
                self.0 = rest;
                s.deserialize(de::value::U8Deserializer::new(*b)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}
impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        match self.1 {
            How::Slice => v.visit_bytes(self.0),
            How::Borrowed => v.visit_borrowed_bytes(self.0),
            How::Owned => v.visit_byte_buf(self.0.to_vec()),
            How::Seq => v.visit_seq(Access(self.0, None)),
            How::Hint(n) => v.visit_seq(Access(self.0, Some(n))),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

pub fn bytes<T: Serialize>(x: &T) -> Vec<u8> {
    match x.serialize(Ser) {
        Ok(b) => b,
        Err(_) => {
            check(false, 1401);
            vec![]
        }
    }
}
pub fn read<T: DeserializeOwned>(b: &[u8], how: How) -> Option<T> {
    T::deserialize(De(b, how)).ok()
}

/// over the wire and back
#[inline(never)]
pub fn trip<T: Serialize + DeserializeOwned + PartialEq>(x: &T) -> T {
    let b = bytes(x);
    observe(b.len() as u64);
    let s = read::<T>(&b, How::Seq);
    check(s.is_some(), 1402);
    check(s.as_ref() == Some(x), 1403);
    let y = read::<T>(&b, How::Slice);
    check(y.is_some(), 1404);
    check(y.as_ref() == Some(x), 1405);
    y.unwrap()
}

/// `k` steps in which edits reach the other peers over the wire
pub fn steps(ids: &[u64], max: u64, k: usize) {
    let len = sym(0, max);
    let mut w = World::new(WIRE | CONV | FIT, ids, len);
    w.max = max;
    for s in 0..k {
        crate::conc::any(&mut w, s > 0 && s + 1 < k);
    }
    w.settle();
    w.converged();
}

/// one author with any id, document of any length; insertions and deletions of
/// any size and place
pub fn large(what: usize) {
    let big = |on: bool, small: u64| if on { sym(1, u64::MAX) } else { small };
    let id = big(what == 0, 1);
    let id2 = big(what == 1, 2);
    assume(id != id2);
    let len = if what == 2 { sym(0, 1 << 63) } else { sym(0, 3) };
    let mut w = World::raw(WIRE | CONV | FIT, &[id, id2], len);
    if what == 3 {
        w.max = 1 << 62;
    } else {
        w.max = 3;
    }
    let c = choose(2);
    crate::conc::edit(&mut w, c, choose(2) == 1);
    crate::conc::edit(&mut w, c, choose(2) == 1);
    w.settle();
    w.converged();
}

/// the same insertion with another Lamport timestamp
pub fn later(e: &Insertion, ts: u64) -> Insertion {
    let b = bytes(e);
    // author, first character, characters, run, timestamp
    let skip = |mut k: usize| {
        while b[k] >= 128 {
            k += 1;
        }
        k + 1
    };
    let from = skip(skip(skip(skip(0))));
    let to = skip(from);
    let mut v = b[..from].to_vec();
    varint(ts, &mut v);
    v.extend_from_slice(&b[to..]);
    match read::<Insertion>(&v, How::Slice) {
        Some(x) => {
            check(x != *e && x.text() == e.text(), 1412);
            x
        }
        None => {
            check(false, 1413);
            e.clone()
        }
    }
}

/// things that were not changed by an edit
pub fn degenerate() {
    let len = sym(0, 20);
    let mut r = Replica::new(1, len as usize);
    let off = sym(0, len) as usize;
    let i = r.inserted(off, 0);
    trip(&i);
    let d = r.deleted(off..off);
    trip(&d);
}

/// an encoded replica
pub fn encoded(s: &str) {
    let len = sym(0, 20);
    let mut w = World::new(0, &[1, 2], len);
    w.max = 20;
    crate::conc::run(&mut w, s);
    let j = choose(2);
    let e = w.p[j].r.encode();
    let t = trip(&e);
    match Replica::decode(7, &t) {
        Ok(r) => check(r.eq_decoded(&w.p[j].r), 1406),
        Err(_) => check(false, 1407),
    }
    let st = e.to_static();
    check(st == e && EncodedReplica::from_bytes(e.as_bytes()) == t, 1408);
}

pub fn anchors(s: &str) {
    let len = sym(0, 20);
    let mut w = World::new(0, &[1, 2], len);
    w.max = 20;
    crate::conc::run(&mut w, s);
    for a in &w.a {
        let t = trip(&a.a);
        for p in &w.p {
            check(p.r.resolve_anchor(t) == p.r.resolve_anchor(a.a), 1409);
        }
    }
}

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 128 {
        out.push(v as u8 | 128);
        v >>= 7;
    }
    out.push(v as u8);
}

/// serialized insertions (deletions) of a small session: every kind there is
pub fn specimens(del: bool) -> Vec<Vec<u8>> {
    let mut a = Replica::new(1, 10);
    let mut b = a.fork(2);
    let mut out = vec![];
    if !del {
        out.push(bytes(&a.inserted(10, 2)));
        let e = a.inserted(3, 2);
        let _ = b.integrate_insertion(&e);
        out.push(bytes(&e));
        out.push(bytes(&b.inserted(0, 1)));
        out.push(bytes(&b.inserted(1, 4)));
        out.push(bytes(&a.inserted(0, 0)));
    } else {
        let e = a.inserted(3, 2);
        let f = b.inserted(7, 2);
        let _ = a.integrate_insertion(&f);
        let _ = b.integrate_insertion(&e);
        out.push(bytes(&a.deleted(1..2)));
        out.push(bytes(&a.deleted(1..6)));
        out.push(bytes(&b.deleted(4..11)));
        out.push(bytes(&a.deleted(0..0)));
    }
    out
}

/// a specimen with one byte replaced by `n` arbitrary ones, possibly cut short
fn mangle(b: &[u8], n: usize, cut: bool) -> Vec<u8> {
    let i = choose(b.len());
    let mut v = b[..i].to_vec();
    for _ in 0..n {
        v.push(byte());
    }
    v.extend_from_slice(&b[i + 1..]);
    if cut {
        let k = choose(v.len() + 1);
        v.truncate(k);
    }
    v
}

fn how(k: usize) -> How {
    match k {
        0 => How::Slice,
        1 => How::Seq,
        2 => How::Borrowed,
        3 => How::Owned,
        _ => How::Hint(if choose(2) == 0 { sym_usize(0, 64) } else { sym_usize(1 << 16, usize::MAX) }),
    }
}

fn decode<T: Serialize + DeserializeOwned + PartialEq>(v: &[u8], h: How, again: bool) {
    limit(1 << 16);
    match read::<T>(v, h) {
        Some(x) => {
            cover(1);
            if again {
                trip(&x);
            }
        }
        None => cover(2),
    }
    observe(v.len() as u64);
}

/// any bytes at all
pub fn garbage(del: bool, n: usize, h: usize) {
    let mut v = vec![];
    for _ in 0..n {
        v.push(byte());
    }
    let h = how(h);
    if del {
        decode::<Deletion>(&v, h, false)
    } else {
        decode::<Insertion>(&v, h, false)
    }
}

/// nearly an edit
pub fn malformed(del: bool, n: usize, cut: bool, h: usize, again: bool) {
    let s = specimens(del);
    let b = &s[choose(s.len())];
    let v = mangle(b, n, cut);
    let h = how(h);
    if del {
        decode::<Deletion>(&v, h, again)
    } else {
        decode::<Insertion>(&v, h, again)
    }
}

/// nearly an edit: one number in it is any number
pub fn valued(del: bool) {
    let s = specimens(del);
    let b = &s[choose(s.len())];
    let i = choose(b.len());
    let mut v = b[..i].to_vec();
    varint(sym(0, u64::MAX), &mut v);
    v.extend_from_slice(&b[i + 1..]);
    let h = how(choose(2));
    if del {
        decode::<Deletion>(&v, h, false)
    } else {
        decode::<Insertion>(&v, h, false)
    }
}

/// edits with any numbers in them, whatever history they would come from
pub fn values() {
    let del = choose(2) == 1;
    let n = 10;
    let wide = choose(n);
    let mut f = vec![];
    for k in 0..n {
        f.push(if k == wide { sym(0, u64::MAX) } else { sym(0, 3) });
    }
    let mut v = vec![];
    let num = |k: usize, v: &mut Vec<u8>| varint(f[k], v);
    if del {
        let kind = choose(3) as u8;
        v.push(kind);
        // id, run and offset of the ends
        num(0, &mut v);
        num(1, &mut v);
        num(2, &mut v);
        match kind {
            0 => {
                assume(f[3] != f[0]);
                num(3, &mut v);
                num(4, &mut v);
                num(5, &mut v);
            }
            1 => {
                assume(f[4] != f[1]);
                num(4, &mut v);
                num(5, &mut v);
            }
            _ => {
                // within one run
                assume(f[5] <= u64::MAX - f[2]);
                num(5, &mut v);
            }
        }
        // author, own version, another's version
        num(6, &mut v);
        num(7, &mut v);
        v.push(1);
        assume(f[8] != f[6]);
        num(8, &mut v);
        num(9, &mut v);
        num(3, &mut v);
        same::<Deletion>(&v);
    } else {
        // text
        num(0, &mut v);
        num(1, &mut v);
        assume(f[2] <= u64::MAX - f[1]);
        num(2, &mut v);
        // run, lamport
        num(3, &mut v);
        num(4, &mut v);
        let cont = choose(2) as u8;
        v.push(cont);
        if cont == 0 {
            assume(f[5] != f[0] || f[6] != f[3]);
            num(5, &mut v);
            num(6, &mut v);
            num(7, &mut v);
        }
        same::<Insertion>(&v);
    }
}

fn same<T: Serialize + DeserializeOwned + PartialEq>(v: &[u8]) {
    match read::<T>(v, How::Slice) {
        Some(x) => {
            trip(&x);
            check(bytes(&x) == v, 1410);
        }
        None => check(false, 1411),
    }
}
