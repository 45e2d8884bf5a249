//! Value types, generators and the independent structural model of what each value's file must contain.
use crate::core::{Bad, Rng};
use crate::layout::{Tree, parse_vec_meta, u32le, u64le, unvarint, varint};
use parcode::ParcodeObject;
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

pub fn enc<T: Serialize + ?Sized>(v: &T) -> Vec<u8> { bincode::serde::encode_to_vec(v, bincode::config::standard()).unwrap() }
pub fn dec<T: DeserializeOwned>(b: &[u8]) -> Option<(T, usize)> { bincode::serde::decode_from_slice(b, bincode::config::standard()).ok() }
pub fn xxh<K: Hash>(k: &K) -> u64 { let mut h = twox_hash::XxHash64::with_seed(0); k.hash(&mut h); h.finish() }

pub struct W { pub global: bool, pub bads: Vec<Bad>, pub uniform: bool }
impl W {
    pub fn new(global: bool) -> W { W { global, bads: vec![], uniform: false } }
    pub fn bad(&mut self, kind: &'static str, msg: String) { if self.bads.len() < 20 { self.bads.push(Bad { kind, msg }); } }
    fn id(&mut self, t: &Tree, cfg: (u8, bool), what: &str) {
        let want = match (self.global, cfg.0) { (true, 0) => 1, (_, n) if n <= 1 => n, _ => 0 };
        if t.id() != want { self.bad("id", format!("{what} at {}: algorithm {} recorded, {} requested (effective {want})", t.off, t.id(), cfg.0)); }
    }
}
pub trait Model {
    fn locals(&self, out: &mut Vec<u8>);
    fn remotes(&self, _kids: &[Tree], _at: &mut usize, _w: &mut W) {}
    fn node(&self, t: &Tree, cfg: (u8, bool), w: &mut W) {
        w.id(t, cfg, "object chunk");
        let mut p = vec![]; self.locals(&mut p);
        if p != t.payload { w.bad("payload", format!("chunk at {}: payload {} expected {}", t.off, crate::core::hex(&t.payload), crate::core::hex(&p))); }
        let mut at = 0; self.remotes(&t.kids, &mut at, w);
        if at != t.kids.len() { w.bad("order", format!("chunk at {} has {} children, {at} expected", t.off, t.kids.len())); }
    }
}
pub trait Gen: Sized { fn g(r: &mut Rng, n: usize) -> Self; }
pub fn take<'a>(kids: &'a [Tree], at: &mut usize, w: &mut W) -> Option<&'a Tree> {
    let k = kids.get(*at); *at += 1;
    if k.is_none() { w.bad("order", "child missing".into()); }
    k
}
macro_rules! prim { ($($t:ty),*) => { $(
    impl Model for $t { fn locals(&self, out: &mut Vec<u8>) { out.extend(enc(self)); } }
)* } }
prim!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, String);
macro_rules! gint { ($($t:ty),*) => { $( impl Gen for $t { fn g(r: &mut Rng, _: usize) -> Self { r.edgy() as $t } } )* } }
gint!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Gen for u128 { fn g(r: &mut Rng, _: usize) -> Self { if r.bool() { r.edgy() as u128 } else { (r.u64() as u128) << 64 | r.u64() as u128 } } }
impl Gen for i128 { fn g(r: &mut Rng, n: usize) -> Self { u128::g(r, n) as i128 } }
impl Gen for f64 { fn g(r: &mut Rng, _: usize) -> Self { let f = f64::from_bits(r.u64()); if f.is_nan() { -0.0 } else { f } } }
impl Gen for f32 { fn g(r: &mut Rng, _: usize) -> Self { let f = f32::from_bits(r.u64() as u32); if f.is_nan() { -0.0 } else { f } } }
impl Gen for bool { fn g(r: &mut Rng, _: usize) -> Self { r.bool() } }
impl Gen for String { fn g(r: &mut Rng, n: usize) -> Self {
    let l = match r.below(4) { 0 => 0, 1 => r.us(4), 2 => r.us(40), _ => r.us(n.clamp(1, 300)) };
    (0..l).map(|_| match r.below(6) { 0 => 'ß', 1 => '\u{1F600}', 2 => '\0', _ => (b'a' + r.below(26) as u8) as char }).collect()
} }
impl<T: Gen> Gen for Option<T> { fn g(r: &mut Rng, n: usize) -> Self { if r.bool() { Some(T::g(r, n)) } else { None } } }
impl<T: Gen> Gen for Vec<T> { fn g(r: &mut Rng, n: usize) -> Self {
    let l = match r.below(5) { 0 => 0, 1 => 1, 2 => r.us(8), _ => r.us(n.max(1)) };
    (0..l).map(|_| T::g(r, n / 2)).collect()
} }
impl<K: Gen + Eq + Hash, V: Gen> Gen for HashMap<K, V> { fn g(r: &mut Rng, n: usize) -> Self {
    let l = match r.below(5) { 0 => 0, 1 => 1, 2 => r.us(8), _ => r.us(n.max(1)) };
    (0..l).map(|_| (K::g(r, 20), V::g(r, n / 2))).collect()
} }

// A length mirror of a slice of T as laid out in one shard.
impl<T: Model + Serialize> Model for Vec<T> {
    fn locals(&self, out: &mut Vec<u8>) { out.extend(enc(self)); }
    fn node(&self, t: &Tree, cfg: (u8, bool), w: &mut W) {
        w.id(t, cfg, "vector container");
        let (total, runs) = match parse_vec_meta(&t.payload) { Ok(x) => x, Err(b) => { w.bads.push(b); return } };
        if total != self.len() as u64 { w.bad("shards", format!("container at {}: records {total} elements, has {}", t.off, self.len())); }
        let mut sizes = vec![];
        for (c, r) in &runs {
            if *c == 0 || *r == 0 { w.bad("shards", format!("container at {}: empty run ({c},{r})", t.off)); }
            if sizes.len() as u64 + r > 1 << 24 { w.bad("shards", "absurd run".into()); return; }
            for _ in 0..*r { sizes.push(*c as usize); }
        }
        if sizes.len() != t.kids.len() { w.bad("shards", format!("container at {}: {} shards recorded, {} children", t.off, sizes.len(), t.kids.len())); return; }
        if sizes.iter().sum::<usize>() != self.len() { w.bad("shards", format!("container at {}: recorded shard sizes {:?} do not sum to {}", t.off, &runs, self.len())); return; }
        if sizes.len() > 1 {
            let f = sizes[0];
            if sizes[..sizes.len() - 1].iter().any(|s| *s != f) || sizes[sizes.len() - 1] > f { w.bad("shards", format!("uneven shards: {runs:?}")); }
        }
        let mut start = 0;
        for (i, (k, c)) in t.kids.iter().zip(&sizes).enumerate() {
            w.id(k, cfg, "vector shard");
            let items = &self[start..start + c]; start += c;
            let stored = unvarint(&k.payload).map(|x| x.0);
            if stored != Some(*c as u64) { w.bad("shards", format!("shard {i} holds {stored:?} elements, {c} recorded")); }
            let mut p = varint(*c as u64);
            for it in items { it.locals(&mut p); }
            if p != k.payload { w.bad("payload", format!("shard {i} at {}: payload differs ({} vs {} bytes expected)", k.off, k.payload.len(), p.len())); }
            if w.uniform && *c > 1 && k.payload.len() > 128 * 1024 + 9 { w.bad("shards", format!("shard {i}: {} bytes with {c} elements", k.payload.len())); }
            let mut at = 0;
            for it in items { it.remotes(&k.kids, &mut at, w); }
            if at != k.kids.len() { w.bad("order", format!("shard {i} at {} has {} children, {at} expected", k.off, k.kids.len())); }
        }
    }
}
impl<K, V> Model for HashMap<K, V> where K: Serialize + DeserializeOwned + Eq + Hash + std::fmt::Debug, V: Model + Serialize + DeserializeOwned + PartialEq {
    fn locals(&self, out: &mut Vec<u8>) { out.extend(enc(self)); }
    fn node(&self, t: &Tree, cfg: (u8, bool), w: &mut W) {
        w.id(t, cfg, "map container");
        if !cfg.1 {
            match dec::<HashMap<K, V>>(&t.payload) {
                Some((m, _)) if &m == self => {}
                _ => w.bad("route", format!("map block at {} does not hold the saved map", t.off)),
            }
            if !t.kids.is_empty() { w.bad("route", "map block has children".into()); }
            return;
        }
        if t.payload.len() != 4 { w.bad("route", format!("map container payload of {} bytes", t.payload.len())); return; }
        let n = u32le(&t.payload) as usize;
        if n != t.kids.len() { w.bad("route", format!("map records {n} buckets, has {}", t.kids.len())); return; }
        if self.is_empty() { return; }
        if n == 0 { w.bad("route", "non-empty map without buckets".into()); return; }
        let mut seen = 0usize;
        let mut keys = std::collections::HashSet::new();
        for (b, k) in t.kids.iter().enumerate() {
            w.id(k, cfg, "map shard");
            let p = &k.payload;
            if p.is_empty() { if !k.kids.is_empty() { w.bad("order", "empty bucket with children".into()); } continue; }
            if p.len() < 8 { w.bad("route", "bucket too short".into()); return; }
            let c = u32le(p) as usize;
            if p[4..8] != [0; 4] || p.len() < 8 + c * 12 { w.bad("route", format!("bucket {b} header malformed")); return; }
            let data = &p[8 + c * 12..];
            let mut at = 0; let mut pos = 0usize;
            for i in 0..c {
                let h = u64le(&p[8 + i * 8..]);
                let off = u32le(&p[8 + c * 8 + i * 4..]) as usize;
                if off != pos { w.bad("route", format!("bucket {b} entry {i}: offset {off}, expected {pos}")); return; }
                let Some((key, used)) = data.get(off..).and_then(dec::<K>) else { w.bad("route", format!("bucket {b} entry {i}: key undecodable")); return };
                let hk = xxh(&key);
                if h != hk { w.bad("route", format!("bucket {b} entry {i}: hash {h:#x} recorded, {hk:#x} computed")); }
                if hk % n as u64 != b as u64 { w.bad("route", format!("key {key:?} in bucket {b} of {n}")); }
                let Some(v) = self.get(&key) else { w.bad("route", format!("key {key:?} was not saved")); return };
                let want = enc(v);
                let vs = off + used;
                if data.get(vs..vs + want.len()) != Some(&want[..]) { w.bad("route", format!("bucket {b} entry {i}: value bytes differ")); return; }
                pos = vs + want.len();
                v.remotes(&k.kids, &mut at, w);
                keys.insert(enc(&key)); seen += 1;
            }
            if pos != data.len() { w.bad("route", format!("bucket {b}: trailing bytes")); }
            if at != k.kids.len() { w.bad("order", format!("bucket {b}: {} children, {at} expected", k.kids.len())); }
        }
        if seen != self.len() || keys.len() != self.len() { w.bad("route", format!("{} entries stored ({} distinct keys), {} saved", seen, keys.len(), self.len())); }
    }
}
macro_rules! model {
    ($t:ty; [$($l:ident),*]; [$($r:ident = $c:expr),*]) => {
        impl Model for $t {
            #[allow(unused_variables)]
            fn locals(&self, out: &mut Vec<u8>) { $( out.extend(enc(&self.$l)); )* }
            #[allow(unused_variables)]
            fn remotes(&self, kids: &[Tree], at: &mut usize, w: &mut W) { $( if let Some(k) = take(kids, at, w) { self.$r.node(k, $c, w); } )* }
        }
        impl Gen for $t {
            #[allow(unused_variables)]
            fn g(r: &mut Rng, n: usize) -> Self { Self { $( $l: Gen::g(r, n), )* $( $r: Gen::g(r, n), )* } }
        }
    };
}
pub const D: (u8, bool) = (0, false);
pub const M: (u8, bool) = (0, true);

macro_rules! st { ($(#[$m:meta])* $n:ident { $($b:tt)* }) => {
    $(#[$m])* #[derive(Serialize, Deserialize, Clone, PartialEq, Debug, ParcodeObject)] pub struct $n { $($b)* }
} }
st!(Flat { pub a: u8, pub b: u32, pub c: String, pub d: Option<u16>, pub e: Vec<u8>, pub f: i64, pub g: bool, pub h: f64, pub u: u128, pub m: HashMap<u8, u16> });
model!(Flat; [a, b, c, d, e, f, g, h, u, m]; []);
st!(Small { pub a: u32, pub b: u8 });
model!(Small; [a, b]; []);
st!(One { pub id: u32, #[parcode(chunkable)] pub v: Vec<u32> });
model!(One; [id]; [v = D]);
st!(Two { #[parcode(chunkable)] pub a: Vec<u8>, pub x: u16, #[parcode(chunkable)] pub b: String, pub y: String, #[parcode(chunkable)] pub c: u64 });
model!(Two; [x, y]; [a = D, b = D, c = D]);
st!(Remote { #[parcode(chunkable)] pub a: u32, #[parcode(chunkable)] pub b: u32, #[parcode(chunkable)] pub s: String });
model!(Remote; []; [a = D, b = D, s = D]);
st!(Zero { pub z: Vec<u8> });
model!(Zero; [z]; []);
st!(Nest { pub k: u64, #[parcode(chunkable)] pub two: Two, #[parcode(chunkable)] pub list: Vec<Two>, pub tail: String, #[parcode(chunkable)] pub flats: Vec<Flat> });
model!(Nest; [k, tail]; [two = D, list = D, flats = D]);
st!(Deep { pub n: i64, #[parcode(chunkable)] pub nest: Nest, #[parcode(chunkable)] pub ones: Vec<One>, #[parcode(map)] pub m: HashMap<u32, Flat>,
    #[parcode(chunkable)] pub blob: HashMap<String, u32>, #[parcode(map)] pub m2: HashMap<String, String>, #[parcode(chunkable)] pub r: Remote });
model!(Deep; [n]; [nest = D, ones = D, m = M, blob = D, m2 = M, r = D]);
st!(Comp { #[parcode(chunkable, compression = "lz4")] pub a: Vec<u32>, #[parcode(chunkable)] pub b: Vec<u32>, pub l: u8,
    #[parcode(chunkable, compression = "none")] pub c: Vec<u32>, #[parcode(chunkable, compression = "zstd")] pub z: Vec<u16>,
    #[parcode(map, compression = "lz4")] pub m: HashMap<u32, String>, #[parcode(chunkable, compression = "lz4")] pub s: Two,
    #[parcode(chunkable, compression = "LZ4")] pub bl: HashMap<u8, u8>, #[parcode(map)] pub m3: HashMap<u8, u32>, #[parcode(chunkable, compression = "lz4")] pub p: u64,
    #[parcode(chunkable, compression = "lz4")] pub ts: Vec<Two> });
model!(Comp; [l]; [a = (1, false), b = D, c = D, z = (2, false), m = (1, true), s = (1, false), bl = (1, false), m3 = M, p = (1, false), ts = (1, false)]);
st!(Prims { #[parcode(chunkable)] pub a: u8, #[parcode(chunkable)] pub b: u16, #[parcode(chunkable)] pub c: u32, #[parcode(chunkable)] pub d: u64,
    #[parcode(chunkable)] pub e: i8, #[parcode(chunkable)] pub f: i16, #[parcode(chunkable)] pub g: i32, #[parcode(chunkable)] pub h: i64,
    #[parcode(chunkable)] pub i: f32, #[parcode(chunkable)] pub j: f64, #[parcode(chunkable)] pub k: bool, #[parcode(chunkable)] pub l: String });
model!(Prims; []; [a = D, b = D, c = D, d = D, e = D, f = D, g = D, h = D, i = D, j = D, k = D, l = D]);
// Map values are stored whole, so a lazy lookup reads inline fields only where they come first (known finding K1).
st!(TwoL { pub x: u16, pub y: String, #[parcode(chunkable)] pub a: Vec<u8>, #[parcode(chunkable)] pub b: String, #[parcode(chunkable)] pub c: u64 });
model!(TwoL; [x, y]; [a = D, b = D, c = D]);
st!(MapTwo { pub id: u8, #[parcode(map)] pub m: HashMap<Bk, TwoL>, #[parcode(map)] pub o: HashMap<String, One>, pub end: u16 });
model!(MapTwo; [id, end]; [m = M, o = M]);
st!(Maps { #[parcode(map)] pub a: HashMap<u32, u64>, #[parcode(chunkable)] pub b: HashMap<u32, u64>, #[parcode(map)] pub c: HashMap<Bk, String>,
    #[parcode(chunkable)] pub d: HashMap<u8, u8>, #[parcode(map)] pub e: HashMap<String, Vec<u16>>, #[parcode(map)] pub f: HashMap<u64, Flat> });
model!(Maps; []; [a = M, b = D, c = M, d = D, e = M, f = M]);
st!(Bag { pub tag: u8, #[parcode(chunkable)] pub v: Vec<Maps>, #[parcode(chunkable)] pub w: Vec<Nest>, #[parcode(chunkable)] pub r: Vec<Remote> });
model!(Bag; [tag]; [v = D, w = D, r = D]);
st!(VecU8 { #[parcode(chunkable)] pub v: Vec<u8> });
model!(VecU8; []; [v = D]);

/// A key type with very few distinct hashes (hash functions belong to the key type).
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Bk(pub u32);
impl Hash for Bk { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8((self.0 % 3) as u8) } }
impl Gen for Bk { fn g(r: &mut Rng, _: usize) -> Self { Bk(r.below(500) as u32) } }
/// Every key collides.
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub struct Ck(pub u32, pub String);
impl Hash for Ck { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(7) } }
impl Gen for Ck { fn g(r: &mut Rng, n: usize) -> Self { Ck(r.below(500) as u32, String::g(r, n)) } }
