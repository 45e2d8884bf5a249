//! System-level properties: C08 C09 C11 C12 C13 C15 C18 C19 C20 C21 (and task graphs for C14).
use crate::core::*;

use crate::layout::{self, N, Tree, build, leaf, node, tail, u32le, u64le, varint, vec_meta};
use crate::p_rt::*;
use crate::zoo::*;
use parcode::compression::CompressorRegistry;
use parcode::executor::{execute_graph, execute_graph_serial};
use parcode::format::{ChildRef, GlobalHeader, MetaByte};
use parcode::graph::{ChunkId, JobConfig, SerializationJob, TaskGraph};
use parcode::io::SeqWriter;
use parcode::reader::{ChunkNode, ParcodeItem};
use parcode::visitor::ParcodeVisitor;
use parcode::{Compressor, Parcode, ParcodeError, ParcodeFile};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Cow;
use std::collections::HashMap;
use std::io::{Cursor, ErrorKind, Write};
use std::mem::MaybeUninit;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- C08
#[derive(Debug)]
struct Xor(u8);
impl Compressor for Xor {
    fn id(&self) -> u8 { self.0 }
    fn compress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> { Ok(Cow::Owned(d.iter().map(|b| b ^ 0x5A ^ self.0).collect())) }
    fn decompress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> { self.compress(d) }
    fn compress_append(&self, d: &[u8], o: &mut Vec<u8>) -> parcode::Result<()> { o.extend(d.iter().map(|b| b ^ 0x5A ^ self.0)); Ok(()) }
}
fn pattern(r: &mut Rng, kind: usize, n: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; n], 1 => vec![0xFF; n], 2 => r.bytes(n), 3 => (0..n).map(|i| i as u8).collect(),
        4 => (0..n).map(|i| b"abcdefgh"[i % 8]).collect(), 5 => (0..n).map(|i| (i / 300) as u8).collect(),
        6 => { let mut v = r.bytes(n); for i in n / 3..n { v[i] = v[i - n / 3]; } v }
        _ => (0..n).map(|_| if r.below(9) == 0 { r.u64() as u8 } else { 7 }).collect(),
    }
}
fn comp_one(a: &dyn Compressor, data: &[u8], pre: &[u8]) -> R {
    let what = format!("algorithm {} on {} bytes {}", a.id(), data.len(), hex(&data[..data.len().min(40)]));
    let z = e2s("codec", &what, a.compress(data))?;
    let back = e2s("codec", &format!("{what}: decompress"), a.decompress(&z))?;
    ensure!(&back[..] == data, "codec", "{what}: compress then decompress differs");
    let mut o = pre.to_vec();
    e2s("codec", &format!("{what}: append"), a.compress_append(data, &mut o))?;
    ensure!(o.len() >= pre.len() && o[..pre.len()] == *pre, "codec", "{what}: append into {} bytes changed them", pre.len());
    let back = e2s("codec", &format!("{what}: decompress appended"), a.decompress(&o[pre.len()..]))?;
    ensure!(&back[..] == data, "codec", "{what}: append then decompress differs");
    let l = o.len();
    e2s("codec", &format!("{what}: second append"), a.compress_append(data, &mut o))?;
    let back = e2s("codec", &format!("{what}: decompress second"), a.decompress(&o[l..]))?;
    ensure!(&back[..] == data, "codec", "{what}: second append differs");
    Ok(())
}
pub fn c08(c: &mut Ctx) {
    let reg = CompressorRegistry::new();
    let top = if c.thorough { 3000 } else { 420 };
    for n in (0..top).chain([4095, 4096, 4097, 65534, 65535, 65536, 65537, 100_000, 1_000_003]) {
        for kind in 0..8 {
            if n > 420 && !c.thorough && kind % 2 == 1 && n < 4000 { continue; }
            let id = format!("codec/n={n}/p={kind}");
            c.case(&id, |c| {
                let mut r = c.rng(&id);
                let d = pattern(&mut r, kind, n);
                for alg in [0u8, 1] {
                    let a = e2s("codec", "registry.get", reg.get(alg))?;
                    ensure!(a.id() == alg, "codec", "registry.get({alg}) returned algorithm {}", a.id());
                    let pl = [0, 1, 5, 64, 1000][r.us(5)]; let pre = r.bytes(pl);
                    comp_one(a, &d, &pre)?; c.eval(3);
                }
                Ok(())
            });
        }
    }
    c.case("codec/registry-default", |c| {
        for id in 0..=255u8 {
            match reg.get(id) { Ok(a) => ensure!(id <= 1 && a.id() == id, "codec", "get({id}) gives {}", a.id()), Err(_) => ensure!(id > 1, "codec", "get({id}) fails") }
            c.eval(1);
        }
        Ok(())
    });
    c.case("codec/registry-custom", |c| {
        for id in 0..=255u8 {
            let mut g = CompressorRegistry::default();
            g.register(Box::new(Xor(id)));
            for q in 0..=255u8 {
                let want = q <= 1 || q == id;
                match g.get(q) {
                    Ok(a) => { ensure!(want && a.id() == q, "codec", "after register({id}): get({q}) gives {}", a.id());
                        if q == id { ensure!(a.compress(&[0]).is_ok_and(|z| z[..] == [0x5A ^ id]), "codec", "register({id}) did not install it"); comp_one(a, b"hello", b"x")?; } }
                    Err(_) => ensure!(!want, "codec", "after register({id}): get({q}) fails"),
                }
            }
            let other = id.wrapping_add(97);
            g.register(Box::new(Xor(other)));
            ensure!(g.get(id).is_ok_and(|a| a.id() == id) && g.get(other).is_ok_and(|a| a.id() == other), "codec", "register({other}) disturbed {id}");
            c.eval(257);
        }
        Ok(())
    });
    // a chunk naming an unavailable algorithm is an error on read
    for id in 2..8u8 { let n = format!("codec/unavailable/{id}"); c.case(&n, |_| {
        for kids in [false, true] {
            let mut t = node(7u32.to_le_bytes().to_vec(), if kids { vec![leaf(vec![1])] } else { vec![] }); t.id = id;
            let f = e2s("codec", "open", Parcode::open_bytes(build(&t)))?;
            let r = e2s("codec", "root", f.root_node())?;
            ensure!(r.read_raw().is_err(), "codec", "payload of an unavailable algorithm was read");
            ensure!(f.load::<u32>().is_err() && f.load::<Vec<u8>>().is_err() && f.load::<Small>().is_err(), "codec", "unavailable algorithm loaded");
        }
        Ok(())
    }); }
    // damaged lz4 input never yields wrong data silently where the size disagrees, and never crashes
    c.case("codec/lz4-damaged", |c| {
        let a = e2s("codec", "get", reg.get(1))?; let mut r = c.rng("lz4d");
        for i in 0..(if c.thorough { 200_000 } else { 8000 }) {
            let mut z = { let n = r.us(80); let k = r.us(8); let d = pattern(&mut r, k, n); a.compress(&d).unwrap().into_owned() };
            match i % 3 { 0 => { let l = z.len(); z[r.us(l)] ^= 1 << r.us(8); } 1 => { let l = r.us(z.len() + 1); z.truncate(l); } _ => { let n = r.us(20); z = r.bytes(n); } }
            if z.len() >= 4 && u32le(&z) > 1 << 24 { z[3] = 0; z[2] &= 3; }
            if let Ok(d) = a.decompress(&z) { ensure!(z.len() >= 4 && d.len() as u64 <= u32le(&z) as u64, "codec", "size prefix {:?} but {} bytes", &z[..4], d.len()); }
            c.eval(1);
        }
        Ok(())
    });
}
// ---------------------------------------------------------------- C09
pub fn c09(c: &mut Ctx) {
    c.case("enc/metabyte", |c| {
        for f in [false, true] { for id in 0..=255u8 {
            let m = MetaByte::new(f, id);
            ensure!(m.as_u8() == (f as u8) | ((id & 7) << 1), "enc", "MetaByte::new({f},{id}) = {:#x}", m.as_u8());
            ensure!(m.is_chunkable() == f && m.compression_method() == id & 7, "enc", "MetaByte({f},{id}) gives back ({},{})", m.is_chunkable(), m.compression_method());
            c.eval(1);
        } }
        for b in 0..=255u8 { let m = MetaByte::from_byte(b); ensure!(m.as_u8() == b && m.is_chunkable() == (b & 1 == 1) && m.compression_method() == (b >> 1) & 7, "enc", "from_byte({b:#x})"); c.eval(1); }
        Ok(())
    });
    let n = if c.thorough { 2_000_000 } else { 60_000 };
    c.case("enc/childref", |c| {
        let mut r = c.rng("cr");
        for i in 0..n {
            let (o, l) = (r.edgy(), r.edgy());
            let b = ChildRef { offset: o, length: l }.to_bytes();
            ensure!(b[..8] == o.to_le_bytes() && b[8..] == l.to_le_bytes(), "enc", "ChildRef({o},{l}) encodes {}", hex(&b));
            let mut long = b.to_vec(); let k = r.us(5); long.extend(r.bytes(k));
            let p = e2s("enc", "from_bytes", ChildRef::from_bytes(&long))?;
            ensure!(p.offset == o && p.length == l, "enc", "ChildRef({o},{l}) parses back as ({},{})", p.offset, p.length);
            if i < 64 { for s in 0..16 { ensure!(ChildRef::from_bytes(&b[..s]).is_err(), "enc", "from_bytes accepts {s} bytes"); } }
            let h = GlobalHeader::new(o, l);
            let hb = h.to_bytes();
            ensure!(hb.len() == 26 && &hb[..4] == b"PAR4" && hb[4..6] == [4, 0] && hb[6..14] == o.to_le_bytes() && hb[14..22] == l.to_le_bytes() && hb[22..] == [0; 4], "enc", "header({o},{l}) = {}", hex(&hb));
            let h = GlobalHeader { magic: [r.u64() as u8; 4], version: r.edgy() as u16, root_offset: o, root_length: l, checksum: r.edgy() as u32 };
            let hb = h.to_bytes();
            ensure!(hb[..4] == h.magic && hb[4..6] == h.version.to_le_bytes() && hb[6..14] == o.to_le_bytes() && hb[14..22] == l.to_le_bytes() && hb[22..] == h.checksum.to_le_bytes(), "enc", "header fields misplaced: {h:?} = {}", hex(&hb));
            c.eval(3);
        }
        for bit in 0..64 { let o = 1u64 << bit; let b = ChildRef { offset: o, length: !o }.to_bytes(); ensure!(u64le(&b) == o && u64le(&b[8..]) == !o, "enc", "bit {bit}"); }
        ensure!(ChildRef::SIZE == 16 && parcode::format::GLOBAL_HEADER_SIZE == 26 && &parcode::format::MAGIC_BYTES == b"PAR4", "enc", "sizes or magic");
        Ok(())
    });
}
// ---------------------------------------------------------------- C13 sinks
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Err, Zero, ErrOnce, FlushErr, Short(usize), Interrupt, Good }
#[derive(Default)]
pub struct SinkState { pub got: Vec<u8>, pub failed: bool, pub flushes: usize, calls: usize }
#[derive(Clone)]
pub struct Sink { pub s: Arc<Mutex<SinkState>>, at: usize, mode: Mode, keep: bool }
impl Sink { pub fn new(at: usize, mode: Mode) -> Sink { Sink { s: Arc::default(), at, mode, keep: true } } }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut s = self.s.lock().unwrap(); s.calls += 1;
        let left = self.at.saturating_sub(s.got.len());
        let n = match self.mode {
            Mode::Short(k) => b.len().min(1 + (s.calls * 7919) % k),
            Mode::Interrupt => { if s.calls % 2 == 1 { return Err(ErrorKind::Interrupted.into()); } b.len().min(1 + (s.calls * 31) % 4096) }
            Mode::Err if left == 0 && !b.is_empty() => { s.failed = true; return Err(std::io::Error::other("sink full")); }
            Mode::ErrOnce if left == 0 && !b.is_empty() && !s.failed => { s.failed = true; return Err(std::io::Error::other("sink failed once")); }
            Mode::Zero if left == 0 && !b.is_empty() => { s.failed = true; return Ok(0); }
            Mode::Err | Mode::Zero => b.len().min(left),
            Mode::ErrOnce if !s.failed => b.len().min(left),
            _ => b.len(),
        };
        if self.keep { s.got.extend_from_slice(&b[..n]); }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut s = self.s.lock().unwrap(); s.flushes += 1;
        if self.mode == Mode::FlushErr { s.failed = true; return Err(std::io::Error::other("flush failed")); }
        Ok(())
    }
}
fn sink_case<T: Full>(c: &mut Ctx, v: &T, want_len: usize, at: usize, mode: Mode, seq: bool, comp: bool, load: bool) -> R {
    let s = Sink::new(at, mode);
    let o = Parcode::builder().compression(comp);
    let r = if seq { o.write_sync(s.clone(), v) } else { o.write(s.clone(), v) };
    c.eval(1);
    let st = s.s.lock().unwrap();
    let what = format!("sink {mode:?} at {at} of {want_len} (seq={seq}, comp={comp})");
    match r {
        Ok(()) => {
            ensure!(!st.failed, "sink", "{what}: the destination failed but the write returned success");
            ensure!(st.got.len() == want_len, "sink", "{what}: success with {} bytes delivered of {want_len}", st.got.len());
            if let Err(b) = layout::parse_file(&st.got) { return bad("sink", format!("{what}: delivered bytes are not a complete file: {}", b.msg)); }
            if load { let x: T = e2s("sink", &what, Parcode::load_bytes(st.got.clone()))?; ensure!(&x == v, "sink", "{what}: delivered file holds another value"); }
        }
        Err(_) => ensure!(st.failed, "sink", "{what}: error although the destination never failed"),
    }
    Ok(())
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bomb(pub u32);
impl Serialize for Bomb { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if self.0 == 13 { Err(serde::ser::Error::custom("bomb")) } else { s.serialize_u32(self.0) } } }
impl<'d> Deserialize<'d> for Bomb { fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> { u32::deserialize(d).map(Bomb) } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct HasBomb { pub a: u8, pub b: Bomb }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct Bombs { pub b: Bomb, #[parcode(chunkable)] pub o: HasBomb, #[parcode(chunkable)] pub v: Vec<HasBomb>, #[parcode(map)] pub m: HashMap<Bomb, u32>, #[parcode(map)] pub mv: HashMap<u32, HasBomb>, #[parcode(chunkable)] pub bm: HashMap<u8, HasBomb>, #[parcode(chunkable)] pub vv: Vec<HoldsBomb> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct HoldsBomb { pub x: u8, #[parcode(chunkable)] pub o: HasBomb }
fn bombs(n: usize, at: usize) -> Bombs {
    let b = |k: usize, i: usize| Bomb(if at == k * 10_000 + i { 13 } else { 100 + i as u32 });
    Bombs { b: b(0, 0), o: HasBomb { a: 1, b: b(1, 0) }, v: (0..n).map(|i| HasBomb { a: 2, b: b(2, i) }).collect(), m: (0..n).map(|i| (b(3, i), i as u32)).collect(),
        mv: (0..n).map(|i| (i as u32, HasBomb { a: 3, b: b(4, i) })).collect(), bm: (0..n.min(200)).map(|i| (i as u8, HasBomb { a: 3, b: b(5, i) })).collect(), vv: (0..n).map(|i| HoldsBomb { x: 1, o: HasBomb { a: 4, b: b(6, i) } }).collect() }
}
pub fn c13(c: &mut Ctx) {
    let mut r = Rng::new(77);
    let nest = Nest { k: 5, two: two(3), list: (0..3).map(two).collect(), tail: "t".into(), flats: vec![Flat::g(&mut r, 5)] };
    macro_rules! every { ($name:expr, $v:expr, $step:expr) => {{ let v = $v; let step: usize = $step; for comp in [false, true] {
        let len = w_seq(&v, comp).map(|b| b.len()).unwrap_or(0);
        for seq in [false, true] { for (mi, mode) in [Mode::Err, Mode::Zero, Mode::ErrOnce].into_iter().enumerate() {
            let id = format!("sink/{}/{mode:?}/seq={seq}/comp={comp}", $name);
            c.case(&id, |c| { let mut at = 0; while at <= len + 2 { sink_case(c, &v, len, at, mode, seq, comp, true)?; at += step; } if mi == 0 { sink_case(c, &v, len, len, Mode::Good, seq, comp, true)?; } Ok(()) });
        }
        for mode in [Mode::Short(1), Mode::Short(3), Mode::Short(1000), Mode::Interrupt, Mode::FlushErr, Mode::Good] {
            let id = format!("sink/{}/{mode:?}/seq={seq}/comp={comp}", $name);
            c.case(&id, |c| sink_case(c, &v, len, usize::MAX, mode, seq, comp, true));
        } }
    } }} }
    every!("u64", 42u64, 1);
    every!("two", two(4), 1);
    every!("nest", nest, if c.thorough { 1 } else { 3 });
    every!("vec", (0..5000u32).collect::<Vec<_>>(), if c.thorough { 13 } else { 997 });
    every!("empty-map", HashMap::<u8, u8>::new(), 1);
    // past the 16 MiB write buffer: errors surface in the middle of the run
    let big = Two { a: (0..(20usize << 20)).map(|i| (i >> 4) as u8).collect(), x: 3, b: "tail".into(), y: "y".into(), c: 1 };
    let huge = (0..5u64 << 20).map(|i| i * 0x1_0001).collect::<Vec<u64>>();
    let blob = "q".repeat(18 << 20);
    macro_rules! large { ($name:expr, $v:expr) => {{ let v = $v; let len = w_seq(v, false).map(|b| b.len()).unwrap_or(0); for seq in [false, true] {
        let mut ats = vec![0, 1, 1 << 20, (16 << 20) - 1, 16 << 20, (16 << 20) + 1, len - 27, len - 26, len - 25, len - 1, len];
        if !c.thorough { ats = vec![0, (16 << 20) + 1, len - 1]; }
        for (i, at) in ats.into_iter().enumerate() { for mode in [Mode::Err, Mode::Zero, Mode::ErrOnce] {
            if !c.thorough && (i + mode_ix(mode)) % 3 != 0 /* a third */ && mode != Mode::ErrOnce { continue; }
            let id = format!("sink/{}/{mode:?}@{at}/seq={seq}", $name); c.case(&id, |c| sink_case(c, v, len, at, mode, seq, false, false)); } }
        for mode in [Mode::Short(1 << 20), Mode::Interrupt, Mode::FlushErr] { let id = format!("sink/{}/{mode:?}/seq={seq}", $name); c.case(&id, |c| sink_case(c, v, len, usize::MAX, mode, seq, false, mode != Mode::Interrupt)); }
    } }} }
    fn mode_ix(m: Mode) -> usize { match m { Mode::Err => 0, Mode::Zero => 1, _ => 2 } }
    large!("past-buffer", &big); large!("many-shards-past-buffer", &huge); large!("one-chunk-past-buffer", &blob);
    // serialising a part fails
    let n = if c.thorough { 3000 } else { 300 };
    c.case("ser/none-fails", |c| { let v = bombs(n, usize::MAX); for seq in [false, true] { let b = e2s("sink", "write", if seq { w_seq(&v, false) } else { w_par(&v, false) })?; ensure!(layout::parse_file(&b).is_ok(), "sink", "not a file"); c.eval(1); } Ok(()) });
    for k in 0..7 { for i in [0usize, 1, 7, 8, 9, n / 2, n - 1] { if k < 2 && i > 0 { continue; } if k == 5 && i >= 200 { continue; }
        for seq in [false, true] { for comp in [false, true] { let id = format!("ser/part={k}/i={i}/seq={seq}/comp={comp}");
            c.case(&id, |c| { let v = bombs(n, k * 10_000 + i); c.eval(1);
                let s = Sink::new(usize::MAX, Mode::Good); let o = Parcode::builder().compression(comp);
                let r = if seq { o.write_sync(s.clone(), &v) } else { o.write(s.clone(), &v) };
                ensure!(r.is_err(), "sink", "part {k} element {i} failed to serialise but the write succeeded"); Ok(()) });
        } }
    } }
    // devices and paths
    c.case("sink/dev-full", |c| { for seq in [false, true] { for comp in [false, true] { let o = Parcode::builder().compression(comp); let v = two(9);
        let r = if seq { o.save_sync("/dev/full", &v) } else { o.save("/dev/full", &v) }; c.eval(1);
        ensure!(r.is_err() || !std::path::Path::new("/dev/full").exists(), "sink", "saving to a full device reported success (seq={seq})"); } } Ok(()) });
    c.case("sink/missing-dir", |c| { let p = c.scratch.join("no/such/dir/f.par"); ensure!(Parcode::save(&p, &1u8).is_err() && Parcode::save_sync(&p, &1u8).is_err(), "sink", "saving into a missing directory succeeded"); Ok(()) });
}
// ---------------------------------------------------------------- C15
/// Makes the payload of every chunk not selected by `keep` unreadable.
fn poison(b: &[u8], t: &Tree, keep: &dyn Fn(&[usize]) -> bool) -> Vec<u8> {
    fn rec(out: &mut Vec<u8>, t: &Tree, path: &mut Vec<usize>, keep: &dyn Fn(&[usize]) -> bool) {
        if !keep(path) {
            for x in &mut out[t.off as usize..t.off as usize + t.raw.len()] { *x = 0xFF; }
            let m = (t.off + t.len - 1) as usize; out[m] = (out[m] & !0xE) | 0xE;
        }
        for (i, k) in t.kids.iter().enumerate() { path.push(i); rec(out, k, path, keep); path.pop(); }
    }
    let mut o = b.to_vec(); rec(&mut o, t, &mut vec![], keep); o
}
pub fn c15(c: &mut Ctx) {
    for comp in [false, true] {
        let n = if c.thorough { 60 } else { 8 };
        for i in 0..n {
            let id = format!("local/root-inline/{i}/comp={comp}");
            c.case(&id, |c| {
                let mut r = c.rng(&id); let v = Deep::g(&mut r, [3, 10, 25][i % 3]);
                let b = e2s("local", "write", w_par(&v, comp))?; let t = layout::parse_file(&b)?;
                let f = e2s("local", "open", Parcode::open_bytes(poison(&b, &t, &|p| p.is_empty() || p == [0] || p == [0, 0] || p == [5])))?;
                let l = e2s("local", "lazy root with only the chunks of the mirrored objects readable", f.root::<Deep>())?;
                ensure!(l.n == v.n, "local", "inline field of the root differs");
                ensure!(l.nest.k == v.nest.k && l.nest.tail == v.nest.tail, "local", "inline fields of the nested object differ"); c.eval(1); Ok(())
            });
        }
        for i in 0..n {
            let id = format!("local/two-inline/{i}/comp={comp}");
            c.case(&id, |c| {
                let mut r = c.rng(&id); let v = Two::g(&mut r, 40);
                let b = e2s("local", "write", w_par(&v, comp))?; let t = layout::parse_file(&b)?;
                let f = e2s("local", "open", Parcode::open_bytes(poison(&b, &t, &|p| p.is_empty())))?;
                let l = e2s("local", "lazy root", f.root::<Two>())?;
                ensure!(l.x == v.x && l.y == v.y, "local", "inline fields differ");
                for (k, field) in ["a", "b", "c"].iter().enumerate() {
                    let f = e2s("local", "open", Parcode::open_bytes(poison(&b, &t, &|p| p.is_empty() || p[0] == k)))?;
                    let l = e2s("local", "lazy root", f.root::<Two>())?;
                    let ok = match k { 0 => l.a.load().is_ok_and(|x| x == v.a), 1 => l.b.load().is_ok_and(|x| x == v.b), _ => l.c.load().is_ok_and(|x| x == v.c) };
                    ensure!(ok, "local", "field {field} does not load when the other fields are unreadable"); c.eval(1);
                }
                Ok(())
            });
        }
        for n in [1usize, 40, 700, 3000, 20_000] {
            let id = format!("local/vec-get/{n}/comp={comp}");
            c.case(&id, |c| {
                let v: Vec<u64> = (0..n as u64).map(|i| i.wrapping_mul(0x9E37_79B9_7F4A_7C15)).collect();
                let b = e2s("local", "write", with_cpus(2, || w_par(&v, comp)))?; let t = layout::parse_file(&b)?;
                let mut at = 0; let mut r = c.rng(&id);
                let (_, runs) = layout::parse_vec_meta(&t.payload)?;
                let sizes: Vec<usize> = runs.iter().flat_map(|(c, r)| std::iter::repeat_n(*c as usize, *r as usize)).collect();
                for (s, sz) in sizes.iter().enumerate() {
                    if sizes.len() > 12 && s > 2 && s + 2 < sizes.len() && r.below(6) != 0 { at += sz; continue; }
                    let f = e2s("local", "open", Parcode::open_bytes(poison(&b, &t, &|p| p.is_empty() || p[0] == s)))?;
                    let p = e2s("local", "root", f.root::<Vec<u64>>())?;
                    ensure!(p.len() == n, "local", "length with shards unreadable");
                    for i in [at, at + sz / 2, at + sz - 1] { let x = e2s("local", &format!("get({i}) with only shard {s} readable"), p.get(i))?; ensure!(x == v[i], "local", "get({i}) differs"); c.eval(1); }
                    at += sz;
                }
                Ok(())
            });
            if n > 3000 { continue; }
            let id = format!("local/vec-get-lazy/{n}/comp={comp}");
            c.case(&id, |c| {
                let v: Vec<Two> = (0..n).map(two).collect();
                let b = e2s("local", "write", with_cpus(2, || w_seq(&v, comp)))?; let t = layout::parse_file(&b)?;
                let (_, runs) = layout::parse_vec_meta(&t.payload)?; let mut at = 0; let mut r = c.rng(&id);
                let sizes: Vec<usize> = runs.iter().flat_map(|(c, r)| std::iter::repeat_n(*c as usize, *r as usize)).collect();
                for (s, sz) in sizes.iter().enumerate() {
                    // lazily: only container and shard; the element's own chunks too for its fields
                    let e = r.us(*sz);
                    let f = e2s("local", "open", Parcode::open_bytes(poison(&b, &t, &|p| p.is_empty() || p == [s])))?;
                    let l = e2s("local", &format!("get_lazy({}) with only shard {s} readable", at + e), e2s("local", "root", f.root::<Vec<Two>>())?.get_lazy(at + e))?;
                    ensure!(l.x == v[at + e].x && l.y == v[at + e].y, "local", "lazy element {} differs", at + e);
                    let f = e2s("local", "open", Parcode::open_bytes(poison(&b, &t, &|p| p.is_empty() || p == [s] || p[0] == s && p.len() > 1 && p[1] / 3 == e)))?;
                    let l = e2s("local", "get_lazy", e2s("local", "root", f.root::<Vec<Two>>())?.get_lazy(at + e))?;
                    ensure!(l.a.load().is_ok_and(|x| x == v[at + e].a) && l.b.load().is_ok_and(|x| x == v[at + e].b) && l.c.load().is_ok_and(|x| x == v[at + e].c), "local", "lazy fields of element {} unreadable", at + e);
                    let f = e2s("local", "open", Parcode::open_bytes(poison(&b, &t, &|p| p.is_empty() || p[0] == s)))?;
                    let x = e2s("local", "get", e2s("local", "root", f.root::<Vec<Two>>())?.get(at + e))?;
                    ensure!(x == v[at + e], "local", "get({}) differs with other shards unreadable", at + e);
                    at += sz; c.eval(3);
                }
                Ok(())
            });
        }
        for n in [1usize, 50, 4001, 9000] {
            let id = format!("local/map-get/{n}/comp={comp}");
            c.case(&id, |c| {
                let v: HashMap<u32, String> = (0..n as u32).map(|i| (i * 3, format!("v{i}"))).collect();
                let h = crate::p_rt::Holder { v: &v };
                let b = e2s("local", "write", w_par(&h, comp))?; let t = layout::parse_file(&b)?;
                let ns = t.kids.len();
                for s in 0..ns {
                    let f = e2s("local", "open", Parcode::open_bytes(poison(&b, &t, &|p| p.is_empty() || p[0] == s)))?;
                    let m = e2s("local", "root", f.root::<HashMap<u32, String>>())?;
                    let (mut hit, mut miss) = (0, 0);
                    for k in 0..(3 * n as u32 + 30) { if xxh(&k) % ns as u64 != s as u64 { continue; }
                        if v.contains_key(&k) && hit >= 25 || !v.contains_key(&k) && miss >= 25 { continue; }
                        let g = e2s("local", &format!("get({k}) with only bucket {s} readable"), m.get(&k))?;
                        ensure!(g.as_ref() == v.get(&k), "local", "get({k}) = {g:?}");
                        let g = e2s("local", &format!("get_lazy({k}) of absent with only bucket {s} readable"), if v.contains_key(&k) { Ok(false) } else { map_probe(&f, &k) })?;
                        ensure!(!g, "local", "get_lazy({k}) found an absent key");
                        if v.contains_key(&k) { hit += 1 } else { miss += 1 } c.eval(1); }
                }
                Ok(())
            });
            if n > 4001 { continue; }
            let id = format!("local/map-get-lazy/{n}/comp={comp}");
            c.case(&id, |c| {
                let v: HashMap<u32, TwoL> = (0..n as u32).map(|i| (i * 3, two_l(i as usize))).collect();
                let h = crate::p_rt::Holder { v: &v };
                let b = e2s("local", "write", w_seq(&h, comp))?; let t = layout::parse_file(&b)?; let ns = t.kids.len();
                for s in 0..ns {
                    let f = e2s("local", "open", Parcode::open_bytes(poison(&b, &t, &|p| p.is_empty() || p == [s])))?;
                    let m = e2s("local", "root", f.root::<HashMap<u32, TwoL>>())?;
                    for k in (0..3 * n as u32 + 9).step_by(if n > 100 { 41 } else { 1 }) { if xxh(&k) % ns as u64 != s as u64 { continue; }
                        match (e2s("local", &format!("get_lazy({k}) with only bucket {s} readable"), m.get_lazy(&k))?, v.get(&k)) { (None, None) => {} (Some(l), Some(w)) => ensure!(l.x == w.x && l.y == w.y, "local", "get_lazy({k}) differs"), (a, b) => return bad("local", format!("get_lazy({k}): {} want {}", a.is_some(), b.is_some())) } c.eval(1); }
                }
                Ok(())
            });
        }
    }
}
fn map_probe(f: &ParcodeFile, k: &u32) -> parcode::Result<bool> { Ok(f.root::<HashMap<u32, String>>()?.get(k)?.is_some()) }
// ---------------------------------------------------------------- C18
fn opens(b: &[u8]) -> bool { b.len() >= 26 && &b[b.len() - 26..b.len() - 22] == b"PAR4" && b[b.len() - 22] == 4 && b[b.len() - 21] == 0 }
fn open_check(c: &mut Ctx, b: &[u8], file: bool) -> R {
    let want = opens(b); c.eval(1);
    let go = |what: &str, r: parcode::Result<ParcodeFile>| -> R {
        match r {
            Ok(f) => {
                ensure!(want, "open", "{what}: opened {} bytes ending {}", b.len(), hex(&b[b.len().saturating_sub(26)..]));
                ensure!(f.file_size() == b.len() as u64, "open", "{what}: file_size {} of {}", f.file_size(), b.len());
                let (o, l) = (u64le(&b[b.len() - 20..]), u64le(&b[b.len() - 12..]));
                if let Ok(r) = f.root_node() { ensure!(r.offset() == o && r.length() == l, "open", "{what}: root [{},+{}) recorded [{o},+{l})", r.offset(), r.length()); }
                else if let Ok(t) = layout::parse_chunk(b, o, l, b.len() as u64 - 26, 0) { return bad("open", format!("{what}: recorded root [{},+{}) is a chunk but is refused", t.off, t.len)); }
            }
            Err(e) => ensure!(!want, "open", "{what}: complete file of {} bytes refused: {e}", b.len()),
        }
        Ok(())
    };
    go("open_bytes", Parcode::open_bytes(b.to_vec()))?;
    if file { let p = c.scratch.join("o.par"); std::fs::write(&p, b).unwrap(); go("open", Parcode::open(&p))?; }
    Ok(())
}
pub fn c18(c: &mut Ctx) {
    let base = w_seq(&two(5), false).unwrap();
    c.case("open/lengths", |c| {
        for n in 0..200usize { for k in 0..5 {
            let mut b = match k { 0 => vec![0; n], 1 => vec![0xFF; n], 2 => { let mut r = Rng::new(n as u64); r.bytes(n) }, 3 => base.iter().rev().take(n).rev().copied().collect(), _ => base.iter().take(n).copied().collect() };
            open_check(c, &b, true)?;
            if b.len() >= 26 { let at = b.len() - 26; b[at..at + 4].copy_from_slice(b"PAR4"); b[at + 4] = 4; b[at + 5] = 0; open_check(c, &b, true)?; }
        } }
        Ok(())
    });
    c.case("open/bit-flips", |c| { for bit in 0..26 * 8 { let mut b = base.clone(); let l = b.len(); b[l - 26 + bit / 8] ^= 1 << (bit % 8); open_check(c, &b, true)?; } Ok(()) });
    c.case("open/versions", |c| { for v in 0..=u16::MAX { let mut b = base.clone(); let l = b.len(); b[l - 22..l - 20].copy_from_slice(&v.to_le_bytes()); open_check(c, &b, v < 16)?; } Ok(()) });
    c.case("open/magic-bytes", |c| { for i in 0..4 { for x in 0..=255u8 { let mut b = base.clone(); let l = b.len(); b[l - 26 + i] = x; open_check(c, &b, false)?; } } Ok(()) });
    c.case("open/roots", |c| { let mut r = c.rng("roots"); for i in 0..(if c.thorough { 200_000 } else { 6000 }) { let mut b = base.clone(); let l = b.len(); let (o, n) = match i % 3 { 0 => (r.edgy(), r.edgy()), 1 => (r.below(l as u64 + 4), r.below(l as u64 + 4)), _ => (r.below(9), l as u64 - 26) };
        b[l - 20..l - 12].copy_from_slice(&o.to_le_bytes()); b[l - 12..l - 4].copy_from_slice(&n.to_le_bytes()); open_check(c, &b, i % 64 == 0)?; } Ok(()) });
    c.case("open/prefixes-and-tails", |c| { for n in 0..base.len() { open_check(c, &base[..n], n % 7 == 0)?; open_check(c, &base[n..], n % 7 == 0)?; let mut b = base.clone(); b.extend(vec![0; n % 40]); open_check(c, &b, false)?; } Ok(()) });
    c.case("open/leading-junk", |c| { let mut r = c.rng("junk"); for n in [1usize, 25, 26, 27, 1000, 70_000] { let mut b = r.bytes(n); b.extend(&base); open_check(c, &b, true)?; } Ok(()) });
    c.case("open/large", |c| { let b = w_seq(&vec![1u8; 3_000_000], false).unwrap(); open_check(c, &b, true) });
    c.case("open/missing", |c| { ensure!(Parcode::open(c.scratch.join("absent.par")).is_err(), "open", "opened a missing file"); ensure!(Parcode::open(&c.scratch).is_err(), "open", "opened a directory"); Ok(()) });
    c.case("open/written", |c| { let mut r = c.rng("w"); for i in 0..60 { let v = Nest::g(&mut r, 10); let b = if i % 2 == 0 { w_par(&v, i % 3 == 0) } else { w_seq(&v, i % 3 == 0) }; let b = e2s("open", "write", b)?; open_check(c, &b, true)?; } Ok(()) });
}
// ---------------------------------------------------------------- C19 / C14 task graphs
struct Job { me: usize, payload: Vec<u8>, cfg: JobConfig, fail: bool, delay: u64, log: Arc<Log> }
#[derive(Default)]
struct Log { runs: Mutex<Vec<(usize, Vec<(u64, u64)>)>> }
impl<'a> SerializationJob<'a> for Job {
    fn execute(&self, ch: &[ChildRef]) -> parcode::Result<Vec<u8>> {
        if self.delay > 0 { let t = std::time::Instant::now(); while t.elapsed().as_micros() < self.delay as u128 { std::hint::spin_loop(); } }
        self.log.runs.lock().unwrap().push((self.me, ch.iter().map(|r| (r.offset, r.length)).collect()));
        if self.fail { return Err(ParcodeError::Serialization("planned failure".into())); }
        Ok(self.payload.clone())
    }
    fn estimated_size(&self) -> usize { self.payload.len() }
    fn config(&self) -> JobConfig { self.cfg }
}
struct Plan { kids: Vec<Vec<usize>>, pay: Vec<Vec<u8>>, alg: Vec<u8>, fail: Vec<bool>, delay: Vec<u64> }
fn plan(r: &mut Rng, n: usize, fails: usize, delays: bool) -> Plan {
    let mut kids = vec![vec![]; n];
    let shape = r.below(4);
    for i in 1..n { let p = match shape { 0 => i - 1, 1 => 0, 2 => r.us(i), _ => i.saturating_sub(1 + r.us(i.min(4))) }; kids[p].push(i); }
    for k in &mut kids { for i in (1..k.len()).rev() { let j = r.us(i + 1); k.swap(i, j); } } // link order differs from creation order
    let mut fail = vec![false; n]; for _ in 0..fails { let i = r.us(n); fail[i] = true; }
    Plan { pay: (0..n).map(|i| { let l = match r.below(5) { 0 => 0, 1 => 300, _ => r.us(30) }; let mut p = (i as u32).to_le_bytes().to_vec(); p.extend(r.bytes(l)); if r.below(9) == 0 { p.clear(); } p }).collect(),
        alg: (0..n).map(|_| match r.below(4) { 0 => r.below(256) as u8, 1 => r.below(8) as u8, _ => 0 }).collect(), delay: (0..n).map(|_| if delays && r.below(3) == 0 { r.below(400) } else { 0 }).collect(), fail, kids }
}
/// Sink that yields to other threads while it is inside the writer's lock.
fn run_plan(c: &mut Ctx, p: &Plan, seq: bool, comp: bool, mode: Mode) -> R<Option<Tree>> {
    let log = Arc::new(Log::default()); let n = p.kids.len();
    let mut g = TaskGraph::new();
    let ids: Vec<ChunkId> = (0..n).map(|i| g.add_node(Box::new(Job { me: i, payload: p.pay[i].clone(), cfg: JobConfig { compression_id: p.alg[i], is_map: false }, fail: p.fail[i], delay: p.delay[i], log: log.clone() }))).collect();
    for (i, k) in p.kids.iter().enumerate() { for j in k { g.link_parent_child(ids[i], ids[*j]); } }
    let sink = Sink::new(usize::MAX, mode); let w = SeqWriter::new(sink.clone()); let reg = CompressorRegistry::new();
    let r = if seq { execute_graph_serial(&g, &w, &reg, comp) } else { execute_graph(&g, &w, &reg, comp) };
    c.eval(1);
    let what = format!("{n} tasks, seq={seq}, comp={comp}");
    let runs = std::mem::take(&mut *log.runs.lock().unwrap());
    let mut count = vec![0; n]; for (i, _) in &runs { count[*i] += 1; ensure!(count[*i] == 1, "tasks", "{what}: task {i} ran more than once"); }
    let any_fail = p.fail.iter().any(|f| *f);
    // children run (and are written) before their parent
    let pos: HashMap<usize, usize> = runs.iter().enumerate().map(|(k, (i, _))| (*i, k)).collect();
    for (i, _) in &runs { for j in &p.kids[*i] { ensure!(pos.get(j).is_some_and(|x| x < &pos[i]), "tasks", "{what}: task {i} ran before its child {j}"); ensure!(!p.fail[*j], "tasks", "{what}: task {i} ran although its child {j} failed"); } }
    match r {
        Err(e) => { ensure!(any_fail, "tasks", "{what}: no task failed but execution returned {e}"); Ok(None) }
        Ok(root) => {
            ensure!(!any_fail, "tasks", "{what}: a task failed but execution returned a location");
            ensure!(runs.len() == n, "tasks", "{what}: {} of {n} tasks ran", runs.len());
            e2s("tasks", "flush", w.flush())?;
            let got = sink.s.lock().unwrap().got.clone();
            let t = layout::parse_chunk(&got, root.offset, root.length, got.len() as u64, 0).map_err(|b| Bad { kind: "tasks", msg: format!("{what}: output does not parse: {}", b.msg) })?;
            let given: HashMap<usize, Vec<(u64, u64)>> = runs.into_iter().collect();
            fn walk(p: &Plan, given: &HashMap<usize, Vec<(u64, u64)>>, i: usize, t: &Tree, comp: bool, what: &str, total: &mut u64) -> R {
                *total += t.len;
                ensure!(t.payload == p.pay[i], "tasks", "{what}: task {i}'s chunk holds another payload");
                ensure!(t.kids.len() == p.kids[i].len(), "tasks", "{what}: task {i} has {} children recorded, {} linked", t.kids.len(), p.kids[i].len());
                let want: u8 = match (comp, p.alg[i]) { (true, 0) => 1, (_, a) if a <= 1 => a, _ => 0 };
                ensure!(t.id() == want, "tasks", "{what}: task {i} asked for algorithm {}, recorded {} (expected {want})", p.alg[i], t.id());
                for (k, j) in p.kids[i].iter().enumerate() {
                    ensure!(given[&i][k] == (t.kids[k].off, t.kids[k].len), "tasks", "{what}: task {i} was handed {:?} for child {k}, recorded at ({},{})", given[&i][k], t.kids[k].off, t.kids[k].len);
                    walk(p, given, *j, &t.kids[k], comp, what, total)?;
                }
                Ok(())
            }
            let mut total = 0; walk(p, &given, 0, &t, comp, &what, &mut total)?;
            ensure!(total == got.len() as u64, "tasks", "{what}: {} bytes written, chunks cover {total}", got.len());
            Ok(Some(t))
        }
    }
}
pub fn c19(c: &mut Ctx) {
    let reps = if c.thorough { 6000 } else { 260 };
    for i in 0..reps { for seq in [false, true] {
        let id = format!("tasks/{i}/seq={seq}");
        c.case(&id, |c| { let mut r = c.rng(&format!("tasks/{i}")); let n = [1, 2, 3, 5, 12, 60, 400][i % 7].min(1 + r.us(400)); let p = plan(&mut r, n, 0, i % 4 == 0); let m = if i % 5 == 0 { Mode::Short(50) } else { Mode::Good }; run_plan(c, &p, seq, i % 2 == 0, m).map(|_| ()) });
        let id = format!("tasks-fail/{i}/seq={seq}");
        c.case(&id, |c| { let mut r = c.rng(&format!("tf/{i}")); let n = [1, 2, 3, 5, 12, 60, 400][i % 7]; let f = 1 + r.us(2); let p = plan(&mut r, n, f, i % 3 == 0); run_plan(c, &p, seq, i % 2 == 0, Mode::Good).map(|_| ()) });
    } }
    for n in [2000usize, 30_000] { for seq in [false, true] { let id = format!("tasks/large/{n}/seq={seq}"); c.case(&id, |c| { let mut r = c.rng(&id); let mut p = plan(&mut r, n, 0, false); if p.kids.iter().enumerate().any(|(i, k)| k.len() == 1 && k[0] == i + 1 && i > 40) { p = plan_flat(&mut r, n); } run_plan(c, &p, seq, true, Mode::Good).map(|_| ()) }); } }
    for threads in [1usize, 2, 3, 8, 24] { let id = format!("tasks/pool/{threads}"); c.case(&id, |c| { let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap(); let mut r = c.rng(&id); for i in 0..40 { let p = plan(&mut r, 30, usize::from(i % 5 == 0), true); pool.install(|| run_plan(c, &p, false, i % 2 == 0, Mode::Good))?; } Ok(()) }); }
    // a failing leaf racing many slow siblings: must be an error on every schedule
    c.case("tasks/failing-leaf-among-many", |c| { let mut r = c.rng("fl"); for i in 0..60 { let n = 60; let mut p = plan_flat(&mut r, n); p.fail[1 + i % (n - 1)] = true; for d in &mut p.delay { *d = r.below(200); } run_plan(c, &p, false, false, Mode::Good)?; } Ok(()) });
    c.case("tasks/failing-writer", |c| { let mut r = c.rng("fw"); for i in 0..20 { let p = plan_flat(&mut r, 12); for seq in [false, true] {
        let log = Arc::new(Log::default()); let mut g = TaskGraph::new();
        let ids: Vec<ChunkId> = (0..12).map(|i| g.add_node(Box::new(Job { me: i, payload: vec![9; 3 << 20], cfg: JobConfig::default(), fail: false, delay: 0, log: log.clone() }))).collect();
        for k in &p.kids[0] { g.link_parent_child(ids[0], ids[*k]); }
        let s = Sink::new(i << 20, Mode::Err); let w = SeqWriter::new(s.clone()); let reg = CompressorRegistry::new();
        let r = if seq { execute_graph_serial(&g, &w, &reg, false) } else { execute_graph(&g, &w, &reg, false) };
        let fl = w.flush(); c.eval(1);
        ensure!(!(r.is_ok() && fl.is_ok()), "tasks", "writer failed at {} MiB but execution and flush succeeded (seq={seq})", i);
    } } Ok(()) });
    c.case("tasks/empty-graph", |_| { let g = TaskGraph::new(); let w = SeqWriter::new(Vec::new()); let reg = CompressorRegistry::new(); ensure!(execute_graph_serial(&g, &w, &reg, false).is_err() && execute_graph(&g, &w, &reg, false).is_err(), "tasks", "an empty graph returned a location"); Ok(()) });
}
fn plan_flat(r: &mut Rng, n: usize) -> Plan { let mut kids = vec![vec![]; n]; for i in 1..n { let p = if i < 8 { 0 } else { r.us(8.min(i)) }; kids[p].push(i); } Plan { pay: (0..n).map(|i| (i as u32).to_le_bytes().to_vec()).collect(), alg: vec![0; n], fail: vec![false; n], delay: vec![0; n], kids } }
pub fn agree_graphs(c: &mut Ctx) {
    for i in 0..(if c.thorough { 3000 } else { 150 }) { let id = format!("agree/graph/{i}"); c.case(&id, |c| {
        let mut r = c.rng(&id); let n = 1 + r.us(40); let f = usize::from(i % 6 == 0); let p = plan(&mut r, n, f, false); let comp = i % 2 == 0;
        let conv = |x: R<Option<Tree>>| x.map_err(|b| Bad { kind: "agree", msg: b.msg });
        let a = conv(run_plan(c, &p, false, comp, Mode::Good))?; let b = conv(run_plan(c, &p, true, comp, Mode::Good))?;
        ensure!(a.as_ref().map(|t| t.canon()) == b.as_ref().map(|t| t.canon()), "agree", "trees differ"); Ok(())
    }); }
}
// ---------------------------------------------------------------- C20
/// What the documented layout says about the chunk `[off, off+len)`; `Err` = must be an error.
fn spec_chunk(b: &[u8], off: u64, len: u64) -> Result<(u8, u64, u32, Vec<(u64, u64)>), ()> {
    let end = off.checked_add(len).ok_or(())?;
    if len == 0 || end > b.len() as u64 { return Err(()); }
    let ch = &b[off as usize..end as usize]; let m = ch[ch.len() - 1];
    if m & 1 == 0 { return Ok((m, end - 1, 0, vec![])); }
    if ch.len() < 5 { return Err(()); }
    let n = u32le(&ch[ch.len() - 5..]); let foot = 5 + n as u64 * 16;
    if foot > len { return Err(()); }
    let p = ch.len() - foot as usize;
    Ok((m, off + p as u64, n, (0..n as usize).map(|i| (u64le(&ch[p + 16 * i..]), u64le(&ch[p + 16 * i + 8..]))).collect()))
}
fn chunk_check(c: &mut Ctx, b: &[u8], nd: parcode::Result<ChunkNode<'_>>, off: u64, len: u64, depth: usize, budget: &mut usize) -> R {
    c.eval(1);
    if *budget == 0 { return Ok(()); } *budget -= 1;
    let what = format!("chunk [{off},+{len}) of {} bytes", b.len());
    let spec = spec_chunk(b, off, len);
    // a chunk overlapping the file header is not one the format can produce; accept either verdict
    let body = off.checked_add(len).is_some_and(|e| e <= b.len() as u64 - 26);
    match (nd, spec) {
        (Err(_), Err(())) => Ok(()),
        (Err(e), Ok(_)) => { ensure!(!body, "parse", "{what}: valid but refused: {e}"); Ok(()) }
        (Ok(_), Err(())) => bad("parse", format!("{what}: accepted although malformed")),
        (Ok(n), Ok((m, pend, cnt, refs))) => {
            ensure!(n.offset() == off && n.length() == len && n.child_count() == cnt && n.meta().as_u8() == m && n.payload_len() == pend - off, "parse", "{what}: parsed as [{},+{}) {} children flags {:#x} payload {}; recorded {cnt} children, flags {m:#x}, payload {}", n.offset(), n.length(), n.child_count(), n.meta().as_u8(), n.payload_len(), pend - off);
            let raw = &b[off as usize..pend as usize];
            match (n.read_raw(), layout::decompress((m >> 1) & 7, raw)) {
                (Ok(g), Ok(w)) => ensure!(g[..] == w[..], "parse", "{what}: payload read {} recorded {}", hex(&g), hex(&w)),
                (Err(_), Err(_)) => {}
                (a, w) => return bad("parse", format!("{what}: payload read ok={} recorded ok={}", a.is_ok(), w.is_ok())),
            }
            for extra in [0u64, 1, 7, u32::MAX as u64, u64::MAX / 16, u64::MAX - cnt as u64] { let i = (cnt as u64 + extra) as usize; ensure!(n.get_child_by_index(i).is_err(), "parse", "{what}: child {i} of {cnt} returned"); }
            let mut allok = true;
            for (i, (o, l)) in refs.iter().enumerate().take(20) {
                let k = n.get_child_by_index(i);
                let good = spec_chunk(b, *o, *l).is_ok() && o.checked_add(*l).is_some_and(|e| e <= off);
                if k.is_err() { ensure!(!good, "parse", "{what}: child {i} at [{o},+{l}) refused"); allok = false; continue; }
                ensure!(spec_chunk(b, *o, *l).is_ok(), "parse", "{what}: child {i} at [{o},+{l}) accepted although malformed");
                if depth < 4 { chunk_check(c, b, k, *o, *l, depth + 1, budget)?; }
            }
            match n.children() {
                Ok(v) => { ensure!(v.len() == cnt as usize, "parse", "{what}: children() returned {} of {cnt}", v.len()); for (a, r) in v.iter().zip(&refs) { ensure!((a.offset(), a.length()) == *r, "parse", "{what}: children() out of order"); } }
                Err(e) => ensure!(!allok || refs.len() > 20, "parse", "{what}: children() failed although every child parses: {e}"),
            }
            Ok(())
        }
    }
}
pub fn c20(c: &mut Ctx) {
    let n = if c.thorough { 150_000 } else { 6000 };
    for blk in 0..(n / 200) { let id = format!("parse/random/{blk}"); c.case(&id, |c| {
        let mut r = c.rng(&id);
        for _ in 0..200 {
            // chunks end to end, with footers that are right, off by one, or wild
            let mut b: Vec<u8> = vec![]; let mut chunks: Vec<(u64, u64)> = vec![];
            for _ in 0..1 + r.us(6) {
                let off = b.len() as u64; let pl = r.us(24); let alg = [0u8, 0, 0, 1, 1, 2, 7][r.us(7)];
                let mut p = r.bytes(pl); if alg == 1 && r.bool() { p = lz4_flex::compress_prepend_size(&p); } else if alg == 1 && p.len() >= 4 { p[3] = 0; p[2] = 0; }
                b.extend(p);
                let flag = r.bool();
                if flag {
                    let k = r.us(4);
                    for _ in 0..k { let (o, l) = if !chunks.is_empty() && r.below(4) != 0 { chunks[r.us(chunks.len())] } else { (r.edgy() % 200, r.edgy() % 100) }; let (o, l) = if r.below(12) == 0 { (r.edgy(), r.edgy()) } else { (o, l) }; b.extend(o.to_le_bytes()); b.extend(l.to_le_bytes()); }
                    let cnt = match r.below(8) { 0 => k as u32 + 1, 1 => r.edgy() as u32, 2 => (k as u32).wrapping_sub(1), _ => k as u32 }; b.extend(cnt.to_le_bytes());
                }
                b.push((if r.below(10) == 0 { (r.u64() as u8) & 0xF0 } else { 0 }) | alg << 1 | flag as u8);
                chunks.push((off, b.len() as u64 - off));
            }
            let end = b.len() as u64; let (mut ro, mut rl) = chunks[chunks.len() - 1];
            match r.below(6) { 0 => { ro = r.below(end + 3); rl = r.below(end + 3); } 1 => { rl = r.below(7); ro = end - rl.min(end); } 2 => { ro = ro.saturating_sub(r.below(3)); } 3 if r.below(4) == 0 => { ro = r.edgy(); rl = r.edgy(); } _ => {} }
            tail(&mut b, ro, rl);
            let f = e2s("parse", "open", Parcode::open_bytes(b.clone()))?;
            let mut budget = 60;
            chunk_check(c, &b, f.root_node(), ro, rl, 0, &mut budget)?;
        }
        Ok(())
    }); }
    // exact boundaries of the footer arithmetic
    c.case("parse/boundaries", |c| {
        for k in 0..4u32 { for delta in -2i64..=2 { for pl in [0usize, 1, 3, 15, 16, 17] { for len_delta in -3i64..=3 {
            let mut b = vec![0xABu8; 40]; b[39] = 0; // a leading leaf chunk [0,40)
            let off = b.len() as u64; b.extend(vec![7; pl]);
            for _ in 0..k { b.extend(0u64.to_le_bytes()); b.extend(40u64.to_le_bytes()); }
            b.extend(((k as i64 + delta).max(0) as u32).to_le_bytes()); b.push(1);
            let len = (b.len() as u64 - off) as i64 + len_delta; let o = b.len() as u64 - len.max(0) as u64;
            for (o, l) in [(off, len.max(0) as u64), (o, len.max(0) as u64)] {
                let mut f = b.clone(); tail(&mut f, o, l);
                let p = e2s("parse", "open", Parcode::open_bytes(f.clone()))?; let mut budget = 30;
                chunk_check(c, &f, p.root_node(), o, l, 0, &mut budget)?;
            }
        } } } }
        for cnt in [0u32, 1, 0x0FFF_FFFF, 0x1000_0000, 0x1000_0001, u32::MAX - 1, u32::MAX] { for l in 0..40u64 {
            let mut f = vec![1u8; 60]; f.extend(cnt.to_le_bytes()); f.push(1); let o = 65 - l; tail(&mut f, o, l);
            let p = e2s("parse", "open", Parcode::open_bytes(f.clone()))?; let mut budget = 30; chunk_check(c, &f, p.root_node(), o, l, 0, &mut budget)?;
        } }
        for o in [0u64, 1, 64, 65, 66, 90, 91, 92, u32::MAX as u64, u64::MAX - 1, u64::MAX, 1 << 63] { for l in [0u64, 1, 25, 26, 27, 65, 66, 91, 92, u32::MAX as u64, 1 << 63, u64::MAX - 64, u64::MAX] {
            let mut f = vec![0u8; 65]; tail(&mut f, o, l); let p = e2s("parse", "open", Parcode::open_bytes(f.clone()))?; let mut budget = 30; chunk_check(c, &f, p.root_node(), o, l, 0, &mut budget)?;
        } }
        Ok(())
    });
    for i in 0..(if c.thorough { 300 } else { 25 }) { let id = format!("parse/written/{i}"); c.case(&id, |c| {
        let mut r = c.rng(&id); let v = Bag::g(&mut r, 12); let comp = i % 2 == 0; let b = e2s("parse", "write", if i % 3 == 0 { w_seq(&v, comp) } else { w_par(&v, comp) })?;
        let (o, l) = layout::header(&b)?; let f = e2s("parse", "open", Parcode::open_bytes(b.clone()))?; let mut budget = 4000; chunk_check(c, &b, f.root_node(), o, l, 0, &mut budget)
    }); }
    c.case("parse/wide", |c| { let kids: Vec<N> = (0..3000u32).map(|i| leaf(i.to_le_bytes().to_vec())).collect(); let b = build(&node(vec![1, 2, 3], kids)); let (o, l) = layout::header(&b)?; let f = e2s("parse", "open", Parcode::open_bytes(b.clone()))?; let n = e2s("parse", "root", f.root_node())?;
        for i in 0..3000usize { let k = e2s("parse", "child", n.get_child_by_index(i))?; let p = e2s("parse", "read", k.read_raw())?; ensure!(p[..] == (i as u32).to_le_bytes(), "parse", "child {i} is another chunk"); c.eval(1); } let mut budget = 10; chunk_check(c, &b, Ok(n), o, l, 0, &mut budget) });
}
// ---------------------------------------------------------------- C21
pub fn c21(c: &mut Ctx) {
    let reps = if c.thorough { 600 } else { 50 };
    for i in 0..reps { for mode in [Mode::Good, Mode::Short(200_000)] { let id = format!("append/{i}/{mode:?}"); c.case(&id, |c| {
        let mut r = c.rng(&id); let threads = [1, 2, 4, 8, 16][i % 5]; let per = if i % 10 == 9 { 6 } else { 60 };
        let s = Sink::new(usize::MAX, mode); let w = SeqWriter::new(s.clone());
        let plans: Vec<Vec<usize>> = (0..threads).map(|_| (0..per).map(|_| if i % 10 == 9 { [0, 1, 100, 3 << 20, (16 << 20) + 5][r.us(5)] } else { match r.below(4) { 0 => 0, 1 => r.us(5), 2 => r.us(400), _ => r.us(20_000) } }).collect()).collect();
        let out: Mutex<Vec<(u64, usize, u64)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| { for (t, p) in plans.iter().enumerate() { let (w, out) = (&w, &out); sc.spawn(move || { for (k, n) in p.iter().enumerate() { let tag = (t * 1000 + k) as u64; let b = body(tag, *n); let o = w.write_all(&b).map_err(|e| e.to_string()); out.lock().unwrap().push((tag, *n, o.unwrap_or(u64::MAX))); if k % 17 == 3 { let _ = w.flush(); } } }); } });
        e2s("append", "flush", w.flush())?;
        let got = std::mem::take(&mut s.s.lock().unwrap().got); let mut v = out.into_inner().unwrap(); c.eval(v.len() as u64);
        let total: usize = v.iter().map(|x| x.1).sum();
        ensure!(got.len() == total, "append", "{} bytes in the output, {total} appended", got.len());
        v.sort_by_key(|x| (x.2, x.1)); let mut at = 0u64;
        for (tag, n, o) in v { ensure!(o == at, "append", "append of {n} bytes was told offset {o}, expected {at}"); ensure!(got[o as usize..o as usize + n] == body(tag, n)[..], "append", "bytes at {o} are not the ones appended there"); at += n as u64; }
        Ok(())
    }); } }
    c.case("append/file", |c| { let p = c.scratch.join("seq.bin"); { let w = e2s("append", "create", SeqWriter::create(&p))?; let mut at = 0; for i in 0..200u64 { let b = body(i, (i * 37 % 900) as usize); let o = e2s("append", "write", w.write_all(&b))?; ensure!(o == at, "append", "offset {o} expected {at}"); at += b.len() as u64; } e2s("append", "flush", w.flush())?; let g = std::fs::read(&p).unwrap(); ensure!(g.len() as u64 == at, "append", "file holds {} of {at}", g.len()); } Ok(()) });
    c.case("append/into-inner", |_| { let w = SeqWriter::new(Vec::new()); e2s("append", "w", w.write_all(b"abc"))?; e2s("append", "w", w.write_all(b"de"))?; let b = e2s("append", "into_inner", w.into_inner())?; let v = b.into_inner().map_err(|e| Bad { kind: "append", msg: e.to_string() })?; ensure!(v == b"abcde", "append", "into_inner lost bytes: {v:?}"); Ok(()) });
    // after a failed append nothing claims bytes that never arrived
    c.case("append/error-surfaces", |c| { for at in [0usize, 1, 100, 17 << 20] { let s = Sink::new(at, Mode::Err); let w = SeqWriter::new(s.clone()); let mut ok = true; for i in 0..8 { ok &= w.write_all(&vec![i; 4 << 20]).is_ok(); } ok &= w.flush().is_ok(); ensure!(!ok, "append", "sink failing at {at} never reported"); c.eval(1); } Ok(()) });
}
fn body(tag: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(tag); let blk: Vec<u8> = (0..509).map(|_| r.u64() as u8).collect();
    let mut v = blk.repeat(n / 509 + 1); v.truncate(n);
    for (i, s) in v.chunks_mut(4096).enumerate() { s[0] = s[0].wrapping_add(i as u8); if s.len() > 1 { s[1] = s[1].wrapping_add((i >> 8) as u8); } }
    v
}
// ---------------------------------------------------------------- C12
static LIVE: AtomicI64 = AtomicI64::new(0);
static READS: AtomicUsize = AtomicUsize::new(0);
static RANGES: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
#[derive(Debug)]
struct Trk<const P: usize> { magic: u64, v: u32, heap: Box<u32>, _pad: [u8; P] }
impl<const P: usize> Drop for Trk<P> { fn drop(&mut self) { if self.magic != 0xC0FF_EE00_1234_5678 ^ self.v as u64 || *self.heap != self.v { eprintln!("dropped uninitialised element"); std::process::abort(); } LIVE.fetch_sub(1, SeqCst); self.magic = 0xDEAD; } }
impl<const P: usize> ParcodeItem for Trk<P> {
    fn read_from_shard(rd: &mut Cursor<&[u8]>, _: &mut std::vec::IntoIter<ChunkNode<'_>>) -> parcode::Result<Self> {
        READS.fetch_add(1, SeqCst);
        let v: u32 = bincode::serde::decode_from_std_read(rd, bincode::config::standard()).map_err(|e| ParcodeError::Serialization(e.to_string()))?;
        LIVE.fetch_add(1, SeqCst);
        Ok(Trk { magic: 0xC0FF_EE00_1234_5678 ^ v as u64, v, heap: Box::new(v), _pad: [0; P] })
    }
}
/// Records the destination ranges handed to each shard.
#[derive(Debug)]
struct Rng2(#[allow(dead_code)] u32);
impl ParcodeItem for Rng2 {
    fn read_from_shard(rd: &mut Cursor<&[u8]>, _: &mut std::vec::IntoIter<ChunkNode<'_>>) -> parcode::Result<Self> { bincode::serde::decode_from_std_read(rd, bincode::config::standard()).map(Rng2).map_err(|e| ParcodeError::Serialization(e.to_string())) }
    fn read_into_slice(rd: &mut Cursor<&[u8]>, _: &mut std::vec::IntoIter<ChunkNode<'_>>, d: &mut [MaybeUninit<Self>]) -> parcode::Result<usize> {
        RANGES.lock().unwrap().push((d.as_ptr() as usize, d.as_ptr() as usize + size_of_val(d)));
        let n: u64 = bincode::serde::decode_from_std_read(rd, bincode::config::standard()).map_err(|e| ParcodeError::Serialization(e.to_string()))?;
        if n as usize > d.len() { return Err(ParcodeError::Format("too small".into())); }
        for s in d.iter_mut().take(n as usize) { let v: u32 = bincode::serde::decode_from_std_read(rd, bincode::config::standard()).map_err(|e| ParcodeError::Serialization(e.to_string()))?; s.write(Rng2(v)); }
        Ok(n as usize)
    }
}
/// Shards of `sizes` real elements each, holding declared counts `held`, described by `runs` and `total`.
fn mem_file(sizes: &[usize], held: &[u64], runs: &[(u64, u64)], total: u64, id: u8) -> Vec<u8> {
    let mut k = 0u64; let mut sh = vec![];
    for (s, h) in sizes.iter().zip(held) { let mut p = varint(*h); for _ in 0..*s { p.extend(varint(k)); k += 1; } let mut n = leaf(p); n.id = id; sh.push(n); }
    let mut root = node(vec_meta(total, runs), sh); root.id = id; build(&root)
}
fn mem_case<const P: usize>(c: &mut Ctx, sizes: &[usize], held: &[u64], runs: &[(u64, u64)], total: u64, id: u8) -> R {
    c.eval(1);
    let what = format!("shards of {sizes:?} elements declaring {held:?}, table {runs:?}, total {total}");
    let f = e2s("mem", "open", Parcode::open_bytes(mem_file(sizes, held, runs, total, id)))?;
    let flat: Vec<u64> = runs.iter().flat_map(|(c, r)| std::iter::repeat_n(*c, (*r).min(1000) as usize)).collect();
    let consistent = flat.len() == sizes.len() && flat == held && held.iter().zip(sizes).all(|(h, s)| *h == *s as u64) && total == flat.iter().sum::<u64>();
    let before = LIVE.load(SeqCst);
    match e2s("mem", "root", f.root_node())?.decode_parallel_collection::<Trk<P>>() {
        Ok(v) => {
            ensure!(v.len() as u64 == total, "mem", "{what}: vector of {} elements", v.len());
            for (i, e) in v.iter().enumerate() { ensure!(e.magic == 0xC0FF_EE00_1234_5678 ^ e.v as u64 && *e.heap == e.v, "mem", "{what}: element {i} was never written"); }
            if sizes.iter().zip(held).all(|(s, h)| *s as u64 == *h) { for (i, e) in v.iter().enumerate() { ensure!(e.v as usize == i, "mem", "{what}: slot {i} holds element {}", e.v); } }
            ensure!(LIVE.load(SeqCst) - before == v.len() as i64, "mem", "{what}: {} elements alive for {} slots", LIVE.load(SeqCst) - before, v.len());
            // more elements declared in a shard than it holds, or table against shards, must not pass
            ensure!(held.iter().zip(&flat).all(|(h, d)| h == d) && flat.len() == sizes.len(), "mem", "{what}: accepted");
            drop(v); ensure!(LIVE.load(SeqCst) == before, "mem", "{what}: double drop or leak");
        }
        Err(e) => ensure!(!consistent, "mem", "{what}: consistent but refused: {e}"),
    }
    RANGES.lock().unwrap().clear();
    let r = e2s("mem", "root", f.root_node())?.decode_parallel_collection::<Rng2>();
    let mut rs = std::mem::take(&mut *RANGES.lock().unwrap()); rs.retain(|x| x.0 < x.1); rs.sort();
    for w in rs.windows(2) { ensure!(w[0].1 <= w[1].0, "mem", "{what}: destination ranges {:x?} overlap", w); }
    let span = (rs.last().map_or(0, |x| x.1)) - rs.first().map_or(0, |x| x.0);
    ensure!(span as u64 <= total.saturating_mul(4), "mem", "{what}: destination ranges span {span} bytes, buffer holds {total} elements");
    if let Ok(v) = r { let b = v.as_ptr() as usize; for x in &rs { ensure!(x.0 >= b && x.1 <= b + v.len() * 4, "mem", "{what}: destination range outside the buffer"); } ensure!(rs.iter().map(|x| x.1 - x.0).sum::<usize>() == v.len() * 4, "mem", "{what}: not every slot was handed out"); }
    Ok(())
}
pub fn c12(c: &mut Ctx) {
    let n = if c.thorough { 60_000 } else { 2500 };
    for blk in 0..(n / 50) { let id = format!("mem/{blk}"); c.case(&id, |c| {
        let mut r = c.rng(&id);
        for _ in 0..50 {
            let ns = 1 + r.us(6);
            let base = r.us(6); let sizes: Vec<usize> = (0..ns).map(|_| if r.below(3) == 0 { r.us(40) } else { base }).collect();
            let mut held: Vec<u64> = sizes.iter().map(|s| *s as u64).collect(); let mut decl = held.clone();
            match r.below(6) { 0 => { let i = r.us(ns); held[i] = held[i].wrapping_add(1); } 1 => { let i = r.us(ns); held[i] = held[i].saturating_sub(1); } 2 => { let i = r.us(ns); decl[i] += 1; if r.bool() { let j = r.us(ns); decl[j] = decl[j].saturating_sub(1); } } 3 => { let i = r.us(ns); decl[i] = r.edgy() & 0xFFFF_FFFF; } 4 => { let i = r.us(ns); held[i] = r.edgy(); } _ => {} }
            let mut runs: Vec<(u64, u64)> = vec![]; for d in &decl { match runs.last_mut() { Some(l) if l.0 == *d && r.below(5) != 0 => l.1 += 1, _ => runs.push((*d, 1)) } }
            match r.below(10) { 0 => { runs.pop(); } 1 => { let k = runs.len(); runs[r.us(k)].1 += 1; } 2 => { runs.push((0, r.below(3))); } 3 => { runs.push((r.below(4), 1)); } 4 => { let k = runs.len(); runs[r.us(k)].1 = r.edgy() & 0xFFFF_FFFF; } _ => {} }
            let t: u64 = runs.iter().fold(0u64, |a, (c, r)| a.wrapping_add(c.wrapping_mul(*r)));
            let total = match r.below(8) { 0 => t.wrapping_add(1), 1 => t.wrapping_sub(1), 2 => r.edgy(), 3 => held.iter().fold(0u64, |a, b| a.wrapping_add(*b)), _ => t };
            if total > 1 << 32 && total < 1 << 58 && t == total { continue; } // would reserve real memory for a consistent total
            let alg = r.below(2) as u8;
            if r.bool() { mem_case::<0>(c, &sizes, &held, &runs, total, alg)?; } else { mem_case::<41>(c, &sizes, &held, &runs, total, alg)?; }
        }
        Ok(())
    }); }
    c.case("mem/well-formed", |c| { let mut r = c.rng("wf"); for i in 0..120 { let ns = 1 + r.us(60); let sizes: Vec<usize> = (0..ns).map(|_| r.us(70)).collect(); let held: Vec<u64> = sizes.iter().map(|s| *s as u64).collect(); let runs: Vec<(u64, u64)> = held.iter().map(|h| (*h, 1)).collect(); let t = held.iter().sum(); mem_case::<3>(c, &sizes, &held, &runs, t, (i % 2) as u8)?; } Ok(()) });
    c.case("mem/u8-bulk-copy", |c| { // the byte fast path: declared counts against the bytes present
        for have in 0..12usize { for held in 0..14u64 { for decl in 0..14u64 { let mut p = varint(held); p.extend((0..have).map(|i| i as u8)); let b = build(&node(vec_meta(decl, &[(decl, 1)]), vec![leaf(p)]));
            let f = e2s("mem", "open", Parcode::open_bytes(b))?; c.eval(1);
            match f.load::<Vec<u8>>() { Ok(v) => ensure!(v.len() as u64 == decl && held == decl && have as u64 >= held && v.iter().enumerate().all(|(i, x)| *x as usize == i), "mem", "{have} bytes, shard says {held}, table says {decl}: loaded {v:?}"), Err(_) => ensure!(!(held == decl && have as u64 >= held), "mem", "{have} bytes, {held}, {decl}: refused") } } } } Ok(()) });
    c.case("mem/written", |c| { let mut r = c.rng("wr"); for i in 0..40 { let n = [0usize, 1, 31, 33, 500, 5000][i % 6]; let v: Vec<String> = (0..n).map(|_| String::g(&mut r, 20)).collect(); let b = e2s("mem", "write", with_cpus(1 + i % 3, || w_par(&v, i % 2 == 0)))?; let x: Vec<String> = e2s("mem", "load", Parcode::load_bytes(b))?; ensure!(x == v, "mem", "strings differ"); c.eval(1); } Ok(()) });
    // a shard that fails midway: the whole load is an error, nothing half-initialised is dropped
    c.case("mem/failing-shard", |c| { for bad_at in 0..6usize { for cut in 0..5usize { let mut sh = vec![]; for s in 0..6usize { let cnt = 5u64; let mut p = varint(cnt); for k in 0..(if s == bad_at { cut } else { 5 }) { p.extend(varint((s * 5 + k) as u64)); } sh.push(leaf(p)); }
        let f = e2s("mem", "open", Parcode::open_bytes(build(&node(vec_meta(30, &[(5, 6)]), sh))))?; c.eval(1);
        ensure!(e2s("mem", "root", f.root_node())?.decode_parallel_collection::<Trk<7>>().is_err(), "mem", "shard {bad_at} cut after {cut} elements was accepted"); } } Ok(()) });
}
// ---------------------------------------------------------------- C11
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug, parcode::ParcodeObject)]
pub struct HFlat { pub a: u8, pub b: u32, pub d: Option<u16>, pub e: Vec<u32>, pub f: i64, pub g: bool, pub h: f64, pub m: HashMap<u8, u16> }
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug, parcode::ParcodeObject)]
pub struct HTwo { #[parcode(chunkable)] pub a: Vec<u8>, pub x: u16, #[parcode(chunkable)] pub b: Vec<u32>, #[parcode(chunkable)] pub c: u64 }
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug, parcode::ParcodeObject)]
pub struct HNest { pub k: u64, #[parcode(chunkable)] pub two: HTwo, #[parcode(chunkable)] pub list: Vec<HTwo>, #[parcode(chunkable)] pub flats: Vec<HFlat>, #[parcode(map)] pub m: HashMap<u32, u64>, #[parcode(map)] pub mt: HashMap<u32, HTwo>, #[parcode(chunkable)] pub bm: HashMap<u16, u16> }
fn h2(i: usize) -> HTwo { HTwo { a: vec![i as u8; i % 7], x: i as u16, b: (0..(i % 5) as u32).collect(), c: i as u64 } }
fn hf(i: usize) -> HFlat { HFlat { a: i as u8, b: i as u32 * 99, d: if i % 2 == 0 { Some(3) } else { None }, e: (0..(i % 4) as u32).collect(), f: -(i as i64), g: i % 3 == 0, h: i as f64, m: [(1, 2)].into() } }
fn hn(n: usize) -> HNest { HNest { k: 7, two: h2(3), list: (0..n).map(h2).collect(), flats: (0..n).map(hf).collect(), m: (0..n as u32).map(|i| (i, i as u64)).collect(), mt: (0..n as u32).map(|i| (i, h2(i as usize))).collect(), bm: [(1, 2), (3, 4)].into() } }
/// Every read operation on a file of unknown content. Nothing may panic; results are not judged.
pub fn poke(c: &mut Ctx, b: &[u8], lim: usize) {
    let Ok(f) = Parcode::open_bytes(b.to_vec()) else { return };
    let mut ops = 0u64;
    macro_rules! o { ($($e:expr);* $(;)?) => { $( { let _ = $e; ops += 1; } )* } }
    o!(f.load::<u8>(); f.load::<u64>(); f.load::<bool>(); f.load::<f64>(); f.load::<i128>(); f.load::<Vec<u8>>(); f.load::<Vec<u32>>(); f.load::<Vec<bool>>(); f.load::<Vec<HTwo>>(); f.load::<Vec<HFlat>>(); f.load::<HTwo>(); f.load::<HFlat>(); f.load::<HNest>();
        f.load::<HashMap<u32, u64>>(); f.load::<HashMap<u16, u16>>(); f.load::<HashMap<u32, HTwo>>(); f.load::<Vec<HNest>>(); f.inspect().map(|r| r.to_string()));
    if let Ok(n) = f.root_node() {
        walk(&n, 0, &mut 300);
        o!(n.len(); n.is_empty(); n.get::<u32>(0); n.get::<u8>(3); n.get::<HTwo>(1); n.payload_len());
        if let Ok(it) = n.clone().iter::<u32>() { o!(it.take(lim).count()); }
        if let Ok(it) = n.clone().iter::<HTwo>() { o!(it.take(lim).count()); }
        if let Ok(it) = n.clone().iter::<u8>() { o!(it.take(lim).count()); }
    }
    if let Ok(p) = f.root::<Vec<u32>>() { o!(p.len(); p.is_empty()); for i in [0, 1, 5, 31, 100, usize::MAX, u32::MAX as usize] { o!(p.get(i); p.get_lazy(i)); } o!(p.load(); p.first(); p.last()); if let Ok(it) = p.iter() { o!(it.take(lim).count()); } if let Ok(it) = p.iter_lazy() { let _ = it.size_hint(); o!(it.take(lim).count()); } }
    if let Ok(p) = f.root::<Vec<HTwo>>() { for i in [0, 1, 5, 31, usize::MAX] { o!(p.get(i)); if let Ok(l) = p.get_lazy(i) { o!(l.a.load(); l.b.get(0); l.c.load(); l.b.iter().map(|i| i.take(lim).count())); } } o!(p.first(); p.last()); if let Ok(mut it) = p.iter_lazy() { let mut k = 0; while k < lim { let _ = it.len(); match it.next() { Some(Ok(l)) => { o!(l.a.load(); l.c.load()); } Some(Err(_)) => {} None => break } k += 1; } } }
    if let Ok(l) = f.root::<HTwo>() { o!(l.a.load(); l.b.load(); l.c.load(); l.a.get(2); l.b.len()); }
    if let Ok(l) = f.root::<HNest>() { o!(l.two.a.load(); l.list.load(); l.list.get_lazy(1); l.flats.iter_lazy().map(|i| i.take(lim).count()); l.m.get(&3); l.m.load(); l.mt.get(&2); l.mt.get_lazy(&2); l.bm.load(); l.bm.get(&1)); if let Ok(it) = l.list.iter() { o!(it.take(lim).count()); } }
    if let Ok(m) = f.root::<HashMap<u32, u64>>() { for k in [0u32, 1, 2, 3, 77, u32::MAX] { o!(m.get(&k)); } o!(m.load()); }
    if let Ok(m) = f.root::<HashMap<u32, HTwo>>() { for k in [0u32, 1, 2, 3, 77] { o!(m.get(&k)); if let Ok(Some(l)) = m.get_lazy(&k) { o!(l.a.load(); l.c.load()); } } o!(m.load()); }
    c.eval(ops);
}
fn walk(n: &ChunkNode<'_>, d: usize, left: &mut usize) { if d > 12 || *left == 0 { return; } *left -= 1; let _ = n.read_raw(); let _ = n.len(); for i in [0usize, 1, 2, n.child_count() as usize, usize::MAX] { let _ = n.get_child_by_index(i); } if let Ok(k) = n.children() { for k in &k { walk(k, d + 1, left); } } }
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.us(3) {
        if b.is_empty() { return; }
        let l = b.len();
        match r.below(9) {
            0 => { b[r.us(l)] ^= 1 << r.us(8); } 1 => { b[r.us(l)] = [0u8, 1, 2, 3, 250, 251, 252, 253, 254, 255][r.us(10)]; }
            2 => { let i = r.us(l); let v = r.edgy().to_le_bytes(); let k = [1usize, 2, 4, 8][r.us(4)]; for j in 0..k { if i + j < l { b[i + j] = v[j]; } } }
            3 => { let i = r.us(l); let v = r.below(l as u64 + 20).to_le_bytes(); for j in 0..8 { if i + j < l { b[i + j] = v[j]; } } }
            4 => { if l > 26 { let i = l - 20 + 8 * r.us(2); let v = if r.bool() { r.below(l as u64) } else { r.edgy() }; b[i..i + 8].copy_from_slice(&v.to_le_bytes()); } }
            5 => { let i = r.us(l); let k = r.us((l - i).min(30) + 1); b.drain(i..i + k); }
            6 => { let i = r.us(l); let n = r.us(20); let x = r.bytes(n); b.splice(i..i, x); }
            7 => { let i = r.us(l); let j = r.us(l); let k = r.us(20); for t in 0..k { if i + t < l && j + t < l { b[i + t] = b[j + t]; } } }
            _ => { let i = r.us(l); let k = [8usize, 16][r.us(2)]; for t in 0..k { if i + t < l { b[i + t] = 0xFF; } } }
        }
    }
    // keep the LZ4 size prefixes that mutations inflate from reserving gigabytes: see DESIGN (dependency behaviour)
}
pub fn c11(c: &mut Ctx) {
    let bases: Vec<(&str, Vec<u8>)> = vec![
        ("nest", w_seq(&hn(3), false).unwrap()), ("nest-lz4", w_seq(&hn(3), true).unwrap()), ("nest-empty", w_seq(&hn(0), false).unwrap()), ("two", w_seq(&h2(9), false).unwrap()),
        ("vec-u32", with_cpus(2, || w_seq(&(0..4000u32).map(|i| i * 77).collect::<Vec<_>>(), false)).unwrap()), ("vec-two", w_seq(&(0..40).map(h2).collect::<Vec<_>>(), false).unwrap()), ("vec-flat", w_seq(&(0..20).map(hf).collect::<Vec<_>>(), false).unwrap()),
        ("map", w_seq(&crate::p_rt::Holder { v: &(0..30u32).map(|i| (i, i as u64)).collect::<HashMap<_, _>>() }, false).unwrap()), ("map-two", w_seq(&crate::p_rt::Holder { v: &(0..9u32).map(|i| (i, h2(i as usize))).collect::<HashMap<_, _>>() }, false).unwrap()),
        ("map-blob", w_seq(&(0..9u16).map(|i| (i, i)).collect::<HashMap<_, _>>(), false).unwrap()), ("u64", w_seq(&7u64, false).unwrap()), ("tiny-vec", w_seq(&vec![1u32, 2, 3], false).unwrap()),
    ];
    for (n, b) in &bases { let id = format!("hostile/{n}/intact"); c.case(&id, |c| { poke(c, b, 5000); Ok(()) }); }
    // every single byte of small files set to hostile values
    for (n, b) in bases.iter().filter(|x| x.1.len() < 900) { for part in 0..8usize { let id = format!("hostile/{n}/bytes/{part}"); c.case(&id, |c| {
        for i in (part..b.len()).step_by(8) { for v in if c.thorough { &[0u8, 1, 2, 0x0F, 0x7F, 0x80, 251, 252, 253, 254, 255][..] } else { &[0u8, 1, 253, 255][..] } { let mut x = b.clone(); x[i] = *v; poke(c, &x, 300); } } Ok(()) }); } }
    for (n, b) in bases.iter().filter(|x| x.1.len() < 700) { let id = format!("hostile/{n}/words"); c.case(&id, |c| {
        for i in 0..b.len().saturating_sub(8) { for v in [u64::MAX, u32::MAX as u64, 1 << 63, 0, (i as u64) << 1] { let k = if v == u32::MAX as u64 { 4 } else { 8 }; if !c.thorough && i.wrapping_add(v as usize) % 3 != 0 { continue; } let mut x = b.clone(); x[i..i + k].copy_from_slice(&v.to_le_bytes()[..k]); poke(c, &x, 300); } } Ok(()) }); }
    for (n, b) in bases.iter().filter(|x| x.1.len() < 900) { let id = format!("hostile/{n}/truncated"); c.case(&id, |c| { for i in 0..b.len() { poke(c, &b[..i], 100); poke(c, &b[i..], 100); let mut x = b[..i].to_vec(); x.extend(&b[b.len() - 26..]); poke(c, &x, 100); } Ok(()) }); }
    // structured damage: tables and counts that lie
    let t = u64::MAX; let m = u32::MAX as u64;
    let shard = |n: u64, k: u32| { let mut p = varint(n); for i in 0..k { p.extend(varint(i as u64)); } leaf(p) };
    for (i, (total, runs, kids)) in [(0u64, vec![(m, m)], 1u32), (t, vec![(m, m)], 1), (10, vec![(10, m)], 1), (0, vec![(0, m)], 1), (0, vec![(0, m)], 0), (t, vec![], 3), (5, vec![(0, 5), (5, 1)], 6), (1 << 40, vec![(1 << 31, 512)], 3), (t, vec![(m, m), (m, m), (m, m)], 2), (m, vec![(m, 1)], 1), (3, vec![(1, 3)], 1), (7, vec![(7, 1)], 5), (1 << 62, vec![(1 << 31, 1 << 31)], 1), (0, vec![(0, 1); 300], 300), (6, vec![(3, 2)], 2), (0, vec![(m, 0), (0, 0)], 1), (2, vec![(m, 0), (2, 1)], 1)].into_iter().enumerate() {
        for held in [0u64, 1, 3, 7, m, t] { let id = format!("hostile/table/{i}/held={held}"); let runs = runs.clone(); c.case(&id, |c| { let b = build(&node(vec_meta(total, &runs), (0..kids).map(|_| shard(held, 3)).collect())); poke(c, &b, 5000); let f = e2s("hostile", "open", Parcode::open_bytes(b))?; if let Ok(n) = f.root_node() { poke_terminates(c, &n)?; } Ok(()) }); }
    }
    // maps whose buckets lie
    for cnt in [0u32, 1, 2, 3, 0x1000_0000, u32::MAX / 12, u32::MAX] { for ns in [0u32, 1, 2, u32::MAX] { for off in [0u32, 1, 50, u32::MAX] { let id = format!("hostile/map/{cnt}/{ns}/{off}"); c.case(&id, |c| {
        for h in [0u64, xxh(&0u32), xxh(&3u32)] { let mut p = cnt.to_le_bytes().to_vec(); p.extend([0; 4]); for _ in 0..2 { p.extend(h.to_le_bytes()); } for _ in 0..2 { p.extend(off.to_le_bytes()); } p.extend([0, 7, 3, 9, 9]);
            for k in [1usize, 2] { for len in [p.len(), 8, 7, 9, 24] { let b = build(&node(ns.to_le_bytes().to_vec(), (0..k).map(|_| leaf(p[..len.min(p.len())].to_vec())).collect())); poke(c, &b, 200); } } } Ok(()) }); } } }
    // reference cycles, shared children, deep chains
    c.case("hostile/self-reference", |c| { for cnt in [1u32, 2, 9] { let mut b = vec![0u8; 8]; let o = 0u64; let l = 8 + 16 * cnt as u64 + 5; for _ in 0..cnt { b.extend(o.to_le_bytes()); b.extend(l.to_le_bytes()); } b.extend(cnt.to_le_bytes()); b.push(1); tail(&mut b, o, l); poke(c, &b, 500); } Ok(()) });
    c.case("hostile/two-cycle", |c| { let mut b = vec![]; for k in 0..2u64 { b.extend([1u8; 8]); b.extend(((1 - k) * 29).to_le_bytes()); b.extend(29u64.to_le_bytes()); b.extend(1u32.to_le_bytes()); b.push(1); } tail(&mut b, 29, 29); poke(c, &b, 500); Ok(()) });
    c.case("hostile/shared-children", |c| { let mut b = vec![0u8]; let (mut o, mut l) = (0u64, 1u64); for _ in 0..60 { let off = b.len() as u64; for _ in 0..2 { b.extend(o.to_le_bytes()); b.extend(l.to_le_bytes()); } b.extend(2u32.to_le_bytes()); b.push(1); o = off; l = b.len() as u64 - off; } tail(&mut b, o, l); poke(c, &b, 500); Ok(()) });
    c.case("hostile/deep-chain", |c| { let mut b = vec![0u8]; let (mut o, mut l) = (0u64, 1u64); for _ in 0..200_000 { let off = b.len() as u64; b.extend(o.to_le_bytes()); b.extend(l.to_le_bytes()); b.extend(1u32.to_le_bytes()); b.push(1); o = off; l = b.len() as u64 - off; } tail(&mut b, o, l); poke(c, &b, 500); Ok(()) });
    c.case("hostile/many-empty-shards", |c| { let b = build(&node(vec_meta(5, &[(0, 250_000), (5, 1)]), (0..250_001u32).map(|i| if i == 250_000 { shard(5, 5) } else { shard(0, 0) }).collect())); poke(c, &b, 400_000); let f = e2s("hostile", "open", Parcode::open_bytes(b))?; let n = e2s("hostile", "root", f.root_node())?; poke_terminates(c, &n) });
    let reps = if c.thorough { 4000 } else { 110 };
    for i in 0..reps { for (n, b) in &bases { let id = format!("hostile/{n}/random/{i}"); c.case(&id, |c| { let mut r = c.rng(&id); for _ in 0..(if b.len() > 3000 { 3 } else { 8 }) { let mut x = b.clone(); mutate(&mut r, &mut x); poke(c, &x, 300); } Ok(()) }); } }
    for i in 0..reps { let id = format!("hostile/noise/{i}"); c.case(&id, |c| { let mut r = c.rng(&id); let n = r.us(300); let mut b = r.bytes(n); let (o, l) = (r.below(n as u64 + 1), r.below(n as u64 + 1)); tail(&mut b, o, l); poke(c, &b, 300); Ok(()) }); }
    // KNOWN FINDING K3: a string length inside an element payload that no memory can hold
    c.case("known/K3-hostile-string-length", |_| { let mut p = varint(1); p.extend(varint(u64::MAX)); let b = build(&node(vec_meta(1, &[(1, 1)]), vec![leaf(p)]));
        match std::panic::catch_unwind(|| Parcode::load_bytes::<Vec<String>>(b.clone()).is_err()) { Ok(_) => Ok(()), Err(_) => bad("known", "K3 a string length of 2^64-1 in a damaged file panics inside bincode (capacity overflow)") } });
}
/// Iterators over a damaged vector end: after at most (declared or shard) many steps.
fn poke_terminates(c: &mut Ctx, n: &ChunkNode<'_>) -> R {
    if let Ok(it) = n.clone().iter::<u32>() { let mut k = 0u64; for x in it { k += 1; if k > 3_000_000 { return bad("hostile", "eager iterator yields without end"); } let _ = x; } c.eval(1); }
    let f = n.clone();
    if let Ok(p) = <Vec<HTwo> as parcode::rt::ParcodeLazyRef<'_>>::create_lazy(f) { if let Ok(mut it) = p.iter_lazy() { let mut k = 0u64; while let Some(_) = it.next() { let _ = it.size_hint(); k += 1; if k > 3_000_000 { return bad("hostile", "lazy iterator yields without end"); } } c.eval(1); } }
    Ok(())
}
#[allow(unused)]
fn _v<T: ParcodeVisitor>() {}
