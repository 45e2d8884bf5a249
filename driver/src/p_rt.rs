//! Value-level properties: C01 C02 C03 C04 C05 C06 C07 C10 C14 C16 C17 C22.
use crate::core::*;

use crate::layout::{self, Tree, build, leaf, node, varint, vec_meta};
use crate::zoo::*;
use parcode::reader::{ChunkNode, ParcodeItem, ParcodeNative};
use parcode::rt::{ParcodeCollectionPromise, ParcodeLazyRef, ParcodeMapPromise};
use parcode::visitor::ParcodeVisitor;
use parcode::{Parcode, ParcodeFile};
use serde::{Serialize, de::DeserializeOwned};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Full: ParcodeVisitor + ParcodeNative + PartialEq + Debug + Sync + Send + Model {}
impl<T: ParcodeVisitor + ParcodeNative + PartialEq + Debug + Sync + Send + Model> Full for T {}

pub fn e2s<T>(kind: &'static str, what: &str, r: parcode::Result<T>) -> R<T> { r.or_else(|e| bad(kind, format!("{what}: error {e}"))) }

/// Runs `f` with `available_parallelism()` reporting `n` (at most the machine's count).
pub fn with_cpus<T>(n: usize, f: impl FnOnce() -> T) -> T {
    struct G(libc::cpu_set_t);
    impl Drop for G { fn drop(&mut self) { unsafe { libc::sched_setaffinity(0, size_of::<libc::cpu_set_t>(), &self.0); } } }
    let old = unsafe { let mut s: libc::cpu_set_t = std::mem::zeroed(); libc::sched_getaffinity(0, size_of::<libc::cpu_set_t>(), &mut s); s };
    let _g = G(old);
    if n > 0 {
        // pick the first n cpus of the current set
        unsafe {
            let mut s: libc::cpu_set_t = std::mem::zeroed();
            let mut left = n;
            for i in 0..1024 { if left > 0 && libc::CPU_ISSET(i, &old) { libc::CPU_SET(i, &mut s); left -= 1; } }
            libc::sched_setaffinity(0, size_of::<libc::cpu_set_t>(), &s);
        }
    }
    f()
}
pub fn w_par<T: ParcodeVisitor + Sync>(v: &T, comp: bool) -> parcode::Result<Vec<u8>> { let mut b = vec![]; Parcode::builder().compression(comp).write(&mut b, v)?; Ok(b) }
pub fn w_seq<T: ParcodeVisitor>(v: &T, comp: bool) -> parcode::Result<Vec<u8>> { let mut b = vec![]; Parcode::builder().compression(comp).write_sync(&mut b, v)?; Ok(b) }

fn short<T: Debug>(v: &T) -> String { let s = format!("{v:?}"); s.chars().take(300).collect() }
fn same<T: PartialEq + Debug>(kind: &'static str, what: &str, got: &T, want: &T) -> R { ensure!(got == want, kind, "{what}: got {} want {}", short(got), short(want)); Ok(()) }

/// C01: every entry point, compared by `eq`.
pub fn rt_all<T: Full>(c: &mut Ctx, v: &T, files: bool, eq: &dyn Fn(&T, &T) -> bool) -> R {
    let mut outs: Vec<(&str, Vec<u8>)> = vec![
        ("write+lz4", e2s("rt", "write with compression", w_par(v, true))?),
        ("write_sync+lz4", e2s("rt", "write_sync with compression", w_seq(v, true))?),
        ("write_sync", e2s("rt", "write_sync", w_seq(v, false))?),
        ("serialize", e2s("rt", "serialize", Parcode::serialize(v))?),
    ];
    let mut b = vec![]; e2s("rt", "Parcode::write", Parcode::write(&mut b, v))?; outs.push(("write", b));
    let mut b = vec![]; e2s("rt", "Parcode::write_sync", Parcode::write_sync(&mut b, v))?; outs.push(("Parcode::write_sync", b));
    if files {
        for k in 0..4 {
            let p = c.scratch.join(format!("f{k}.par"));
            std::fs::write(&p, vec![0x5A; 5000]).unwrap(); // an older, longer file must be replaced
            let r = match k { 0 => Parcode::save(&p, v), 1 => Parcode::save_sync(&p, v),
                2 => Parcode::builder().compression(true).save(&p, v), _ => Parcode::builder().compression(true).save_sync(&p, v) };
            e2s("rt", "save", r)?;
            let x: T = e2s("rt", "Parcode::load", Parcode::load(&p))?;
            ensure!(eq(&x, v), "rt", "file entry {k}: got {} want {}", short(&x), short(v));
            let f = e2s("rt", "Parcode::open", Parcode::open(&p))?;
            let x: T = e2s("rt", "open.load", f.load())?;
            ensure!(eq(&x, v), "rt", "file entry {k} via open: got {} want {}", short(&x), short(v));
            outs.push(("saved", std::fs::read(&p).unwrap()));
            c.eval(2);
        }
    }
    for (n, b) in outs {
        let x: T = e2s("rt", &format!("load_bytes after {n}"), Parcode::load_bytes(b.clone()))?;
        ensure!(eq(&x, v), "rt", "{n} then load_bytes: got {} want {}", short(&x), short(v));
        let f = e2s("rt", "open_bytes", Parcode::open_bytes(b))?;
        let x: T = e2s("rt", "open_bytes.load", f.load())?;
        ensure!(eq(&x, v), "rt", "{n} then open_bytes.load: got {} want {}", short(&x), short(v));
        let x: T = e2s("rt", "root_node", f.root_node().and_then(|r| T::from_node(&r)))?;
        ensure!(eq(&x, v), "rt", "{n} then from_node: got {} want {}", short(&x), short(v));
        c.eval(3);
    }
    Ok(())
}
fn c01_type<T: Full + Gen>(c: &mut Ctx, name: &str, n: usize) {
    for i in 0..n {
        let id = format!("rt/{name}/{i}");
        c.case(&id, |c| {
            let mut r = c.rng(&id);
            let v = T::g(&mut r, [4, 12, 40][i % 3]);
            rt_all(c, &v, i % 4 == 0, &|a, b| a == b)
        });
    }
}
fn c01_val<T: Full>(c: &mut Ctx, name: &str, v: T) { let id = format!("rtv/{name}"); c.case(&id, |c| rt_all(c, &v, true, &|a, b| a == b)); }
pub fn c01(c: &mut Ctx) {
    let q = if c.thorough { 400 } else { 24 };
    macro_rules! prims { ($($t:ident),*) => { $( c01_type::<$t>(c, stringify!($t), q); c01_val(c, concat!(stringify!($t), "-min"), $t::MIN); c01_val(c, concat!(stringify!($t), "-max"), $t::MAX); )* } }
    prims!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
    macro_rules! types { ($($t:ident),*) => { $( c01_type::<$t>(c, stringify!($t), q); )* } }
    types!(f32, f64, bool, String, Flat, Small, One, Two, Remote, Zero, Nest, Deep, Comp, Prims, Maps, Bag, VecU8);
    c01_type::<Vec<u8>>(c, "Vec<u8>", q); c01_type::<Vec<String>>(c, "Vec<String>", q); c01_type::<Vec<Nest>>(c, "Vec<Nest>", q / 2);
    c01_type::<Vec<Two>>(c, "Vec<Two>", q); c01_type::<Vec<Bag>>(c, "Vec<Bag>", q / 2); c01_type::<Vec<Comp>>(c, "Vec<Comp>", q / 2); c01_type::<Vec<Zero>>(c, "Vec<Zero>", q);
    c01_type::<HashMap<u8, u8>>(c, "Map<u8,u8>", q); c01_type::<HashMap<String, Flat>>(c, "Map<String,Flat>", q); c01_type::<HashMap<u32, Two>>(c, "Map<u32,Two>", q);
    c01_type::<HashMap<String, Vec<u16>>>(c, "Map<String,Vec<u16>>", q);
    c01_val(c, "string-300k", "xyz€".repeat(50_000));
    c01_val(c, "vecu8-1M", (0..1_000_000u32).map(|i| (i * 7 >> 3) as u8).collect::<Vec<u8>>());
    c01_val(c, "vec-u64-300k", (0..300_000u64).map(|i| i * i).collect::<Vec<u64>>());
    // past the 16 MiB write buffer
    c01_val(c, "vecu8-past-buffer", vec![0xA5u8; if c.thorough { 20 << 20 } else { (16 << 20) + 77 }]);
    if c.thorough { c01_val(c, "one-huge-field", Two { a: vec![1; 17 << 20], x: 1, b: "é".repeat(100_000), y: String::new(), c: 9 }); }
    for b in [0u64, 1, f64::NAN.to_bits(), 0x7FF0_0000_0000_0001, 0xFFF8_0000_0000_0000, 1 << 63] {
        let id = format!("rtv/f64-bits-{b:x}");
        c.case(&id, |c| rt_all(c, &f64::from_bits(b), false, &|x: &f64, y: &f64| x.to_bits() == y.to_bits()));
        let id = format!("rtv/vec-f32-bits-{b:x}");
        c.case(&id, |c| rt_all(c, &vec![f32::from_bits(b as u32), f32::NAN], false, &|x: &Vec<f32>, y: &Vec<f32>| x.iter().map(|f| f.to_bits()).eq(y.iter().map(|f| f.to_bits()))));
    }
    // exhaustive small: all u8/i8/bool/u16 boundary values
    c.case("rtx/u8-exhaustive", |c| { for v in 0..=255u8 { rt_all(c, &v, false, &|a, b| a == b)?; rt_all(c, &(v as i8), false, &|a, b| a == b)?; rt_all(c, &vec![v], false, &|a, b| a == b)?; } Ok(()) });
    map_of_structs(c);
}
/// Maps whose values hold chunkable fields load back, wherever those fields are declared.
fn map_of_structs(c: &mut Ctx) {
    for n in [0usize, 1, 5, 4500] { let id = format!("rtv/map-of-structs/{n}"); c.case(&id, |c| {
        let v = MapTwo { id: 1, m: (0..n).map(|i| (Bk(i as u32), two_l(i))).collect(), o: (0..n).map(|i| (format!("k{i}"), one(i))).collect(), end: 2 };
        if c.kinds.contains(&"rt") { rt_all(c, &v, false, &|a, b| a == b)?; }
        let t: HashMap<u32, Two> = (0..n).map(|i| (i as u32, two(i))).collect(); let h = Holder { v: &t };
        let k = if c.kinds.contains(&"rt") { "rt" } else { "mapload" };
        let x: HashMap<u32, Two> = e2s(k, "load", Parcode::load_bytes(e2s(k, "write", w_par(&h, n == 5))?))?; c.eval(1);
        same(k, "map of structs", &x, &t)
    }); }
}
// ---------------------------------------------------------------- vectors
pub trait Elem: ParcodeVisitor + ParcodeItem + Clone + PartialEq + Debug + Serialize + DeserializeOwned + Model {}
impl<T: ParcodeVisitor + ParcodeItem + Clone + PartialEq + Debug + Serialize + DeserializeOwned + Model> Elem for T {}

/// Checks an already written vector file against `want`: C02 (load), C03 (get), C04 (iter). `what` selects.
pub fn vec_reads<T: Elem>(c: &mut Ctx, f: &ParcodeFile, want: &[T], what: &str, dense: bool) -> R where Vec<T>: for<'x> ParcodeLazyRef<'x, Lazy = ParcodeCollectionPromise<'x, T>> {
    let p = e2s(if what == "load" { "load" } else { what_kind(what) }, "root", f.root::<Vec<T>>())?;
    match what {
        "load" => {
            let got = e2s("load", "load", p.load())?;
            ensure!(got.len() == want.len(), "load", "loaded {} elements of {}", got.len(), want.len());
            if let Some(i) = (0..want.len()).find(|i| got[*i] != want[*i]) { return bad("load", format!("element {i}: got {} want {}", short(&got[i]), short(&want[i]))); }
            let got: Vec<T> = e2s("load", "file.load", f.load())?;
            ensure!(got == want, "load", "file.load differs");
            c.eval(2);
        }
        "get" => {
            ensure!(p.len() == want.len(), "get", "len() = {}, want {}", p.len(), want.len());
            ensure!(p.is_empty() == want.is_empty(), "get", "is_empty() wrong");
            let n = want.len();
            let mut idx: Vec<usize> = if dense { (0..n).collect() } else {
                let mut r = Rng::new(n as u64);
                let mut v: Vec<usize> = (0..24).map(|_| r.us(n)).collect();
                // both sides of every shard boundary
                if let Ok(t) = layout::parse_file(&c_bytes(f)) { if let Ok((_, runs)) = layout::parse_vec_meta(&t.payload) {
                    let mut at = 0usize; let mut k = 0;
                    for (cnt, rep) in runs { for _ in 0..rep { at += cnt as usize; k += 1; if k < 12 || at + (cnt as usize) * 2 >= n || k % 37 == 0 { v.extend([at.saturating_sub(1), at, at + 1]); } } }
                } }
                v.extend([0, 1, n - 1, n.saturating_sub(2), n / 2]); v.retain(|i| *i < n); v.sort(); v.dedup(); v
            };
            if !dense { idx.dedup(); }
            for i in idx {
                let g = e2s("get", &format!("get({i}) of {n}"), p.get(i))?;
                ensure!(g == want[i], "get", "get({i}) of {n}: got {} want {}", short(&g), short(&want[i]));
                c.eval(1);
            }
            for i in [n, n + 1, n + 7, 2 * n + 3, n + 4096, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
                if i < n { continue; }
                if let Ok(g) = p.get(i) { return bad("get", format!("get({i}) past the end of {n} returned {}", short(&g))); }
                c.eval(1);
            }
        }
        "iter" => {
            let mut it = e2s("iter", "iter", p.iter())?;
            for (i, w) in want.iter().enumerate() {
                match it.next() {
                    Some(Ok(x)) => ensure!(x == *w, "iter", "iter element {i}: got {} want {}", short(&x), short(w)),
                    Some(Err(e)) => return bad("iter", format!("iter element {i}: error {e}")),
                    None => return bad("iter", format!("iter ended after {i} of {}", want.len())),
                }
            }
            for _ in 0..3 { ensure!(it.next().is_none(), "iter", "iter continues past {}", want.len()); }
            c.eval(want.len() as u64 + 1);
        }
        _ => unreachable!(),
    }
    Ok(())
}
fn what_kind(w: &str) -> &'static str { match w { "get" => "get", "iter" => "iter", _ => "load" } }
thread_local! { static LASTB: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) }; }
fn c_bytes(_: &ParcodeFile) -> Vec<u8> { LASTB.with(|b| b.borrow().clone()) }
pub fn open_b(kind: &'static str, b: Vec<u8>) -> R<ParcodeFile> { LASTB.with(|l| *l.borrow_mut() = b.clone()); e2s(kind, "open_bytes", Parcode::open_bytes(b)) }

/// Lengths around every threshold of the sharding strategy for elements of about `sz` encoded bytes.
fn lens(sz: usize, cap: usize, quick: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=20).collect();
    let min = (4096 / sz).max(1); let io = (131072 / sz).max(1);
    for b in [min, 2 * min, 3 * min, 32 * min, 33 * min, 64 * min, io, 2 * io, 3 * io, 7 * io, 31, 32, 33, 63, 64, 65, 127, 128, 1000, 250, 251, 255, 256, 257] {
        for d in [-1i64, 0, 1] { let x = b as i64 + d; if x >= 0 { v.push(x as usize); } }
    }
    v.push(min * 5 + min / 2); v.push(io * 3 + io / 3); v.push(cap);
    v.retain(|x| *x <= cap); v.sort(); v.dedup();
    if quick && v.len() > 45 { let k = v.len(); v = v.into_iter().enumerate().filter(|(i, x)| *x <= 9 || i % 2 == k % 2 || *i + 6 > k).map(|x| x.1).collect(); }
    v
}
fn vec_sweep<T: Elem>(c: &mut Ctx, what: &'static str, tn: &str, sz: usize, cap: usize, mk: &dyn Fn(usize) -> T)
where Vec<T>: for<'x> ParcodeLazyRef<'x, Lazy = ParcodeCollectionPromise<'x, T>> {
    let cp = [0usize, 1, 2, 3];
    let mut k = 0;
    for n in lens(sz, cap, !c.thorough) {
        for (ci, cpus) in cp.iter().enumerate() {
            k += 1;
            if !c.thorough && ci != 0 && k % 5 != 0 { continue; }
            let id = format!("vec/{tn}/n={n}/cpus={cpus}");
            c.case(&id, |c| {
                let v: Vec<T> = (0..n).map(mk).collect();
                let comp = k % 3 == 1;
                let b = e2s(what, "write", with_cpus(*cpus, || if k % 2 == 0 { w_seq(&v, comp) } else { w_par(&v, comp) }))?;
                let f = open_b(what, b)?;
                vec_reads(c, &f, &v, what, n <= 40)
            });
        }
    }
}
pub fn two(i: usize) -> Two { Two { a: vec![i as u8; i % 5], x: i as u16, b: format!("b{i}"), y: "y".repeat(i % 7), c: i as u64 * 3 } }
fn one(i: usize) -> One { One { id: i as u32, v: (0..(i % 4) as u32).collect() } }
fn remote(i: usize) -> Remote { Remote { a: i as u32, b: !(i as u32), s: format!("s{i}") } }
/// Hand-laid vector files: shard layouts the reader must accept although today's writer makes simpler ones.
pub fn hand_vec<T: Elem>(items: &[T], sizes: &[usize], runs: &[(u64, u64)], total: u64, kids: &dyn Fn(&T) -> Vec<layout::N>, id: u8) -> Vec<u8> {
    let mut shards = vec![]; let mut at = 0;
    for s in sizes {
        let its = &items[at..at + s]; at += s;
        let mut p = varint(*s as u64); let mut ks = vec![];
        for i in its { i.locals(&mut p); ks.extend(kids(i)); }
        let mut n = node(p, ks); n.id = id; shards.push(n);
    }
    let mut root = node(vec_meta(total, runs), shards); root.id = id;
    build(&root)
}
pub fn rle(sizes: &[usize]) -> Vec<(u64, u64)> {
    let mut r: Vec<(u64, u64)> = vec![];
    for s in sizes { match r.last_mut() { Some((c, n)) if *c == *s as u64 => *n += 1, _ => r.push((*s as u64, 1)) } }
    r
}
fn leafs(v: Vec<Vec<u8>>) -> Vec<layout::N> { v.into_iter().map(leaf).collect() }
fn vnode<T: Elem>(v: &[T]) -> layout::N {
    if v.is_empty() { return leaf(vec_meta(0, &[])); }
    let mut p = varint(v.len() as u64); for i in v { i.locals(&mut p); }
    node(vec_meta(v.len() as u64, &[(v.len() as u64, 1)]), vec![leaf(p)])
}
fn two_kids(t: &Two) -> Vec<layout::N> { let mut k = vec![vnode(&t.a)]; k.extend(leafs(vec![enc(&t.b), enc(&t.c)])); k }
fn layouts(r: &mut Rng) -> Vec<usize> {
    let n = 1 + r.us(7);
    (0..n).map(|_| match r.below(3) { 0 => 1 + r.us(3), 1 => 4, _ => 1 + r.us(30) }).collect()
}
fn hand_sweep(c: &mut Ctx, what: &'static str, n: usize) {
    for i in 0..n {
        let id = format!("layout/{i}");
        c.case(&id, |c| {
            let mut r = c.rng(&id);
            let sizes = layouts(&mut r); let t: usize = sizes.iter().sum();
            let mut runs = rle(&sizes);
            if r.below(3) == 0 { runs = sizes.iter().map(|s| (*s as u64, 1)).collect(); } // unmerged runs are equally valid
            let v: Vec<u32> = (0..t).map(|_| u32::g(&mut r, 0)).collect();
            let f = open_b(what, hand_vec(&v, &sizes, &runs, t as u64, &|_| vec![], r.below(2) as u8))?;
            vec_reads(c, &f, &v, what, true)?;
            let v: Vec<Two> = (0..t).map(two).collect();
            let f = open_b(what, hand_vec(&v, &sizes, &runs, t as u64, &two_kids, r.below(2) as u8))?;
            vec_reads(c, &f, &v, what, true)
        });
    }
}
fn sweeps(c: &mut Ctx, what: &'static str) {
    let q = !c.thorough;
    vec_sweep::<u8>(c, what, "u8", 1, if q { 300_000 } else { 3_000_000 }, &|i| (i * 31 >> 2) as u8);
    vec_sweep::<u32>(c, what, "u32", 3, if q { 150_000 } else { 1_000_000 }, &|i| i as u32);
    vec_sweep::<u64>(c, what, "u64-wide", 9, if q { 60_000 } else { 500_000 }, &|i| u64::MAX - i as u64);
    vec_sweep::<String>(c, what, "string-varied", 20, if q { 30_000 } else { 300_000 }, &|i| "ab".repeat(i % 19));
    vec_sweep::<String>(c, what, "string-9k", 9000, if q { 600 } else { 3000 }, &|i| (if i % 3 == 0 { "q" } else { "z" }).repeat(9000 - i % 5));
    vec_sweep::<String>(c, what, "string-200k", 200_000, if q { 12 } else { 70 }, &|i| ((b'a' + (i % 26) as u8) as char).to_string().repeat(200_000));
    vec_sweep::<Small>(c, what, "Small", 4, if q { 40_000 } else { 300_000 }, &|i| Small { a: i as u32, b: i as u8 });
    vec_sweep::<Two>(c, what, "Two", 8, if q { 1_500 } else { 20_000 }, &two);
    vec_sweep::<One>(c, what, "One", 3, if q { 3_000 } else { 20_000 }, &one);
    vec_sweep::<Remote>(c, what, "Remote", 9, if q { 1_500 } else { 10_000 }, &remote);
    vec_sweep::<bool>(c, what, "bool", 1, 20_000, &|i| i % 3 == 0);
    vec_sweep::<i128>(c, what, "i128", 17, 20_000, &|i| i128::MAX - i as i128);
    vec_sweep::<f64>(c, what, "f64", 8, 40_000, &|i| i as f64 / 3.0);
    // skewed: the sampled prefix says nothing about the rest
    vec_sweep::<String>(c, what, "string-skew-up", 2, 3000, &|i| if i < 8 { String::new() } else { "w".repeat(500) });
    vec_sweep::<String>(c, what, "string-skew-down", 5000, 3000, &|i| if i < 8 { "w".repeat(5000) } else { String::new() });
    hand_sweep(c, what, if q { 60 } else { 1500 });
}
pub fn c02(c: &mut Ctx) {
    sweeps(c, "load");
    // inconsistent totals and shards must be errors, whatever the element type
    let n = if c.thorough { 3000 } else { 300 };
    for i in 0..n {
        let id = format!("mismatch/{i}");
        c.case(&id, |c| {
            let mut r = c.rng(&id);
            let sizes = layouts(&mut r); let t: usize = sizes.iter().sum();
            let v: Vec<u32> = (0..t).map(|_| u32::g(&mut r, 0)).collect();
            let mut runs = rle(&sizes); let mut total = t as u64;
            let k = r.us(runs.len()); let d = 1 + r.below(5);
            let m = i % 8;
            match m {
                0 => total += d, 1 => total = total.saturating_sub(d),
                2 => runs[k].0 += d, 3 => runs[k].0 = runs[k].0.saturating_sub(d),
                4 => { runs[k].0 += d; total += d * runs[k].1 }                       // table agrees with the total, shards do not
                5 => { let x = runs[k].0.min(d); runs[k].0 -= x; total -= x * runs[k].1 }
                6 => { runs[k].1 += 1; total += runs[k].0 }                            // one shard too many declared
                _ => { runs[k].1 -= 1; total -= runs[k].0 }                            // one shard too few declared
            }
            let b = hand_vec(&v, &sizes, &runs, total, &|_| vec![], 0);
            c.eval(1);
            if let Ok(x) = Parcode::load_bytes::<Vec<u32>>(b) { return bad("load", format!("inconsistent file (shards {sizes:?}, table {runs:?}, total {total}) loaded as {} elements", x.len())); }
            let w: Vec<Two> = (0..t).map(two).collect();
            let b = hand_vec(&w, &sizes, &runs, total, &two_kids, 0);
            if let Ok(x) = Parcode::load_bytes::<Vec<Two>>(b) { return bad("load", format!("inconsistent file (shards {sizes:?}, table {runs:?}, total {total}) loaded as {} structs", x.len())); }
            Ok(())
        });
    }
}
pub fn c03(c: &mut Ctx) {
    sweeps(c, "get");
    // lazy access by index
    for (n, cpus) in [(0, 0), (1, 0), (2, 1), (7, 0), (40, 0), (600, 1), (1500, 2), (2100, 0), (3000, 3)] {
        let id = format!("lazyget/n={n}/cpus={cpus}");
        c.case(&id, |c| {
            let v: Vec<Two> = (0..n).map(two).collect();
            let b = e2s("get", "write", with_cpus(cpus, || w_par(&v, n % 2 == 0)))?;
            lazy_get(c, &open_b("get", b)?, &v)
        });
    }
    let n = if c.thorough { 1000 } else { 40 };
    for i in 0..n {
        let id = format!("lazyget/layout/{i}");
        c.case(&id, |c| {
            let mut r = c.rng(&id);
            let sizes = layouts(&mut r); let t: usize = sizes.iter().sum();
            let v: Vec<Two> = (0..t).map(two).collect();
            lazy_get(c, &open_b("get", hand_vec(&v, &sizes, &rle(&sizes), t as u64, &two_kids, 0))?, &v)
        });
    }
    known_prim_lazy(c);
}
fn lazy_get(c: &mut Ctx, f: &ParcodeFile, v: &[Two]) -> R {
    let p = e2s("get", "root", f.root::<Vec<Two>>())?;
    let n = v.len();
    let step = (n / 60).max(1);
    for i in (0..n).filter(|i| i % step == 0 || *i + 3 > n) {
        let l = e2s("get", &format!("get_lazy({i}) of {n}"), p.get_lazy(i))?;
        chk_two(&l, &v[i], "get").map_err(|b| Bad { kind: "get", msg: format!("get_lazy({i}) of {n}: {}", b.msg) })?;
        c.eval(1);
    }
    for i in [n, n + 1, n + 4096, usize::MAX] { ensure!(p.get_lazy(i).is_err(), "get", "get_lazy({i}) past the end of {n} succeeded"); c.eval(1); }
    match (e2s("get", "first", p.first())?, e2s("get", "last", p.last())?) {
        (None, None) => ensure!(n == 0, "get", "first/last None of {n}"),
        (Some(a), Some(b)) => { ensure!(n > 0, "get", "first of empty"); chk_two(&a, &v[0], "get")?; chk_two(&b, &v[n - 1], "get")?; }
        _ => return bad("get", "first/last disagree"),
    }
    Ok(())
}
/// KNOWN FINDING K2: get_lazy / first / last / iter_lazy on a vector of primitives always fail.
fn known_prim_lazy(c: &mut Ctx) {
    c.case("known/K2-lazy-element-of-primitive-vector", |_| {
        let v = vec![10u32, 20, 30];
        let f = open_b("get", e2s("get", "write", w_par(&v, false))?)?;
        let p = e2s("get", "root", f.root::<Vec<u32>>())?;
        match p.first() {
            Ok(Some(l)) => { let x = e2s("get", "load", l.load())?; ensure!(x == 10, "get", "first() = {x}"); Ok(()) }
            Ok(None) => bad("known", "K2 first() of a non-empty vector of primitives returned None"),
            Err(e) => bad("known", format!("K2 first() of a vector of primitives fails: {e}")),
        }
    });
}
pub fn c04(c: &mut Ctx) {
    sweeps(c, "iter");
    for (n, cpus) in [(0, 0), (1, 0), (2, 1), (7, 0), (40, 0), (600, 1), (1500, 2), (2100, 0), (3000, 3), (7000, 1)] {
        let id = format!("lazyiter/n={n}/cpus={cpus}");
        c.case(&id, |c| {
            let v: Vec<Two> = (0..n).map(two).collect();
            let b = e2s("iter", "write", with_cpus(cpus, || w_par(&v, n % 2 == 0)))?;
            lazy_iter(c, &open_b("iter", b)?, &v)
        });
    }
    let n = if c.thorough { 1000 } else { 60 };
    for i in 0..n {
        let id = format!("lazyiter/layout/{i}");
        c.case(&id, |c| {
            let mut r = c.rng(&id);
            let sizes = layouts(&mut r); let t: usize = sizes.iter().sum();
            let v: Vec<Two> = (0..t).map(two).collect();
            lazy_iter(c, &open_b("iter", hand_vec(&v, &sizes, &rle(&sizes), t as u64, &two_kids, 0))?, &v)
        });
    }
}
fn lazy_iter(c: &mut Ctx, f: &ParcodeFile, v: &[Two]) -> R {
    let p = e2s("iter", "root", f.root::<Vec<Two>>())?;
    let mut it = e2s("iter", "iter_lazy", p.iter_lazy())?;
    for (i, w) in v.iter().enumerate() {
        let left = v.len() - i;
        ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "iter", "at {i}: len() {} size_hint {:?}, {left} left", it.len(), it.size_hint());
        match it.next() {
            Some(Ok(l)) => chk_two(&l, w, "iter").map_err(|b| Bad { kind: "iter", msg: format!("iter_lazy element {i} of {}: {}", v.len(), b.msg) })?,
            Some(Err(e)) => return bad("iter", format!("iter_lazy element {i}: {e}")),
            None => return bad("iter", format!("iter_lazy ended after {i} of {}", v.len())),
        }
        c.eval(1);
    }
    for _ in 0..3 { ensure!(it.len() == 0 && it.size_hint() == (0, Some(0)), "iter", "at the end: len() {}", it.len()); ensure!(it.next().is_none(), "iter", "iter_lazy continues past the end"); }
    Ok(())
}

// ---------------------------------------------------------------- lazy mirrors
fn ld<T: PartialEq + Debug>(k: &'static str, n: &str, got: parcode::Result<T>, want: &T) -> R { same(k, n, &e2s(k, n, got)?, want) }
pub fn chk_two(l: &TwoLazy<'_>, v: &Two, k: &'static str) -> R {
    same(k, "x", &l.x, &v.x)?; same(k, "y", &l.y, &v.y)?;
    ld(k, "a", l.a.load(), &v.a)?; ld(k, "b", l.b.load(), &v.b)?; ld(k, "c", l.c.load(), &v.c)?;
    ensure!(l.a.len() == v.a.len(), k, "a.len"); Ok(())
}
pub fn chk_two_l(l: &TwoLLazy<'_>, v: &TwoL, k: &'static str) -> R {
    same(k, "x", &l.x, &v.x)?; same(k, "y", &l.y, &v.y)?;
    ld(k, "a", l.a.load(), &v.a)?; ld(k, "b", l.b.load(), &v.b)?; ld(k, "c", l.c.load(), &v.c)
}
pub fn two_l(i: usize) -> TwoL { let t = two(i); TwoL { x: t.x, y: t.y, a: t.a, b: t.b, c: t.c } }
fn chk_one(l: &OneLazy<'_>, v: &One, k: &'static str) -> R { same(k, "id", &l.id, &v.id)?; ld(k, "v", l.v.load(), &v.v) }
fn chk_flat(l: &FlatLazy<'_>, v: &Flat, k: &'static str) -> R {
    same(k, "a", &l.a, &v.a)?; same(k, "b", &l.b, &v.b)?; same(k, "c", &l.c, &v.c)?; same(k, "d", &l.d, &v.d)?; same(k, "e", &l.e, &v.e)?;
    same(k, "f", &l.f, &v.f)?; same(k, "g", &l.g, &v.g)?; same(k, "h", &l.h, &v.h)?; same(k, "u", &l.u, &v.u)?; same(k, "m", &l.m, &v.m)
}
fn chk_remote(l: &RemoteLazy<'_>, v: &Remote, k: &'static str) -> R { ld(k, "a", l.a.load(), &v.a)?; ld(k, "b", l.b.load(), &v.b)?; ld(k, "s", l.s.load(), &v.s) }
fn chk_map<K: Hash + Eq + DeserializeOwned + Debug + Clone, V: DeserializeOwned + PartialEq + Debug>(l: &ParcodeMapPromise<'_, K, V>, v: &HashMap<K, V>, n: &str, k: &'static str) -> R {
    let got = e2s(k, n, l.load())?;
    ensure!(&got == v, k, "{n}: loaded map of {} entries, want {}", got.len(), v.len());
    for (key, val) in v.iter().take(5) { let g = e2s(k, n, l.get(key))?; ensure!(g.as_ref() == Some(val), k, "{n}: get({key:?}) = {g:?}"); }
    Ok(())
}
fn chk_nest(l: &NestLazy<'_>, v: &Nest, k: &'static str) -> R {
    same(k, "k", &l.k, &v.k)?; same(k, "tail", &l.tail, &v.tail)?; chk_two(&l.two, &v.two, k)?;
    ld(k, "list", l.list.load(), &v.list)?; ld(k, "flats", l.flats.load(), &v.flats)?;
    for (i, t) in v.list.iter().enumerate() { chk_two(&e2s(k, "list.get_lazy", l.list.get_lazy(i))?, t, k)?; }
    for (i, t) in v.flats.iter().enumerate() { chk_flat(&e2s(k, "flats.get_lazy", l.flats.get_lazy(i))?, t, k)?; }
    Ok(())
}
fn chk_deep(l: &DeepLazy<'_>, v: &Deep, k: &'static str) -> R {
    same(k, "n", &l.n, &v.n)?; chk_nest(&l.nest, &v.nest, k)?; ld(k, "ones", l.ones.load(), &v.ones)?;
    for (i, o) in v.ones.iter().enumerate() { chk_one(&e2s(k, "ones.get_lazy", l.ones.get_lazy(i))?, o, k)?; }
    chk_map(&l.m, &v.m, "m", k)?; chk_map(&l.blob, &v.blob, "blob", k)?; chk_map(&l.m2, &v.m2, "m2", k)?; chk_remote(&l.r, &v.r, k)
}
fn chk_prims(l: &PrimsLazy<'_>, v: &Prims, k: &'static str) -> R {
    ld(k, "a", l.a.load(), &v.a)?; ld(k, "b", l.b.load(), &v.b)?; ld(k, "c", l.c.load(), &v.c)?; ld(k, "d", l.d.load(), &v.d)?; ld(k, "e", l.e.load(), &v.e)?; ld(k, "f", l.f.load(), &v.f)?;
    ld(k, "g", l.g.load(), &v.g)?; ld(k, "h", l.h.load(), &v.h)?; ld(k, "i", l.i.load(), &v.i)?; ld(k, "j", l.j.load(), &v.j)?; ld(k, "k", l.k.load(), &v.k)?; ld(k, "l", l.l.load(), &v.l)
}
fn chk_comp(l: &CompLazy<'_>, v: &Comp, k: &'static str) -> R {
    same(k, "l", &l.l, &v.l)?; ld(k, "a", l.a.load(), &v.a)?; ld(k, "b", l.b.load(), &v.b)?; ld(k, "c", l.c.load(), &v.c)?; ld(k, "z", l.z.load(), &v.z)?;
    chk_map(&l.m, &v.m, "m", k)?; chk_two(&l.s, &v.s, k)?; chk_map(&l.bl, &v.bl, "bl", k)?; chk_map(&l.m3, &v.m3, "m3", k)?; ld(k, "p", l.p.load(), &v.p)?;
    for (i, t) in v.ts.iter().enumerate() { chk_two(&e2s(k, "ts.get_lazy", l.ts.get_lazy(i))?, t, k)?; }
    Ok(())
}
fn chk_maps(l: &MapsLazy<'_>, v: &Maps, k: &'static str) -> R {
    chk_map(&l.a, &v.a, "a", k)?; chk_map(&l.b, &v.b, "b", k)?; chk_map(&l.c, &v.c, "c", k)?; chk_map(&l.d, &v.d, "d", k)?; chk_map(&l.e, &v.e, "e", k)?; chk_map(&l.f, &v.f, "f", k)
}
fn chk_bag(l: &BagLazy<'_>, v: &Bag, k: &'static str) -> R {
    same(k, "tag", &l.tag, &v.tag)?;
    for (i, t) in v.v.iter().enumerate() { chk_maps(&e2s(k, "v.get_lazy", l.v.get_lazy(i))?, t, k)?; }
    for (i, t) in v.w.iter().enumerate() { chk_nest(&e2s(k, "w.get_lazy", l.w.get_lazy(i))?, t, k)?; }
    for (i, t) in v.r.iter().enumerate() { chk_remote(&e2s(k, "r.get_lazy", l.r.get_lazy(i))?, t, k)?; }
    let mut n = 0;
    for (x, t) in e2s(k, "w.iter_lazy", l.w.iter_lazy())?.zip(&v.w) { chk_nest(&e2s(k, "iter_lazy", x)?, t, k)?; n += 1; }
    ensure!(n == v.w.len(), k, "iter_lazy over w gave {n} of {}", v.w.len());
    Ok(())
}
macro_rules! lazy_ty { ($c:ident, $t:ident, $chk:ident, $n:expr) => {
    for i in 0..$n {
        let id = format!(concat!("lazy/", stringify!($t), "/{}"), i);
        $c.case(&id, |c| {
            let mut r = c.rng(&id);
            let v = <$t as Gen>::g(&mut r, [4, 12, 30][i % 3]);
            let b = e2s("lazy", "write", if i % 2 == 0 { w_par(&v, i % 3 == 0) } else { w_seq(&v, i % 3 == 0) })?;
            let f = open_b("lazy", b.clone())?;
            let l = match i % 3 { 0 => f.root::<$t>(), 1 => f.load_lazy::<$t>(), _ => f.read_lazy::<$t>() };
            $chk(&e2s("lazy", "root", l)?, &v, "lazy")?;
            let p = c.scratch.join("lazy.par"); std::fs::write(&p, &b).unwrap();
            let f = e2s("lazy", "open", Parcode::open(&p))?;
            $chk(&e2s("lazy", "root", f.root::<$t>())?, &v, "lazy")?;
            c.eval(2); Ok(())
        });
        let id = format!(concat!("lazy/Vec<", stringify!($t), ">/{}"), i);
        $c.case(&id, |c| {
            let mut r = c.rng(&id);
            let n = [0, 1, 3, 9, 60][i % 5];
            let v: Vec<$t> = (0..n).map(|_| <$t as Gen>::g(&mut r, 5)).collect();
            let f = open_b("lazy", e2s("lazy", "write", with_cpus(i % 4, || w_par(&v, i % 3 == 0)))?)?;
            let p = e2s("lazy", "root", f.root::<Vec<$t>>())?;
            for (j, t) in v.iter().enumerate() { $chk(&e2s("lazy", "get_lazy", p.get_lazy(j))?, t, "lazy")?; c.eval(1); }
            for (x, t) in e2s("lazy", "iter_lazy", p.iter_lazy())?.zip(&v) { $chk(&e2s("lazy", "iter_lazy", x)?, t, "lazy")?; c.eval(1); }
            Ok(())
        });
    }
} }
pub fn c05(c: &mut Ctx) {
    let n = if c.thorough { 600 } else { 40 };
    lazy_ty!(c, Two, chk_two, n); lazy_ty!(c, One, chk_one, n); lazy_ty!(c, Flat, chk_flat, n); lazy_ty!(c, Remote, chk_remote, n);
    lazy_ty!(c, Nest, chk_nest, n); lazy_ty!(c, Deep, chk_deep, n); lazy_ty!(c, Prims, chk_prims, n); lazy_ty!(c, Comp, chk_comp, n); lazy_ty!(c, Maps, chk_maps, n); lazy_ty!(c, Bag, chk_bag, n / 2);
    // primitive roots
    macro_rules! pr { ($($t:ident),*) => { $( for i in 0..8 { let id = format!(concat!("lazy/", stringify!($t), "-root/{}"), i); c.case(&id, |c| { let mut r = c.rng(&id); let v = <$t as Gen>::g(&mut r, 30);
        let f = open_b("lazy", e2s("lazy", "write", w_par(&v, i % 2 == 0))?)?; ld("lazy", "root.load", e2s("lazy", "root", f.root::<$t>())?.load(), &v) }); } )* } }
    pr!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String);
    // several shards of structs: children must stay aligned with their element
    for n in [100usize, 700, 2500] {
        let id = format!("lazy/aligned/{n}");
        c.case(&id, |c| {
            let v: Vec<Two> = (0..n).map(two).collect();
            let f = open_b("lazy", e2s("lazy", "write", with_cpus(1, || w_par(&v, false)))?)?;
            let p = e2s("lazy", "root", f.root::<Vec<Two>>())?;
            for i in (0..n).step_by(n / 50 + 1) { chk_two(&e2s("lazy", "get_lazy", p.get_lazy(i))?, &v[i], "lazy")?; c.eval(1); }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- maps
st_map!();
pub fn map_lookup<K, V>(c: &mut Ctx, v: &HashMap<K, V>, absent: &[K], comp: bool) -> R
where K: Hash + Eq + Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static, V: ParcodeVisitor + Serialize + DeserializeOwned + PartialEq + Debug + Clone + Send + Sync + 'static + ParcodeItem,
{
    let holder = Holder { v };
    let b = e2s("lookup", "write", if comp { w_seq(&holder, true) } else { w_par(&holder, false) })?;
    let f = open_b("lookup", b)?;
    let root = e2s("lookup", "root_node", f.root_node())?;
    let p: ParcodeMapPromise<'_, K, V> = ParcodeMapPromise::new(root);
    let step = (v.len() / if c.thorough { 3000 } else { 900 }).max(1);
    for (i, (k, want)) in v.iter().enumerate() {
        if i % step != 0 { continue; }
        let g = e2s("lookup", &format!("get({k:?})"), p.get(k))?;
        ensure!(g.as_ref() == Some(want), "lookup", "map of {}: get({k:?}) = {g:?}, want {}", v.len(), short(want));
        c.eval(1);
    }
    for k in absent {
        if v.contains_key(k) { continue; }
        let g = e2s("lookup", &format!("get({k:?})"), p.get(k))?;
        ensure!(g.is_none(), "lookup", "map of {}: get of the absent key {k:?} returned {g:?}", v.len());
        c.eval(1);
    }
    Ok(())
}
fn gmap<K: Gen + Eq + Hash, V: Gen>(r: &mut Rng, n: usize, mk: &dyn Fn(usize, &mut Rng) -> K) -> HashMap<K, V> { let mut m = HashMap::new(); for i in 0..n { m.insert(mk(i, r), V::g(r, 8)); } m }
const MSIZES: [usize; 22] = [0, 1, 2, 3, 5, 8, 17, 100, 999, 1999, 2000, 2001, 3999, 4000, 4001, 5999, 6000, 6001, 10_000, 20_001, 33_000, 70_000];
pub fn c06(c: &mut Ctx) {
    known_k1(c);
    for n in MSIZES {
        let id = format!("lookup/u32-u64/{n}");
        c.case(&id, |c| { let mut r = c.rng(&id); let m: HashMap<u32, u64> = gmap(&mut r, n, &|i, _| i as u32 * 7); let abs: Vec<u32> = (0..60).map(|i| i * 7 + 3).chain([u32::MAX, 1]).collect(); map_lookup(c, &m, &abs, n % 2 == 0) });
        let id = format!("lookup/string-flat/{n}");
        if n <= if c.thorough { 6001 } else { 4001 } && (c.thorough || n != 3999) { c.case(&id, |c| { let mut r = c.rng(&id); let m: HashMap<String, Flat> = gmap(&mut r, n, &|i, _| format!("key{i}")); let abs: Vec<String> = ["", "key", "key-1", "KEY0", "key00"].iter().map(|s| s.to_string()).collect(); map_lookup(c, &m, &abs, n % 2 == 1) }); }
        let id = format!("lookup/colliding3/{n}");
        if n <= if c.thorough { 6001 } else { 4001 } { c.case(&id, |c| { let mut r = c.rng(&id); let m: HashMap<Bk, u32> = { let mut m = HashMap::new(); for i in 0..n { m.insert(Bk(i as u32 * 2), r.u64() as u32); } m }; let abs: Vec<Bk> = (0..12).map(|i| Bk(i * 2 + 1)).chain([Bk(u32::MAX)]).collect(); map_lookup(c, &m, &abs, false) }); }
        let id = format!("lookup/colliding-all/{n}");
        if n <= 300 { c.case(&id, |c| { let mut r = c.rng(&id); let m: HashMap<Ck, String> = gmap(&mut r, n, &|i, r| Ck(i as u32, String::g(r, 5))); let abs = vec![Ck(9999, "".into()), Ck(0, "zzz".into())]; map_lookup(c, &m, &abs, n % 2 == 0) }); }
        let id = format!("lookup/u8-u8/{n}");
        if n <= 300 { c.case(&id, |c| { let mut r = c.rng(&id); let m: HashMap<u8, u8> = gmap(&mut r, n, &|i, _| i as u8); let abs: Vec<u8> = (0..=255).collect(); map_lookup(c, &m, &abs, n % 2 == 0) }); }
        let id = format!("lookup/lazy/{n}");
        if n <= 4001 { c.case(&id, |c| lazy_lookup(c, n, &id)); }
    }
    for i in 0..(if c.thorough { 400 } else { 40 }) {
        let id = format!("lookup/lazy-rand/{i}");
        c.case(&id, |c| { let n = { let mut r = c.rng(&id); r.us(60) }; lazy_lookup(c, n, &id) });
    }
    // many shards, up to the shard-count cap (and past it in the thorough tier)
    let big = if c.thorough { vec![300_000usize, 2_048_000, 2_050_001] } else { vec![300_000usize, 514_000] };
    for n in big {
        let id = format!("lookup/huge/{n}");
        c.case(&id, |c| { let m: HashMap<u32, u8> = (0..n as u32).map(|i| (i.wrapping_mul(2654435761), i as u8)).collect(); let abs: Vec<u32> = (n as u32..n as u32 + 200).map(|i| i.wrapping_mul(2654435761)).collect(); map_lookup(c, &m, &abs, false) });
    }
    // lookups through struct fields, block maps and empty maps
    for i in 0..(if c.thorough { 500 } else { 60 }) {
        let id = format!("lookup/fields/{i}");
        c.case(&id, |c| {
            let mut r = c.rng(&id); let v = Maps::g(&mut r, 40);
            let f = open_b("lookup", e2s("lookup", "write", w_par(&v, i % 2 == 0))?)?;
            let l = e2s("lookup", "root", f.root::<Maps>())?;
            macro_rules! f { ($($x:ident),*) => { $( for (k, w) in &v.$x { let g = e2s("lookup", stringify!($x), l.$x.get(k))?; ensure!(g.as_ref() == Some(w), "lookup", "{}.get({k:?}) = {g:?} want {w:?}", stringify!($x)); c.eval(1); }
                for _ in 0..6 { let k = Gen::g(&mut r, 6); let g = e2s("lookup", stringify!($x), l.$x.get(&k))?; ensure!(g.as_ref() == v.$x.get(&k), "lookup", "{}.get({k:?}) = {g:?} want {:?}", stringify!($x), v.$x.get(&k)); c.eval(1); } )* } }
            f!(a, b, c, d, e, f);
            for (k, w) in v.f.iter().take(10) { let g = e2s("lookup", "f.get_lazy", l.f.get_lazy(k))?; match g { Some(x) => chk_flat(&x, w, "lookup")?, None => return bad("lookup", format!("f.get_lazy({k:?}) absent")) } }
            for _ in 0..6 { let k = u64::g(&mut r, 0); if !v.f.contains_key(&k) { ensure!(e2s("lookup", "f.get_lazy", l.f.get_lazy(&k))?.is_none(), "lookup", "f.get_lazy of an absent key found something"); } }
            Ok(())
        });
    }
}
fn lazy_lookup(c: &mut Ctx, n: usize, id: &str) -> R {
    let mut r = c.rng(id);
    let v = MapTwo { id: 1, m: (0..n).map(|i| (Bk(i as u32 * 2), two_l(i))).collect(), o: (0..n).map(|i| (format!("k{i}"), one(i))).collect(), end: 9 };
    let f = open_b("lookup", e2s("lookup", "write", w_par(&v, r.bool()))?)?;
    let l = e2s("lookup", "root", f.root::<MapTwo>())?;
    same("lookup", "end", &l.end, &v.end)?;
    let step = (n / 25).max(1);
    for i in (0..n).filter(|i| i % step == 0 || n < 70) {
        match e2s("lookup", "m.get_lazy", l.m.get_lazy(&Bk(i as u32 * 2)))? { Some(x) => chk_two_l(&x, &two_l(i), "lookup").map_err(|b| Bad { kind: "lookup", msg: format!("get_lazy of key {} of {n}: {}", i * 2, b.msg) })?, None => return bad("lookup", format!("get_lazy of saved key {} of {n}: absent", i * 2)) }
        match e2s("lookup", "o.get_lazy", l.o.get_lazy(&format!("k{i}")))? { Some(x) => chk_one(&x, &one(i), "lookup")?, None => return bad("lookup", format!("get_lazy of saved key k{i} of {n}: absent")) }
        c.eval(2);
    }
    for k in [1u32, 3, 5, u32::MAX] { ensure!(e2s("lookup", "m.get_lazy", l.m.get_lazy(&Bk(k)))?.is_none(), "lookup", "get_lazy of absent key {k} found something"); }
    ensure!(e2s("lookup", "o.get_lazy", l.o.get_lazy(&"k".to_string()))?.is_none(), "lookup", "get_lazy of absent key found something");
    Ok(())
}
/// KNOWN FINDING K1: values are stored whole, the lazy lookup reads only their inline fields.
fn known_k1(c: &mut Ctx) {
    c.case("known/K1-lazy-lookup-of-interleaved-struct", |_| {
        let v: HashMap<u32, Two> = [(5, two(4))].into(); let h = Holder { v: &v };
        let f = open_b("lookup", e2s("lookup", "write", w_par(&h, false))?)?;
        let m = e2s("lookup", "root", f.root::<HashMap<u32, Two>>())?;
        match m.get_lazy(&5) { Ok(Some(l)) if l.x == two(4).x && l.y == two(4).y => Ok(()), Ok(Some(l)) => bad("known", format!("K1 get_lazy shows x={} y={:?}, saved x={} y={:?}", l.x, l.y, two(4).x, two(4).y)), Ok(None) => bad("lookup", "absent"), Err(e) => bad("known", format!("K1 get_lazy fails: {e}")) }
    });
}
pub fn c07(c: &mut Ctx) {
    fn one<K, V>(c: &mut Ctx, v: &HashMap<K, V>, comp: bool) -> R
    where K: Hash + Eq + Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static, V: ParcodeVisitor + Serialize + DeserializeOwned + PartialEq + Debug + Clone + Send + Sync + 'static + Model,
    {
        for sharded in [true, false] {
            let b = if sharded { let h = Holder { v }; e2s("mapload", "write", w_par(&h, comp))? } else { e2s("mapload", "write", w_par(v, comp))? };
            let f = open_b("mapload", b)?;
            let got: HashMap<K, V> = e2s("mapload", "load", f.load())?;
            ensure!(&got == v, "mapload", "sharded={sharded}: eager load gave {} entries, saved {}", got.len(), v.len());
            let p: ParcodeMapPromise<'_, K, V> = ParcodeMapPromise::new(e2s("mapload", "root_node", f.root_node())?);
            let got = e2s("mapload", "handle load", p.load())?;
            ensure!(&got == v, "mapload", "sharded={sharded}: lazy handle load gave {} entries, saved {}", got.len(), v.len());
            c.eval(2);
            if sharded { let mut w = W::new(comp); v.node(&layout::parse_file(&c_bytes(&f)).map_err(|b| Bad { kind: "mapload", msg: b.msg })?, M, &mut w); if let Some(b) = w.bads.into_iter().find(|b| b.kind == "route") { return Err(b); } }
        }
        Ok(())
    }
    for n in MSIZES {
        let id = format!("mapload/u32-u64/{n}"); c.case(&id, |c| { let mut r = c.rng(&id); let m: HashMap<u32, u64> = gmap(&mut r, n, &|i, _| i as u32 * 7); one(c, &m, n % 2 == 0) });
        let id = format!("mapload/u8-u8/{n}"); if n <= 256 { c.case(&id, |c| { let m: HashMap<u8, u8> = (0..n).map(|i| (i as u8, (i * 3) as u8)).collect(); one(c, &m, n % 2 == 0) }); }
        let id = format!("mapload/string-flat/{n}"); if n <= if c.thorough { 6001 } else { 4001 } && (c.thorough || n != 3999) { c.case(&id, |c| { let mut r = c.rng(&id); let m: HashMap<String, Flat> = gmap(&mut r, n, &|i, _| format!("key{i}")); one(c, &m, n % 2 == 1) }); }
        let id = format!("mapload/colliding/{n}"); if n <= 6001 { c.case(&id, |c| { let m: HashMap<Bk, String> = (0..n).map(|i| (Bk(i as u32), format!("{i}"))).collect(); one(c, &m, false) }); }
        let id = format!("mapload/vec-values/{n}"); if n <= 2001 { c.case(&id, |c| { let mut r = c.rng(&id); let m: HashMap<u64, Vec<u16>> = gmap(&mut r, n, &|i, _| i as u64 * 1_000_003); one(c, &m, n % 2 == 0) }); }
        let id = format!("mapload/unit-ish/{n}"); if n <= 2001 { c.case(&id, |c| { let m: HashMap<bool, bool> = (0..n.min(2)).map(|i| (i == 0, i == 1)).collect(); one(c, &m, n % 2 == 0) }); }
    }
    for i in 0..(if c.thorough { 1000 } else { 120 }) {
        let id = format!("mapload/fields/{i}");
        c.case(&id, |c| {
            let mut r = c.rng(&id); let v = Maps::g(&mut r, 50);
            let f = open_b("mapload", e2s("mapload", "write", w_par(&v, i % 2 == 0))?)?;
            let got: Maps = e2s("mapload", "load", f.load())?;
            ensure!(got == v, "mapload", "maps in fields differ: got {} want {}", short(&got), short(&v));
            chk_maps(&e2s("mapload", "root", f.root::<Maps>())?, &v, "mapload")?; c.eval(2); Ok(())
        });
    }
    let big = if c.thorough { vec![300_000u32, 2_048_000, 2_050_001] } else { vec![514_000u32] };
    for n in big { let id = format!("mapload/huge/{n}"); c.case(&id, |c| { let m: HashMap<u32, u8> = (0..n).map(|i| (i.wrapping_mul(2654435761), i as u8)).collect(); one(c, &m, false) }); }
    map_of_structs(c);
}

// ---------------------------------------------------------------- structure: C10 C14 C16 C17 C22
fn structure<T: Full>(c: &mut Ctx, v: &T, comp: bool, seq: bool, cfg: (u8, bool), uniform: bool) -> R {
    let b = e2s("write", "write", if seq { w_seq(v, comp) } else { w_par(v, comp) })?;
    c.eval(1);
    let t = layout::parse_file(&b)?;
    let mut w = W::new(comp); w.uniform = uniform;
    v.node(&t, cfg, &mut w);
    c.note(fnv(&t.canon()));
    if let Some(b) = w.bads.iter().find(|b| c.kinds.contains(&b.kind)) { return Err(b.clone()); }
    if let Some(b) = w.bads.into_iter().next() { return Err(b); }
    Ok(())
}
fn structures(c: &mut Ctx, pre: &str, n: usize) {
    macro_rules! t { ($($t:ty),*) => { $( for i in 0..n { for comp in [false, true] { for seq in [false, true] {
        let id = format!("{pre}/{}/{i}/comp={comp}/seq={seq}", stringify!($t));
        c.case(&id, |c| { let mut r = c.rng(&format!("{}/{i}", stringify!($t))); let v = <$t as Gen>::g(&mut r, [4, 14, 45][i % 3]); structure(c, &v, comp, seq, D, false) });
    } } } )* } }
    t!(Flat, One, Two, Remote, Nest, Deep, Comp, Prims, MapTwo2, Maps, Bag, Vec<Two>, Vec<Bag>, Vec<Comp>, Vec<u32>, Vec<String>, HashMap<u32, u32>, u64, String);
}
type MapTwo2 = Maps;
pub fn c10(c: &mut Ctx) {
    structures(c, "tree", if c.thorough { 120 } else { 9 });
    for (i, n) in [0usize, 1, 31, 32, 33, 100, 1000, 5000, 60_000].iter().enumerate() {
        for seq in [false, true] { for cpus in [0, 1, 3] {
            let id = format!("tree/Vec<u32>/{n}/seq={seq}/cpus={cpus}");
            c.case(&id, |c| { let v: Vec<u32> = (0..*n as u32).collect(); with_cpus(cpus, || structure(c, &v, i % 2 == 0, seq, D, true)) });
            let id = format!("tree/Vec<Two>/{n}/seq={seq}/cpus={cpus}");
            if *n <= 5000 { c.case(&id, |c| { let v: Vec<Two> = (0..*n).map(two).collect(); with_cpus(cpus, || structure(c, &v, i % 2 == 1, seq, D, false)) }); }
        } }
    }
    for n in [0usize, 1, 2000, 4000, 9000] { for seq in [false, true] {
        let id = format!("tree/MapTwo/{n}/seq={seq}");
        c.case(&id, |c| { let v = MapTwo { id: 3, m: (0..n).map(|i| (Bk(i as u32 * 2), two_l(i))).collect(), o: (0..n / 2).map(|i| (format!("k{i}"), one(i))).collect(), end: 9 }; structure(c, &v, n == 2000, seq, D, false) });
    } }
    // repeated runs: schedules differ, structure must not
    let reps = if c.thorough { 2000 } else { 150 };
    let v = { let mut r = Rng::new(5); let mut v = Bag::g(&mut r, 12); while v.w.len() < 3 { v = Bag::g(&mut r, 12); } v };
    for i in 0..reps { let id = format!("tree/repeat/{i}"); c.case(&id, |c| structure(c, &v, i % 2 == 0, false, D, false)); }
    // pools of different sizes
    for threads in [1usize, 2, 3, 16] {
        let id = format!("tree/pool/{threads}");
        c.case(&id, |c| {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            let u: Vec<Two> = (0..900).map(two).collect();
            for _ in 0..10 { pool.install(|| structure(c, &v, false, false, D, false))?; pool.install(|| with_cpus(1, || structure(c, &u, true, false, D, false)))?; }
            Ok(())
        });
    }
    c.case("tree/past-write-buffer", |c| { let v = Two { a: (0..(18u32 << 20)).map(|i| (i >> 3) as u8).collect(), x: 1, b: "b".repeat(1 << 20), y: "y".into(), c: 9 }; structure(c, &v, false, false, D, false)?; structure(c, &v, false, true, D, false) });
}
fn canon_maps(t: &Tree, out: &mut Vec<String>) { out.push(t.canon()); }
pub fn c14(c: &mut Ctx) {
    fn cmp<T: Full>(c: &mut Ctx, v: &T) -> R {
        for comp in [false, true] {
            let a = w_par(v, comp); let b = w_seq(v, comp);
            c.eval(1);
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    let (ta, tb) = (layout::parse_file(&a), layout::parse_file(&b));
                    let ta = ta.map_err(|b| Bad { kind: "agree", msg: format!("parallel file: {}", b.msg) })?; let tb = tb.map_err(|b| Bad { kind: "agree", msg: format!("sequential file: {}", b.msg) })?;
                    let (mut x, mut y) = (vec![], vec![]); canon_maps(&ta, &mut x); canon_maps(&tb, &mut y);
                    ensure!(x == y, "agree", "compression={comp}: trees differ\nparallel   {}\nsequential {}", x[0].chars().take(600).collect::<String>(), y[0].chars().take(600).collect::<String>());
                    let (la, lb): (T, T) = (e2s("agree", "load parallel file", Parcode::load_bytes(a))?, e2s("agree", "load sequential file", Parcode::load_bytes(b))?);
                    ensure!(la == lb && &la == v, "agree", "compression={comp}: loaded values differ");
                }
                (Err(_), Err(_)) => {}
                (a, b) => return bad("agree", format!("compression={comp}: parallel {:?} sequential {:?}", a.map(|x| x.len()), b.map(|x| x.len()))),
            }
        }
        Ok(())
    }
    let n = if c.thorough { 300 } else { 25 };
    macro_rules! t { ($($t:ty),*) => { $( for i in 0..n { let id = format!("agree/{}/{i}", stringify!($t)); c.case(&id, |c| { let mut r = c.rng(&id); let v = <$t as Gen>::g(&mut r, [4, 14, 45][i % 3]); cmp(c, &v) }); } )* } }
    t!(Flat, One, Two, Remote, Nest, Deep, Comp, Prims, Maps, Bag, Vec<Two>, Vec<Bag>, Vec<Comp>, Vec<u32>, Vec<String>, HashMap<u32, u32>, u64, String, Zero);
    for n in [31usize, 33, 700, 5000, 40_000] {
        let id = format!("agree/Vec<u64>/{n}"); c.case(&id, |c| cmp(c, &(0..n as u64).collect::<Vec<_>>()));
        let id = format!("agree/Vec<Two>/{n}"); if n <= 5000 { c.case(&id, |c| cmp(c, &(0..n).map(two).collect::<Vec<_>>())); }
    }
    // one file large enough to spill the write buffer in both writers
    c.case("agree/18MiB", |c| cmp(c, &(0..(18u32 << 20)).map(|i| (i ^ i >> 7) as u8).collect::<Vec<u8>>()));
    crate::p_sys::agree_graphs(c);
}
pub fn c17(c: &mut Ctx) {
    structures(c, "shards", if c.thorough { 60 } else { 4 });
    fn go<T: Elem>(c: &mut Ctx, tn: &str, sz: usize, cap: usize, uniform: bool, mk: &dyn Fn(usize) -> T) {
        for n in lens(sz, cap, false) { for cpus in [0usize, 1, 2, 5] {
            if !c.thorough && cpus != 0 && n % 3 != 0 { continue; }
            let id = format!("shards/{tn}/n={n}/cpus={cpus}");
            c.case(&id, |c| { let v: Vec<T> = (0..n).map(mk).collect(); with_cpus(cpus, || structure(c, &v, n % 2 == 0, n % 3 == 0, D, uniform)) });
        } }
    }
    go::<u8>(c, "u8", 1, 600_000, true, &|i| i as u8);
    go::<u64>(c, "u64", 9, 120_000, true, &|i| u64::MAX - i as u64);
    go::<String>(c, "s100", 101, 20_000, true, &|_| "s".repeat(100));
    go::<String>(c, "s5000", 5003, 1500, true, &|_| "s".repeat(5000));
    go::<String>(c, "s70000", 70_005, 100, true, &|_| "s".repeat(70_000));
    go::<String>(c, "s140000", 140_005, 40, true, &|_| "s".repeat(140_000));
    go::<Two>(c, "Two", 8, 3000, false, &two);
    go::<String>(c, "skew", 3, 2000, false, &|i| "s".repeat(i % 50));
    go::<bool>(c, "bool", 1, 70_000, true, &|i| i % 2 == 0);
}
pub fn c22(c: &mut Ctx) {
    let n = if c.thorough { 200 } else { 25 };
    macro_rules! t { ($($t:ty),*) => { $( for i in 0..n { for comp in [false, true] { for seq in [false, true] {
        let id = format!("cfg/{}/{i}/comp={comp}/seq={seq}", stringify!($t));
        c.case(&id, |c| { let mut r = c.rng(&format!("{}/{i}", stringify!($t))); let v = <$t as Gen>::g(&mut r, [4, 14, 45][i % 3]); structure(c, &v, comp, seq, D, false) });
    } } } )* } }
    t!(Comp, Vec<Comp>, Deep, Two, Bag, Vec<u32>, HashMap<u32, u32>, u64);
    for (i, v) in [Comp { a: vec![], b: vec![], l: 0, c: vec![], z: vec![], m: HashMap::new(), s: two(0), bl: HashMap::new(), m3: HashMap::new(), p: 0, ts: vec![] },
        Comp { a: (0..50_000).collect(), b: (0..50_000).collect(), l: 0, c: (0..9000).collect(), z: (0..9000).collect(), m: (0..5000).map(|i| (i, "x".into())).collect(), s: two(3), bl: [(1, 2)].into(), m3: [(1, 2)].into(), p: 0, ts: (0..900).map(two).collect() }].iter().enumerate() {
        for comp in [false, true] { for seq in [false, true] { let id = format!("cfg/Comp-fixed-{i}/comp={comp}/seq={seq}"); c.case(&id, |c| structure(c, v, comp, seq, D, false)); } }
    }
    // explicit settings on the root of each collection
    for id8 in 0..8u8 { for comp in [false, true] { for seq in [false, true] {
        let id = format!("cfg/root-override/{id8}/comp={comp}/seq={seq}");
        c.case(&id, |c| {
            let v: Vec<u32> = (0..3000).collect();
            cfg_root(c, &v, (id8, false), comp, seq)?; cfg_root(c, &Vec::<u32>::new(), (id8, false), comp, seq)?; cfg_root(c, &two(4), (id8, false), comp, seq)?; cfg_root(c, &7u16, (id8, false), comp, seq)?; cfg_root(c, &"str".to_string(), (id8, false), comp, seq)?;
            let m: HashMap<u32, u8> = (0..4500).map(|i| (i, 1)).collect();
            cfg_root(c, &m, (id8, true), comp, seq)?; cfg_root(c, &m, (id8, false), comp, seq)?; cfg_root(c, &HashMap::<u32, u8>::new(), (id8, true), comp, seq)?; cfg_root(c, &HashMap::<u32, u8>::new(), (id8, false), comp, seq)?;
            cfg_root(c, &(0..500).map(two).collect::<Vec<_>>(), (id8, false), comp, seq)
        });
    } } }
}
/// Wraps a value so that its root visit carries an explicit setting.
pub struct WithCfg<'v, T>(pub &'v T, pub (u8, bool));
impl<T: ParcodeVisitor> ParcodeVisitor for WithCfg<'_, T> {
    fn visit<'a>(&'a self, g: &mut parcode::graph::TaskGraph<'a>, p: Option<parcode::graph::ChunkId>, _: Option<parcode::graph::JobConfig>) {
        self.0.visit(g, p, Some(parcode::graph::JobConfig { compression_id: self.1.0, is_map: self.1.1 }));
    }
    fn create_job<'a>(&'a self, c: Option<parcode::graph::JobConfig>) -> Box<dyn parcode::graph::SerializationJob<'a> + 'a> { self.0.create_job(c) }
}
fn cfg_root<T: ParcodeVisitor + Model + Sync>(c: &mut Ctx, v: &T, cfg: (u8, bool), comp: bool, seq: bool) -> R {
    let x = WithCfg(v, cfg);
    let b = e2s("id", &format!("write with algorithm {}", cfg.0), if seq { w_seq(&x, comp) } else { w_par(&x, comp) })?;
    c.eval(1);
    let t = layout::parse_file(&b)?;
    let mut w = W::new(comp); v.node(&t, cfg, &mut w);
    if let Some(b) = w.bads.into_iter().find(|b| b.kind == "id") { return Err(b); }
    Ok(())
}
pub fn c16(c: &mut Ctx) {
    fn cmp(i: &parcode::inspector::ChunkInfo, t: &Tree, path: &str) -> R {
        let algo = match t.id() { 0 => "None".to_string(), 1 => "LZ4".into(), n => format!("Unknown({n})") };
        ensure!(i.offset == t.off && i.total_length == t.len, "inspect", "{path}: reported [{},+{}), is [{},+{})", i.offset, i.total_length, t.off, t.len);
        ensure!(i.payload_size == t.raw.len() as u64, "inspect", "{path}: payload size {} is {}", i.payload_size, t.raw.len());
        ensure!(i.child_count as usize == t.kids.len() && i.children.len() == t.kids.len(), "inspect", "{path}: {} children reported ({} listed), has {}", i.child_count, i.children.len(), t.kids.len());
        ensure!(i.compression_algo == algo, "inspect", "{path}: algorithm {} is {algo}", i.compression_algo);
        ensure!(i.is_chunkable == (t.meta & 1 == 1), "inspect", "{path}: flag wrong");
        for (n, (a, b)) in i.children.iter().zip(&t.kids).enumerate() { cmp(a, b, &format!("{path}.{n}"))?; }
        Ok(())
    }
    fn go<T: Full>(c: &mut Ctx, v: &T, comp: bool, seq: bool) -> R {
        let b = e2s("inspect", "write", if seq { w_seq(v, comp) } else { w_par(v, comp) })?;
        let t = layout::parse_file(&b).map_err(|b| Bad { kind: "inspect", msg: b.msg })?;
        let p = c.scratch.join("i.par"); std::fs::write(&p, &b).unwrap();
        for (k, r) in [Parcode::inspect_bytes(b.clone()), Parcode::inspect(&p), Parcode::open_bytes(b.clone()).and_then(|f| f.inspect())].into_iter().enumerate() {
            let r = e2s("inspect", "inspect", r)?;
            ensure!(r.file_size == b.len() as u64 && r.root_offset == t.off && r.global_version == 4, "inspect", "report {k}: size {} root {} version {}; is {} {} 4", r.file_size, r.root_offset, r.global_version, b.len(), t.off);
            cmp(&r.tree, &t, "root")?; hints(v, &r.tree)?; let _ = format!("{r}"); c.eval(1);
        }
        Ok(())
    }
    fn hints<T: Full>(_: &T, _: &parcode::inspector::ChunkInfo) -> R { Ok(()) }
    let n = if c.thorough { 200 } else { 12 };
    macro_rules! t { ($($t:ty),*) => { $( for i in 0..n { let id = format!("inspect/{}/{i}", stringify!($t)); c.case(&id, |c| { let mut r = c.rng(&id); let v = <$t as Gen>::g(&mut r, [4, 14, 45][i % 3]); go(c, &v, i % 2 == 0, i % 4 < 2) }); } )* } }
    t!(Flat, One, Two, Remote, Nest, Deep, Comp, Prims, Maps, Bag, Vec<Two>, Vec<Bag>, Vec<Comp>, Vec<u32>, Vec<String>, HashMap<u32, u32>, u64, String);
    for n in [1usize, 2, 31, 33, 300, 5000, 30_000, 250_000] {
        let id = format!("inspect/vec-counts/{n}");
        c.case(&id, |c| {
            let v: Vec<u32> = (0..n as u32).collect(); go(c, &v, n % 2 == 0, false)?;
            let b = e2s("inspect", "write", w_par(&v, n % 2 == 0))?; let t = layout::parse_file(&b)?;
            let r = e2s("inspect", "inspect", Parcode::inspect_bytes(b))?;
            let d = r.tree.distribution_info.clone().unwrap_or_default();
            let nums: Vec<u64> = d.split(|ch: char| !ch.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            ensure!(nums == [n as u64, t.kids.len() as u64], "inspect", "vector of {n} in {} shards described as {d:?}", t.kids.len());
            ensure!(r.tree.node_type_hint.contains("Vec"), "inspect", "vector container described as {:?}", r.tree.node_type_hint);
            ensure!(format!("{r}").contains(&d), "inspect", "printed report misses {d:?}"); Ok(())
        });
        let id = format!("inspect/map-counts/{n}");
        c.case(&id, |c| {
            let v: HashMap<u32, u32> = (0..n as u32).map(|i| (i, i)).collect(); let h = Holder { v: &v };
            let b = e2s("inspect", "write", w_par(&h, n % 2 == 0))?; let t = layout::parse_file(&b)?;
            let r = e2s("inspect", "inspect", Parcode::inspect_bytes(b))?; c.eval(1);
            let d = r.tree.distribution_info.clone().unwrap_or_default();
            let nums: Vec<u64> = d.split(|ch: char| !ch.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            ensure!(nums == [t.kids.len() as u64], "inspect", "map in {} buckets described as {d:?}", t.kids.len());
            ensure!(r.tree.node_type_hint.contains("Map"), "inspect", "map container described as {:?}", r.tree.node_type_hint);
            cmp(&r.tree, &t, "root")
        });
    }
}
pub fn _unused(_: &ChunkNode<'_>) {}
