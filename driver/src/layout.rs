//! An independent parser and writer of the file format, written from the documented layout
//! (whitepaper / format docs), sharing no code with the library. Oracle for structural checks.
use crate::core::{R, bad};


#[derive(Clone, Debug, PartialEq)]
pub struct Tree { pub off: u64, pub len: u64, pub meta: u8, pub raw: Vec<u8>, pub payload: Vec<u8>, pub kids: Vec<Tree> }
impl Tree {
    pub fn id(&self) -> u8 { (self.meta >> 1) & 7 }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Tree)) { f(self); for k in &self.kids { k.walk(f); } }
    /// Shape without positions.
    pub fn canon(&self) -> String {
        let mut s = format!("({}:{:016x}:{}", self.meta, crate::core::fnvb(&self.payload), self.payload.len());
        for k in &self.kids { s.push_str(&k.canon()); }
        s.push(')'); s
    }
}
pub fn u64le(b: &[u8]) -> u64 { let mut x = [0; 8]; x.copy_from_slice(&b[..8]); u64::from_le_bytes(x) }
pub fn u32le(b: &[u8]) -> u32 { let mut x = [0; 4]; x.copy_from_slice(&b[..4]); u32::from_le_bytes(x) }

pub fn header(bytes: &[u8]) -> R<(u64, u64)> {
    ensure!(bytes.len() >= 26, "layout", "file shorter than the header: {} bytes", bytes.len());
    let h = &bytes[bytes.len() - 26..];
    ensure!(&h[0..4] == b"PAR4", "layout", "bad magic {:?}", &h[0..4]);
    ensure!(h[4] == 4 && h[5] == 0, "layout", "bad version bytes {:?}", &h[4..6]);
    Ok((u64le(&h[6..14]), u64le(&h[14..22])))
}
pub fn decompress(id: u8, raw: &[u8]) -> R<Vec<u8>> {
    match id {
        0 => Ok(raw.to_vec()),
        1 => lz4_flex::decompress_size_prepended(raw).or_else(|e| bad("layout", format!("recorded LZ4 payload does not decompress: {e}"))),
        n => bad("layout", format!("recorded unknown algorithm {n}")),
    }
}
pub fn parse_chunk(bytes: &[u8], off: u64, len: u64, body: u64, depth: u32) -> R<Tree> {
    ensure!(depth < 1000, "layout", "nesting too deep");
    ensure!(len >= 1 && off.checked_add(len).is_some_and(|e| e <= body), "layout", "chunk [{off},+{len}) outside the body [0,{body})");
    let c = &bytes[off as usize..(off + len) as usize];
    let meta = c[c.len() - 1];
    ensure!(meta & 0xF0 == 0, "layout", "reserved flag bits set: {meta:#x}");
    let mut pay_end = c.len() - 1;
    let mut kids = vec![];
    if meta & 1 == 1 {
        ensure!(c.len() >= 5, "layout", "chunk with children too small");
        let n = u32le(&c[c.len() - 5..c.len() - 1]) as usize;
        ensure!(n > 0, "layout", "children flag set but no children at {off}");
        ensure!(c.len() >= 5 + n * 16, "layout", "footer larger than the chunk");
        pay_end = c.len() - 5 - n * 16;
        for i in 0..n {
            let e = &c[pay_end + i * 16..];
            let (o, l) = (u64le(&e[0..8]), u64le(&e[8..16]));
            ensure!(o.checked_add(l).is_some_and(|x| x <= off), "layout", "child {i} [{o},+{l}) does not precede its parent at {off}");
            kids.push(parse_chunk(bytes, o, l, body, depth + 1)?);
        }
    }
    let raw = c[..pay_end].to_vec();
    let payload = decompress((meta >> 1) & 7, &raw)?;
    Ok(Tree { off, len, meta, raw, payload, kids })
}
/// Parses a whole file and checks that its chunks tile the body exactly, root last.
pub fn parse_file(bytes: &[u8]) -> R<Tree> {
    let (ro, rl) = header(bytes)?;
    let body = bytes.len() as u64 - 26;
    let t = parse_chunk(bytes, ro, rl, body, 0)?;
    let mut v = vec![];
    t.walk(&mut |n| v.push((n.off, n.len)));
    v.sort();
    let mut pos = 0;
    for (o, l) in &v {
        ensure!(*o == pos, "layout", "chunks do not tile the file: expected a chunk at {pos}, next is at {o}");
        pos = o + l;
    }
    ensure!(pos == body, "layout", "chunks end at {pos}, header starts at {body}");
    ensure!(ro + rl == body, "layout", "root is not the last chunk: [{ro},+{rl}) of {body}");
    Ok(t)
}

// ---- independent writer ----
#[derive(Clone, Debug, Default)]
pub struct N { pub id: u8, pub payload: Vec<u8>, pub kids: Vec<N>, pub force_flag: bool }
pub fn leaf(p: Vec<u8>) -> N { N { payload: p, ..Default::default() } }
pub fn node(p: Vec<u8>, kids: Vec<N>) -> N { N { payload: p, kids, ..Default::default() } }
fn put(out: &mut Vec<u8>, n: &N) -> (u64, u64) {
    let refs: Vec<(u64, u64)> = n.kids.iter().map(|k| put(out, k)).collect();
    let off = out.len() as u64;
    let p = if n.id == 1 { lz4_flex::compress_prepend_size(&n.payload) } else { n.payload.clone() };
    out.extend_from_slice(&p);
    let flag = !refs.is_empty() || n.force_flag;
    if flag {
        for (o, l) in &refs { out.extend_from_slice(&o.to_le_bytes()); out.extend_from_slice(&l.to_le_bytes()); }
        out.extend_from_slice(&(refs.len() as u32).to_le_bytes());
    }
    out.push((n.id << 1) | flag as u8);
    (off, out.len() as u64 - off)
}
pub fn tail(out: &mut Vec<u8>, ro: u64, rl: u64) {
    out.extend_from_slice(b"PAR4"); out.extend_from_slice(&4u16.to_le_bytes());
    out.extend_from_slice(&ro.to_le_bytes()); out.extend_from_slice(&rl.to_le_bytes()); out.extend_from_slice(&[0; 4]);
}
pub fn build(n: &N) -> Vec<u8> {
    let mut out = vec![];
    let (o, l) = put(&mut out, n);
    tail(&mut out, o, l);
    out
}
pub fn varint(v: u64) -> Vec<u8> {
    let mut o = vec![];
    if v < 251 { o.push(v as u8) }
    else if v <= 0xFFFF { o.push(251); o.extend_from_slice(&(v as u16).to_le_bytes()) }
    else if v <= 0xFFFF_FFFF { o.push(252); o.extend_from_slice(&(v as u32).to_le_bytes()) }
    else { o.push(253); o.extend_from_slice(&v.to_le_bytes()) }
    o
}
pub fn unvarint(b: &[u8]) -> Option<(u64, usize)> {
    Some(match *b.first()? {
        x @ 0..=250 => (x as u64, 1),
        251 => (u16::from_le_bytes([*b.get(1)?, *b.get(2)?]) as u64, 3),
        252 => { if b.len() < 5 { return None; } (u32le(&b[1..5]) as u64, 5) }
        253 => { if b.len() < 9 { return None; } (u64le(&b[1..9]), 9) }
        _ => return None,
    })
}
pub fn vec_meta(total: u64, runs: &[(u64, u64)]) -> Vec<u8> {
    let mut p = total.to_le_bytes().to_vec();
    p.extend(varint(runs.len() as u64));
    for (c, r) in runs { p.extend(varint(*c)); p.extend(varint(*r)); }
    p
}
pub fn parse_vec_meta(p: &[u8]) -> R<(u64, Vec<(u64, u64)>)> {
    ensure!(p.len() >= 9, "shards", "vector container payload too short: {}", p.len());
    let total = u64le(&p[0..8]);
    let mut i = 8;
    let mut next = || -> R<u64> { match unvarint(&p[i..]) { Some((v, n)) => { i += n; Ok(v) } None => bad("shards", "bad varint in shard table") } };
    let n = next()?;
    let mut runs = vec![];
    for _ in 0..n { let c = next()?; let r = next()?; runs.push((c, r)); }
    ensure!(i == p.len(), "shards", "trailing bytes in shard table");
    Ok((total, runs))
}
