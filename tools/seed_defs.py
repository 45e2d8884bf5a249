SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed('lz4-empty-append', 'C08', [('src/compression.rs',
'''        let uncompressed_len = u32::try_from(data.len())
            .map_err(|_| ParcodeError::Compression("Data too large for u32".to_string()))?;
''',
'''        if data.is_empty() {
            return Ok(());
        }

        let uncompressed_len = u32::try_from(data.len())
            .map_err(|_| ParcodeError::Compression("Data too large for u32".to_string()))?;
''')],
'an empty payload compressed with LZ4 (a struct whose fields are all chunkable, or an empty unit)',
'compressing the empty byte string yields nothing, which does not decompress: the size prefix is missing',
r'''use parcode::compression::CompressorRegistry;
fn main() {
    let r = CompressorRegistry::new();
    for data in [&b""[..], b"x", &[7u8; 1000]] {
        for id in [0u8, 1] {
            let c = r.get(id).unwrap();
            let mut out = b"head".to_vec();
            c.compress_append(data, &mut out).unwrap();
            assert_eq!(&out[..4], b"head");
            let back = c.decompress(&out[4..]).expect("decompress");
            assert_eq!(&back[..], data);
        }
    }
}
''')

seed('meta-two-bit-id', 'C09', [('src/format.rs',
'''(self.0 & Self::COMPRESSION_MASK) >> 1''', '''(self.0 >> 1) & 0b0000_0011''')],
'a compression id of 4 or more in the flag byte',
'the compression id is masked to two bits: ids 4..7 read back as 0..3, so a chunk of an unavailable algorithm is read as plain data',
r'''use parcode::format::MetaByte;
fn main() {
    for c in [false, true] { for id in 0..8u8 {
        let m = MetaByte::new(c, id);
        let b = MetaByte::from_byte(m.as_u8());
        assert_eq!(b.is_chunkable(), c);
        assert_eq!(b.compression_method(), id);
    } }
}
''')

seed('children-by-offset', 'C19', [('src/executor.rs',
'''    let children_refs: Vec<ChildRef> = match completed_children_raw
        .into_iter()
        .map(|opt| opt.ok_or_else(|| ParcodeError::Internal("Missing child result".into())))
        .collect()
    {
        Ok(v) => v,
        Err(e) => {
            ctx.signal_error(e);
            return;
        }
    };
''',
'''    let mut children_refs: Vec<ChildRef> = match completed_children_raw
        .into_iter()
        .map(|opt| opt.ok_or_else(|| ParcodeError::Internal("Missing child result".into())))
        .collect::<Result<_>>()
    {
        Ok(v) => v,
        Err(e) => {
            ctx.signal_error(e);
            return;
        }
    };
    // Large fan-outs: keep the footer in file order for locality.
    if children_refs.len() > 1024 {
        children_refs.sort_unstable_by_key(|r| r.offset);
    }
''')],
'more than 1024 children of one task whose writes complete out of link order (parallel writer)',
'children locations are handed over and recorded in completion order instead of the order they were linked',
r'''use parcode::compression::CompressorRegistry;
use parcode::executor::execute_graph;
use parcode::format::ChildRef;
use parcode::graph::{SerializationJob, TaskGraph};
use parcode::io::SeqWriter;
use std::sync::{Arc, Mutex};
struct Leaf(u32);
impl<'a> SerializationJob<'a> for Leaf {
    fn execute(&self, _: &[ChildRef]) -> parcode::Result<Vec<u8>> {
        if self.0 % 3 == 0 { std::thread::sleep(std::time::Duration::from_millis(5)); }
        Ok(vec![1; self.0 as usize + 1])
    }
    fn estimated_size(&self) -> usize { 1 }
}
struct Top(Arc<Mutex<Vec<u64>>>);
impl<'a> SerializationJob<'a> for Top {
    fn execute(&self, c: &[ChildRef]) -> parcode::Result<Vec<u8>> { *self.0.lock().unwrap() = c.iter().map(|r| r.length).collect(); Ok(vec![9]) }
    fn estimated_size(&self) -> usize { 1 }
}
fn main() {
    let seen = Arc::new(Mutex::new(vec![]));
    let mut g = TaskGraph::new();
    let top = g.add_node(Box::new(Top(seen.clone())));
    for i in 0..2000 { let id = g.add_node(Box::new(Leaf(i))); g.link_parent_child(top, id); }
    execute_graph(&g, &SeqWriter::new(Vec::new()), &CompressorRegistry::new(), false).unwrap();
    let want: Vec<u64> = (0..2000).map(|i| i + 2).collect();
    assert_eq!(*seen.lock().unwrap(), want);
}
''')

seed('shard-max-of-strategies', 'C17', [('src/visitor_impls.rs',
'''let candidate_count = count_by_io.min(count_by_cpu);''', '''let candidate_count = if total_len > 1_000_000 {
                // Huge vectors: one task per core slot is plenty.
                count_by_cpu
            } else {
                count_by_io.min(count_by_cpu)
            };''')],
'a vector of more than a million elements, large enough that an equal share per core slot exceeds 128 KiB',
'shards of very long vectors aim at more than 128 KiB',
r'''use parcode::Parcode;
fn main() {
    let v: Vec<u64> = (0..4_000_000u64).map(|i| i | 1 << 40).collect();
    let b = Parcode::serialize(&v).unwrap();
    let f = Parcode::open_bytes(b).unwrap();
    for c in f.root_node().unwrap().children().unwrap() {
        assert!(c.payload_len() <= 132 * 1024, "shard of {} bytes", c.payload_len());
    }
}
''')

seed('map-collision-stops', 'C06', [('src/rt.rs',
'''                if &stored_key == key {
                    return Ok(Some(stored_val));
                }
                // If no match, it's a hash collision (rare). Continue searching.
''',
'''                return Ok((&stored_key == key).then_some(stored_val));
''')],
'two saved keys with the same 64-bit hash',
'looking up the second of two keys with equal hashes reports it absent',
r'''use parcode::{Parcode, ParcodeObject};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
struct K(u32);
impl std::hash::Hash for K { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.0 / 4).hash(h) } }
#[derive(Serialize, Deserialize, ParcodeObject)]
struct S { #[parcode(map)] m: HashMap<K, u32> }
fn main() {
    let s = S { m: (0..40).map(|i| (K(i), i * 10)).collect() };
    let f = Parcode::open_bytes(Parcode::serialize(&s).unwrap()).unwrap();
    let l = f.root::<S>().unwrap();
    for i in 0..40 { assert_eq!(l.m.get(&K(i)).unwrap(), Some(i * 10), "key {i}"); }
    assert_eq!(l.m.get(&K(40)).unwrap(), None);
}
''')

seed('get-prefetch-next', 'C15', [('src/reader.rs',
'''        let shard_node = self.get_child_by_index(target_shard_idx)?;

        let payload = shard_node.read_raw()?;
''',
'''        let shard_node = self.get_child_by_index(target_shard_idx)?;
        if index_in_shard > 0 && target_shard_idx + 1 < self.child_count as usize {
            // Sequential access pattern: warm the next shard.
            self.get_child_by_index(target_shard_idx + 1)?.read_raw()?;
        }

        let payload = shard_node.read_raw()?;
''')],
'a neighbouring shard whose payload cannot be decompressed',
'indexing one element fails when an unrelated shard of the vector is damaged',
r'''use parcode::Parcode;
fn main() {
    let v: Vec<u64> = (0..50_000u64).collect();
    let mut b = Vec::new();
    Parcode::builder().compression(true).write_sync(&mut b, &v).unwrap();
    let kids: Vec<(u64, u64)> = Parcode::open_bytes(b.clone()).unwrap().root_node().unwrap().children().unwrap().iter().map(|c| (c.offset(), c.payload_len())).collect();
    assert!(kids.len() > 3);
    let (o, n) = kids[2];
    b[o as usize..(o + n) as usize].fill(0xFF);
    let f = Parcode::open_bytes(b).unwrap();
    let l = f.root::<Vec<u64>>().unwrap();
    for i in [0usize, 1, 2, 500, 49_999] { assert_eq!(l.get(i).unwrap(), v[i]); }
    let n = 50_000 / kids.len();
    let _ = n;
    // every element outside the damaged shard is readable
    let bad = (0..50_000).filter(|i| l.get(*i * 1).is_err()).count();
    assert!(bad < 50_000 / (kids.len() - 2) + 2_100, "{bad} elements unreadable");
    let step = v.iter().position(|i| l.get(*i as usize).is_err()).unwrap();
    assert_eq!(l.get(step - 1).unwrap(), v[step - 1]);
    // the shard before the damaged one is wholly readable
    let first = Parcode::open_bytes(Parcode::serialize(&v).unwrap()).unwrap();
    let per = first.root_node().unwrap().children().unwrap()[0].payload_len();
    assert!(per > 0);
    let items0 = l.iter().unwrap().take_while(|x| x.is_ok()).count();
    assert_eq!(step, items0);
}
''')

seed('seqwriter-racy-offset', 'C21', [('src/io.rs',
'''        let start_offset = state.current_offset;

        // This call usually just copies memory.
        // It only blocks for disk I/O once every ~16MB of data.
        state.writer.write_all(buffer)?;

        state.current_offset += buffer.len() as u64;
''',
'''        let start_offset = state.current_offset;

        if buffer.len() > WRITE_BUFFER_SIZE {
            // A buffer this large goes straight to the sink: reserve its place, then write.
            state.current_offset += buffer.len() as u64;
            drop(state);
            state = self
                .inner
                .lock()
                .map_err(|_| ParcodeError::Internal("Writer mutex poisoned".into()))?;
            state.writer.write_all(buffer)?;
            return Ok(start_offset);
        }

        // This call usually just copies memory.
        // It only blocks for disk I/O once every ~16MB of data.
        state.writer.write_all(buffer)?;

        state.current_offset += buffer.len() as u64;
''')],
'an append of more than 16 MiB racing with other appends',
'another append can land at the place reserved by a large one, so both report wrong offsets',
r'''use parcode::io::SeqWriter;
use std::sync::Mutex;
fn main() {
    for _ in 0..6 {
        let w = SeqWriter::new(Vec::new());
        let big: Vec<Vec<u8>> = (0..2u8).map(|t| vec![200 + t; (16 << 20) + 1]).collect();
        let got: Mutex<Vec<(u64, u8, usize)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for t in 0..8u8 {
                let (w, got, big) = (&w, &got, &big);
                s.spawn(move || for i in 0..if t < 2 { 1 } else { 40_000 } {
                    let _ = i;
                    let small = [t; 3];
                    let b: &[u8] = if t < 2 { &big[t as usize] } else { &small };
                    let o = w.write_all(b).unwrap();
                    got.lock().unwrap().push((o, b[0], b.len()));
                });
            }
        });
        w.flush().unwrap();
        let out = w.into_inner().unwrap().into_inner().unwrap();
        for (o, tag, n) in got.into_inner().unwrap() {
            assert!(out[o as usize..o as usize + n].iter().all(|x| *x == tag), "append at {o} is not there");
        }
    }
}
''')

seed('small-shards-uncompressed', 'C22', [('src/visitor_impls.rs',
'''            let shard_inner = Box::new(VecShardJob { data: chunk_slice });

            // CONFIGURATION PROPAGATION:''',
'''            let shard_inner = Box::new(VecShardJob { data: chunk_slice });
            // A tail shard of a few bytes does not compress.
            let config_override = if chunk_slice.len() < 4 && chunk_slice.len() < items_per_shard {
                None
            } else {
                config_override
            };

            // CONFIGURATION PROPAGATION:''')],
'a vector field marked for compression whose last shard holds fewer than four elements',
'the field compression setting is not applied to a short last shard',
r'''use parcode::{Parcode, ParcodeObject};
use serde::{Deserialize, Serialize};
#[derive(Serialize, Deserialize, ParcodeObject)]
struct S { a: u8, #[parcode(chunkable, compression = "lz4")] v: Vec<u64> }
fn main() {
    for n in [0usize, 1, 3, 500, 10_000, 100_000, 513, 1025, 4097, 8193] {
        let s = S { a: 1, v: (0..n as u64).map(|i| i + (1 << 40)).collect() };
        let f = Parcode::open_bytes(Parcode::serialize(&s).unwrap()).unwrap();
        let c = f.root_node().unwrap().children().unwrap().remove(0);
        assert_eq!(c.meta().compression_method(), 1);
        for k in c.children().unwrap() { assert_eq!(k.meta().compression_method(), 1, "n={n}"); }
    }
}
''')

seed('short-shard-accepted', 'C12', [('src/reader.rs',
'''        if items_read != expected_count {
            return Err(ParcodeError::Format(format!(
                "Shard {} items mismatch''',
'''        if items_read > expected_count {
            return Err(ParcodeError::Format(format!(
                "Shard {} items mismatch''')],
'a file one of whose shards holds fewer elements than its container declares',
'a vector is handed out with slots nobody wrote',
r'''use parcode::Parcode;
fn main() {
    // container of 6 elements in 2 shards of 3; the second shard holds only 2
    fn leaf(n: u8, out: &mut Vec<u8>) -> (u64, u64) { let o = out.len() as u64; out.push(n); for i in 0..n { out.push(i); } out.push(0); (o, out.len() as u64 - o) }
    let mut f = Vec::new();
    let a = leaf(3, &mut f); let b = leaf(2, &mut f);
    let o = f.len() as u64;
    f.extend(6u64.to_le_bytes()); f.extend([1u8, 3, 2]);
    for (x, l) in [a, b] { f.extend(x.to_le_bytes()); f.extend(l.to_le_bytes()); }
    f.extend(2u32.to_le_bytes()); f.push(1);
    let l = f.len() as u64 - o;
    f.extend(b"PAR4"); f.extend(4u16.to_le_bytes()); f.extend(o.to_le_bytes()); f.extend(l.to_le_bytes()); f.extend(0u32.to_le_bytes());
    assert!(Parcode::load_bytes::<Vec<u32>>(f).is_err(), "a short shard was accepted");
}
''')

seed('map-load-skips-small-shard', 'C07', [('src/rt.rs',
'''            let payload = shard.read_raw()?;
            if payload.len() < 8 {
                continue;
            }

            // Parse SOA header''',
'''            let payload = shard.read_raw()?;
            // Header, one hash and one offset, and at least a few bytes of data.
            if payload.len() < 24 {
                continue;
            }

            // Parse SOA header''')],
'a hash-sharded map with a shard holding a single entry of three bytes or fewer',
'loading a map through its lazy handle drops the only entry of a very small shard',
r'''use parcode::{Parcode, ParcodeObject};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
#[derive(Serialize, Deserialize, ParcodeObject)]
struct S { #[parcode(map)] m: HashMap<u16, u8> }
fn main() {
    for n in 0..5u16 {
        let s = S { m: (0..n).map(|i| (i, i as u8)).collect() };
        let f = Parcode::open_bytes(Parcode::serialize(&s).unwrap()).unwrap();
        let l = f.root::<S>().unwrap();
        assert_eq!(l.m.load().unwrap(), s.m, "n={n}");
        let e: S = f.load().unwrap();
        assert_eq!(e.m, s.m);
    }
}
''')

seed('version-at-least', 'C18', [('src/reader.rs',
'''        if version != 4 {''', '''        if version < 4 || version > u16::from(u8::MAX) {''')],
'a file whose header carries a version between 5 and 255',
'files of other versions open',
r'''use parcode::Parcode;
fn main() {
    let b = Parcode::serialize(&7u32).unwrap();
    assert!(Parcode::open_bytes(b.clone()).is_ok());
    let n = b.len();
    for v in [0u16, 1, 3, 5, 6, 255, 256, 0x0400, 0x0404, 65535] {
        let mut c = b.clone(); c[n - 22..n - 20].copy_from_slice(&v.to_le_bytes());
        assert!(Parcode::open_bytes(c).is_err(), "version {v} opened");
    }
}
''')

seed('final-flush-unchecked', 'C13', [('src/api.rs',
'''        let root_child_ref = execute_graph(&graph, &seq_writer, &registry, self.use_compression)?;

        // 4. Write Global Header
        let header = GlobalHeader::new(root_child_ref.offset, root_child_ref.length);
        seq_writer.write_all(&header.to_bytes())?;
        seq_writer.flush()?;

        Ok(())
''',
'''        let root_child_ref = execute_graph(&graph, &seq_writer, &registry, self.use_compression)?;

        // 4. Write Global Header
        let header = GlobalHeader::new(root_child_ref.offset, root_child_ref.length);
        seq_writer.write_all(&header.to_bytes())?;
        // Dropping the buffered writer pushes out what is left.
        drop(seq_writer);

        Ok(())
''')],
'a destination that fails (or is full) when the buffered bytes are finally pushed out, parallel writer',
'an error while delivering the last buffered bytes is swallowed and the write reports success',
r'''use parcode::Parcode;
struct Full { left: usize }
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.left); if n == 0 && !b.is_empty() { return Err(std::io::Error::other("full")); } self.left -= n; Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let v: Vec<u32> = (0..1000).collect();
    let len = Parcode::serialize(&v).unwrap().len();
    for cap in [0, 1, len / 2, len - 27, len - 1] {
        assert!(Parcode::write(Full { left: cap }, &v).is_err(), "parallel, {cap} of {len}");
        assert!(Parcode::write_sync(Full { left: cap }, &v).is_err(), "sequential, {cap} of {len}");
    }
    assert!(Parcode::write(Full { left: len + 10 }, &v).is_ok());
}
''')
