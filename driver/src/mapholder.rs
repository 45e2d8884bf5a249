//! A root that saves a map with the hash-sharded strategy.
#[macro_export]
macro_rules! st_map { () => {
    pub struct Holder<'v, K, V> { pub v: &'v HashMap<K, V> }
    impl<K, V> ParcodeVisitor for Holder<'_, K, V> where HashMap<K, V>: ParcodeVisitor {
        fn visit<'a>(&'a self, g: &mut parcode::graph::TaskGraph<'a>, p: Option<parcode::graph::ChunkId>, _: Option<parcode::graph::JobConfig>) {
            self.v.visit(g, p, Some(parcode::graph::JobConfig { compression_id: 0, is_map: true }));
        }
        fn create_job<'a>(&'a self, c: Option<parcode::graph::JobConfig>) -> Box<dyn parcode::graph::SerializationJob<'a> + 'a> { self.v.create_job(c) }
    }
} }
