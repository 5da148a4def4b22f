pub mod sync {
    use std::borrow::Borrow;
    use std::collections::HashMap;
    use std::hash::Hash;
    use std::sync::{Arc, Mutex};
    use std::time::{Duration, Instant};

    struct Slot<V> {
        v: V,
        written: Instant,
        read: Instant,
    }
    struct Inner<K, V> {
        map: Mutex<HashMap<K, Slot<V>>>,
        ttl: Option<Duration>,
        tti: Option<Duration>,
    }
    pub struct Cache<K, V>(Arc<Inner<K, V>>);
    impl<K, V> Clone for Cache<K, V> {
        fn clone(&self) -> Self {
            Cache(self.0.clone())
        }
    }
    pub struct CacheBuilder<K, V> {
        ttl: Option<Duration>,
        tti: Option<Duration>,
        p: std::marker::PhantomData<(K, V)>,
    }
    impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static> CacheBuilder<K, V> {
        pub fn initial_capacity(self, _: usize) -> Self {
            self
        }
        pub fn max_capacity(self, _: u64) -> Self {
            self
        }
        pub fn name(self, _: &str) -> Self {
            self
        }
        pub fn time_to_live(mut self, d: Duration) -> Self {
            self.ttl = Some(d);
            self
        }
        pub fn time_to_idle(mut self, d: Duration) -> Self {
            self.tti = Some(d);
            self
        }
        pub fn build(self) -> Cache<K, V> {
            Cache(Arc::new(Inner { map: Mutex::new(HashMap::new()), ttl: self.ttl, tti: self.tti }))
        }
    }
    impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static> Cache<K, V> {
        pub fn new(_max: u64) -> Self {
            Self::builder().build()
        }
        pub fn builder() -> CacheBuilder<K, V> {
            CacheBuilder { ttl: None, tti: None, p: Default::default() }
        }
        fn live(&self, s: &Slot<V>, now: Instant) -> bool {
            self.0.ttl.map_or(true, |t| now.saturating_duration_since(s.written) < t)
                && self.0.tti.map_or(true, |t| now.saturating_duration_since(s.read) < t)
        }
        pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            let _u = simrt::unbroken();
            let now = Instant::now();
            let mut dead = None;
            let out = {
                let mut m = self.0.map.lock().unwrap();
                let alive = m.get(k).map(|s| self.live(s, now));
                match alive {
                    None => None,
                    Some(false) => {
                        dead = m.remove(k);
                        None
                    }
                    Some(true) => {
                        let s = m.get_mut(k).unwrap();
                        s.read = now;
                        Some(s.v.clone())
                    }
                }
            };
            drop(dead);
            out
        }
        pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            let _u = simrt::unbroken();
            let now = Instant::now();
            let m = self.0.map.lock().unwrap();
            m.get(k).map_or(false, |s| self.live(s, now))
        }
        pub fn insert(&self, k: K, v: V) {
            let _u = simrt::unbroken();
            let now = Instant::now();
            let old = self.0.map.lock().unwrap().insert(k, Slot { v, written: now, read: now });
            drop(old);
        }
        pub fn get_with(&self, k: K, init: impl FnOnce() -> V) -> V {
            let _u = simrt::unbroken();
            if let Some(v) = self.get(&k) {
                return v;
            }
            let v = init();
            self.insert(k, v.clone());
            v
        }
        pub fn remove<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            let _u = simrt::unbroken();
            self.0.map.lock().unwrap().remove(k).map(|s| s.v)
        }
        pub fn invalidate<Q: ?Sized + Hash + Eq>(&self, k: &Q)
        where
            K: Borrow<Q>,
        {
            let _u = simrt::unbroken();
            drop(self.remove(k));
        }
        pub fn invalidate_all(&self) {
            let _u = simrt::unbroken();
            let old = std::mem::take(&mut *self.0.map.lock().unwrap());
            drop(old);
        }
        pub fn entry_count(&self) -> u64 {
            let now = Instant::now();
            self.0.map.lock().unwrap().values().filter(|s| self.live(s, now)).count() as u64
        }
        pub fn run_pending_tasks(&self) {}
    }
}
