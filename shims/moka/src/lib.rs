//! A cache which may forget anything at any time: whether it does is a choice of the environment.
#![allow(clippy::unused_async)]

pub mod notification {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RemovalCause {
        Expired,
        Explicit,
        Replaced,
        Size,
    }
}
pub mod policy {
    #[derive(Clone, Debug, Default)]
    pub struct EvictionPolicy;
    impl EvictionPolicy {
        pub fn lru() -> Self {
            Self
        }
        pub fn tiny_lfu() -> Self {
            Self
        }
    }
}

///For whoever controls the world this is in.
pub mod control {
    use std::cell::Cell;
    thread_local! {
        static EPOCH: Cell<u64> = const { Cell::new(0) };
    }
    ///Every cache of this thread loses everything it has.
    pub fn forget_all() {
        EPOCH.with(|e| e.set(e.get() + 1));
    }
    pub(crate) fn epoch() -> u64 {
        EPOCH.with(Cell::get)
    }
}

pub mod future {
    use crate::{notification::RemovalCause, policy::EvictionPolicy};
    use std::{
        borrow::Borrow,
        collections::{hash_map::RandomState, BTreeSet, HashMap},
        fmt::{Debug, Formatter},
        future::Future,
        hash::{BuildHasher, Hash},
        marker::PhantomData,
        sync::{
            atomic::{AtomicU64, Ordering::Relaxed},
            Arc, Mutex,
        },
        task::{Poll, Waker},
        time::Duration,
    };

    ///Small, and always in the same order.
    struct Map<K, V>(Vec<(Arc<K>, V)>);
    impl<K, V> Map<K, V> {
        fn find<Q>(&self, key: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
            Q: Eq + ?Sized,
        {
            self.0.iter().position(|(k, _)| (**k).borrow() == key)
        }
        fn get<Q>(&self, key: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
            Q: Eq + ?Sized,
        {
            self.find(key).map(|i| &self.0[i].1)
        }
        fn contains_key<Q>(&self, key: &Q) -> bool
        where
            K: Borrow<Q>,
            Q: Eq + ?Sized,
        {
            self.find(key).is_some()
        }
        fn remove_entry<Q>(&mut self, key: &Q) -> Option<(Arc<K>, V)>
        where
            K: Borrow<Q>,
            Q: Eq + ?Sized,
        {
            self.find(key).map(|i| self.0.remove(i))
        }
        fn insert(&mut self, key: Arc<K>, value: V) -> Option<V>
        where
            K: Eq,
        {
            match self.find(&*key) {
                Some(i) => Some(std::mem::replace(&mut self.0[i].1, value)),
                None => {
                    self.0.push((key, value));
                    None
                }
            }
        }
        fn iter(&self) -> impl Iterator<Item = (&Arc<K>, &V)> {
            self.0.iter().map(|(k, v)| (k, v))
        }
        fn len(&self) -> usize {
            self.0.len()
        }
        fn clear(&mut self) {
            self.0.clear();
        }
    }
    type Listener<K, V> = Arc<dyn Fn(Arc<K>, V, RemovalCause) + Send + Sync>;
    struct Inner<K, V> {
        map: Mutex<Map<K, V>>,
        epoch: AtomicU64,
        ///keys whose value is being computed by a `get_with`, and who waits for it
        computing: Mutex<HashMap<Arc<K>, Vec<Waker>>>,
        listener: Option<Listener<K, V>>,
        name: Option<String>,
        max: u64,
    }
    pub struct Cache<K, V, S = RandomState> {
        inner: Arc<Inner<K, V>>,
        s: PhantomData<fn() -> S>,
    }
    impl<K, V, S> Clone for Cache<K, V, S> {
        fn clone(&self) -> Self {
            Self { inner: self.inner.clone(), s: PhantomData }
        }
    }
    impl<K: Debug + Eq + Hash, V: Debug, S> Debug for Cache<K, V, S> {
        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
            f.debug_map().entries(self.inner.map.lock().unwrap().iter()).finish()
        }
    }

    pub struct CacheBuilder<K, V, C> {
        listener: Option<Listener<K, V>>,
        name: Option<String>,
        max: u64,
        c: PhantomData<fn() -> C>,
    }
    impl<K, V> Default for CacheBuilder<K, V, Cache<K, V>>
    where
        K: Hash + Eq + Send + Sync + 'static,
        V: Clone + Send + Sync + 'static,
    {
        fn default() -> Self {
            Self { listener: None, name: None, max: u64::MAX, c: PhantomData }
        }
    }
    impl<K, V> CacheBuilder<K, V, Cache<K, V>>
    where
        K: Hash + Eq + Send + Sync + 'static,
        V: Clone + Send + Sync + 'static,
    {
        #[must_use]
        pub fn new(max_capacity: u64) -> Self {
            Self { max: max_capacity, ..Self::default() }
        }
        #[must_use]
        pub fn build(self) -> Cache<K, V> {
            Cache { inner: Arc::new(Inner { map: Mutex::new(Map(vec![])), epoch: AtomicU64::new(crate::control::epoch()), computing: Mutex::default(), listener: self.listener, name: self.name, max: self.max }), s: PhantomData }
        }
        pub fn build_with_hasher<S: BuildHasher>(self, _: S) -> Cache<K, V, S> {
            Cache { inner: self.build().inner, s: PhantomData }
        }
    }
    impl<K, V, C> CacheBuilder<K, V, C> {
        #[must_use]
        pub fn name(mut self, name: &str) -> Self {
            self.name = Some(name.into());
            self
        }
        #[must_use]
        pub fn max_capacity(mut self, max: u64) -> Self {
            self.max = max;
            self
        }
        #[must_use]
        pub fn initial_capacity(self, _: usize) -> Self {
            self
        }
        #[must_use]
        pub fn eviction_policy(self, _: EvictionPolicy) -> Self {
            self
        }
        #[must_use]
        pub fn weigher(self, _: impl Fn(&K, &V) -> u32 + Send + Sync + 'static) -> Self {
            self
        }
        #[must_use]
        pub fn eviction_listener<F: Fn(Arc<K>, V, RemovalCause) + Send + Sync + 'static>(mut self, f: F) -> Self {
            self.listener = Some(Arc::new(f));
            self
        }
        #[must_use]
        pub fn time_to_live(self, _: Duration) -> Self {
            self
        }
        #[must_use]
        pub fn time_to_idle(self, _: Duration) -> Self {
            self
        }
        #[must_use]
        pub fn support_invalidation_closures(self) -> Self {
            self
        }
    }

    pub struct Entry<K, V> {
        key: Arc<K>,
        value: V,
        fresh: bool,
    }
    impl<K, V> Entry<K, V> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn value(&self) -> &V {
            &self.value
        }
        pub fn into_value(self) -> V {
            self.value
        }
        pub fn is_fresh(&self) -> bool {
            self.fresh
        }
    }
    pub struct Selector<'a, K, V, S> {
        key: K,
        cache: &'a Cache<K, V, S>,
    }
    impl<K, V, S> Selector<'_, K, V, S>
    where
        K: Hash + Eq + Send + Sync + 'static,
        V: Clone + Send + Sync + 'static,
        S: BuildHasher + Clone + Send + Sync + 'static,
    {
        pub async fn or_insert(self, value: V) -> Entry<K, V> {
            self.or_insert_with(async { value }).await
        }
        pub async fn or_insert_with(self, init: impl Future<Output = V>) -> Entry<K, V> {
            let key = Arc::new(self.key);
            match self.cache.compute::<_, std::convert::Infallible>(key.clone(), async { Ok(init.await) }).await {
                Ok((value, fresh)) => Entry { key, value, fresh },
                Err(e) => match e {},
            }
        }
    }

    ///Frees the key when the computation is over, however it ends.
    struct Computing<'a, K: Eq + Hash, V>(&'a Inner<K, V>, Arc<K>);
    impl<K: Eq + Hash, V> Drop for Computing<'_, K, V> {
        fn drop(&mut self) {
            let w = self.0.computing.lock().unwrap().remove(&self.1);
            for w in w.into_iter().flatten() {
                w.wake();
            }
        }
    }

    impl<K, V> Cache<K, V>
    where
        K: Hash + Eq + Send + Sync + 'static,
        V: Clone + Send + Sync + 'static,
    {
        #[must_use]
        pub fn new(max_capacity: u64) -> Self {
            CacheBuilder::new(max_capacity).build()
        }
        #[must_use]
        pub fn builder() -> CacheBuilder<K, V, Cache<K, V>> {
            CacheBuilder::default()
        }
    }
    impl<K, V, S> Cache<K, V, S> {
        pub fn name(&self) -> Option<&str> {
            self.inner.name.as_deref()
        }
        pub fn entry_count(&self) -> u64 {
            self.inner.map.lock().unwrap().len() as u64
        }
        pub fn weighted_size(&self) -> u64 {
            self.entry_count()
        }
    }
    impl<K, V, S> Cache<K, V, S>
    where
        K: Hash + Eq + Send + Sync + 'static,
        V: Clone + Send + Sync + 'static,
        S: BuildHasher + Clone + Send + Sync + 'static,
    {
        ///Loses everything if it was told to.
        fn refresh(&self) {
            let e = crate::control::epoch();
            if self.inner.epoch.swap(e, Relaxed) != e {
                let gone = std::mem::take(&mut self.inner.map.lock().unwrap().0);
                if let Some(l) = &self.inner.listener {
                    for (k, v) in gone {
                        l(k, v, RemovalCause::Size);
                    }
                }
            }
        }
        fn look<Q>(&self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
            Q: Hash + Eq + ?Sized,
        {
            self.refresh();
            let found = self.inner.map.lock().unwrap().get(key).cloned();
            let found = found?;
            //forgotten in the meantime?
            if let Some(c) = vsched::config() {
                if c.evictions > 0 && vsched::choose(2) == 1 {
                    if let Some(c) = vsched::config() {
                        if c.evictions != u32::MAX {
                            c.evictions -= 1;
                        }
                    }
                    vsched::note(|| "the cache forgot".into());
                    let gone = self.inner.map.lock().unwrap().remove_entry(key);
                    if let (Some(l), Some((k, v))) = (&self.inner.listener, gone) {
                        l(k, v, RemovalCause::Size);
                    }
                    return None;
                }
            }
            Some(found)
        }
        fn put(&self, key: Arc<K>, value: V) {
            self.refresh();
            if self.inner.max == 0 {
                return;
            }
            let old = self.inner.map.lock().unwrap().insert(key.clone(), value);
            if let (Some(l), Some(v)) = (&self.inner.listener, old) {
                l(key, v, RemovalCause::Replaced);
            }
        }
        pub fn contains_key<Q>(&self, key: &Q) -> bool
        where
            K: Borrow<Q>,
            Q: Hash + Eq + ?Sized,
        {
            vsched::point("cache");
            self.refresh();
            self.inner.map.lock().unwrap().contains_key(key)
        }
        pub async fn get<Q>(&self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
            Q: Hash + Eq + ?Sized,
        {
            vsched::point("cache get");
            self.look(key)
        }
        pub async fn insert(&self, key: K, value: V) {
            vsched::point("cache insert");
            self.put(Arc::new(key), value);
        }
        pub async fn remove<Q>(&self, key: &Q) -> Option<V>
        where
            K: Borrow<Q>,
            Q: Hash + Eq + ?Sized,
        {
            vsched::point("cache remove");
            self.refresh();
            let r = self.inner.map.lock().unwrap().remove_entry(key);
            if let (Some(l), Some((k, v))) = (&self.inner.listener, &r) {
                l(k.clone(), v.clone(), RemovalCause::Explicit);
            }
            r.map(|(_, v)| v)
        }
        pub async fn invalidate<Q>(&self, key: &Q)
        where
            K: Borrow<Q>,
            Q: Hash + Eq + ?Sized,
        {
            self.remove(key).await;
        }
        pub fn invalidate_all(&self) {
            vsched::point("cache invalidate all");
            self.inner.map.lock().unwrap().clear();
        }
        pub async fn run_pending_tasks(&self) {}
        pub fn iter(&self) -> std::vec::IntoIter<(Arc<K>, V)> {
            let v: Vec<_> = self.inner.map.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            v.into_iter()
        }
        pub fn entry(&self, key: K) -> Selector<'_, K, V, S> {
            Selector { key, cache: self }
        }
        async fn compute<F, E>(&self, key: Arc<K>, init: F) -> Result<(V, bool), E>
        where
            F: Future<Output = Result<V, E>>,
        {
            vsched::point("cache get with");
            loop {
                if let Some(v) = self.look(&*key) {
                    return Ok((v, false));
                }
                let mut mine = false;
                std::future::poll_fn(|cx| {
                    let mut c = self.inner.computing.lock().unwrap();
                    if let Some(w) = c.get_mut(&key) {
                        w.push(cx.waker().clone());
                        Poll::Pending
                    } else {
                        c.insert(key.clone(), vec![]);
                        mine = true;
                        Poll::Ready(())
                    }
                })
                .await;
                debug_assert!(mine);
                let free = Computing(&self.inner, key.clone());
                //someone else could have been faster
                let there = self.inner.map.lock().unwrap().get(&key).cloned();
                if let Some(v) = there {
                    drop(free);
                    return Ok((v, false));
                }
                let v = init.await?;
                vsched::point("cache insert");
                self.put(key.clone(), v.clone());
                drop(free);
                return Ok((v, true));
            }
        }
        pub async fn get_with(&self, key: K, init: impl Future<Output = V>) -> V {
            match self.compute::<_, std::convert::Infallible>(Arc::new(key), async { Ok(init.await) }).await {
                Ok((v, _)) => v,
                Err(e) => match e {},
            }
        }
        pub async fn get_with_by_ref<Q>(&self, key: &Q, init: impl Future<Output = V>) -> V
        where
            K: Borrow<Q>,
            Q: ToOwned<Owned = K> + Hash + Eq + ?Sized,
        {
            self.get_with(key.to_owned(), init).await
        }
        pub async fn optionally_get_with<F: Future<Output = Option<V>>>(&self, key: K, init: F) -> Option<V> {
            self.compute(Arc::new(key), async { init.await.ok_or(()) }).await.ok().map(|(v, _)| v)
        }
        pub async fn optionally_get_with_by_ref<F: Future<Output = Option<V>>, Q>(&self, key: &Q, init: F) -> Option<V>
        where
            K: Borrow<Q>,
            Q: ToOwned<Owned = K> + Hash + Eq + ?Sized,
        {
            self.optionally_get_with(key.to_owned(), init).await
        }
        pub async fn try_get_with<F, E>(&self, key: K, init: F) -> Result<V, Arc<E>>
        where
            F: Future<Output = Result<V, E>>,
            E: Send + Sync + 'static,
        {
            self.compute(Arc::new(key), init).await.map(|(v, _)| v).map_err(Arc::new)
        }
        pub async fn try_get_with_by_ref<F, E, Q>(&self, key: &Q, init: F) -> Result<V, Arc<E>>
        where
            F: Future<Output = Result<V, E>>,
            E: Send + Sync + 'static,
            K: Borrow<Q>,
            Q: ToOwned<Owned = K> + Hash + Eq + ?Sized,
        {
            self.try_get_with(key.to_owned(), init).await
        }
    }
    ///so that nothing of the above is unused
    pub type Keys<K> = BTreeSet<K>;
}
