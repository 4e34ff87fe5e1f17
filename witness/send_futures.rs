//! Type-level witness: every future of the public asynchronous interface is `Send` when the key, value, hasher, query
//! and closure types are.  The bounds are generic, so the compiler proves it for every instantiation at once.
#![allow(dead_code, unused_must_use, clippy::all)]
use std::hash::{BuildHasher, Hash};

fn send<T: Send>(t: T) -> T {
    t
}

mod hash_map {
    use super::*;
    use scc::hash_map::{HashMap, OccupiedEntry, ConsumableEntry};
    fn witness<K, V, H, Q, R>(
        m: &HashMap<K, V, H>,
        keys: &mut Vec<K>,
        vals: &mut Vec<V>,
        q: &Q,
        upd: impl FnOnce(&K, &mut V) -> R + Send,
        any: impl FnMut(&K, &V) -> bool + Send,
        cond: impl FnOnce(&mut V) -> bool + Send,
        read: impl FnOnce(&K, &V) -> R + Send,
        iter: impl FnMut(&K, &V) -> bool + Send,
        iter_mut: impl FnMut(ConsumableEntry<'_, K, V>) -> bool + Send,
        retain: impl FnMut(&K, &mut V) -> bool + Send,
    ) where
        K: Eq + Hash + Send + Sync,
        V: Send + Sync,
        H: BuildHasher + Send + Sync,
        Q: scc::Equivalent<K> + Hash + ?Sized + Sync,
        R: Send,
    {
        send(m.entry_async(keys.pop().unwrap()));
        send(m.begin_async());
        send(m.any_async(any));
        send(m.insert_async(keys.pop().unwrap(), vals.pop().unwrap()));
        send(m.upsert_async(keys.pop().unwrap(), vals.pop().unwrap()));
        send(m.update_async(q, upd));
        send(m.replace_async(keys.pop().unwrap()));
        send(m.remove_async(q));
        send(m.remove_if_async(q, cond));
        send(m.get_async(q));
        send(m.read_async(q, read));
        send(m.contains_async(q));
        send(m.iter_async(iter));
        send(m.iter_mut_async(iter_mut));
        send(m.retain_async(retain));
        send(m.clear_async());
    }
    fn remove_and_async<K, V, H>(e: OccupiedEntry<'_, K, V, H>)
    where
        K: Eq + Hash + Send + Sync,
        V: Send + Sync,
        H: BuildHasher + Send + Sync,
    {
        send(e.remove_and_async());
    }
    fn next_async<K, V, H>(e: OccupiedEntry<'_, K, V, H>)
    where
        K: Eq + Hash + Send + Sync,
        V: Send + Sync,
        H: BuildHasher + Send + Sync,
    {
        send(e.next_async());
    }
}

mod hash_index {
    use super::*;
    use scc::hash_index::{HashIndex, OccupiedEntry};
    fn witness<K, V, H, Q>(
        m: &HashIndex<K, V, H>,
        keys: &mut Vec<K>,
        vals: &mut Vec<V>,
        q: &Q,
        any: impl FnMut(&K, &V) -> bool + Send,
        cond: impl FnOnce(&V) -> bool + Send,
        iter: impl FnMut(&K, &V) -> bool + Send,
        retain: impl FnMut(&K, &V) -> bool + Send,
    ) where
        K: 'static + Eq + Hash + Send + Sync,
        V: 'static + Send + Sync,
        H: BuildHasher + Send + Sync,
        Q: scc::Equivalent<K> + Hash + ?Sized + Sync,
    {
        send(m.entry_async(keys.pop().unwrap()));
        send(m.begin_async());
        send(m.any_async(any));
        send(m.insert_async(keys.pop().unwrap(), vals.pop().unwrap()));
        send(m.remove_async(q));
        send(m.remove_if_async(q, cond));
        send(m.get_async(q));
        send(m.iter_async(iter));
        send(m.retain_async(retain));
        send(m.clear_async());
    }
    fn remove_and_async<K, V, H>(e: OccupiedEntry<'_, K, V, H>)
    where
        K: 'static + Eq + Hash + Send + Sync,
        V: 'static + Send + Sync,
        H: BuildHasher + Send + Sync,
    {
        send(e.remove_and_async());
    }
    fn next_async<K, V, H>(e: OccupiedEntry<'_, K, V, H>)
    where
        K: 'static + Eq + Hash + Send + Sync,
        V: 'static + Send + Sync,
        H: BuildHasher + Send + Sync,
    {
        send(e.next_async());
    }
}

mod hash_cache {
    use super::*;
    use scc::hash_cache::{ConsumableEntry, HashCache};
    fn witness<K, V, H, Q, R>(
        m: &HashCache<K, V, H>,
        keys: &mut Vec<K>,
        vals: &mut Vec<V>,
        q: &Q,
        cond: impl FnOnce(&mut V) -> bool + Send,
        read: impl FnOnce(&K, &V) -> R + Send,
        iter: impl FnMut(&K, &V) -> bool + Send,
        iter_mut: impl FnMut(ConsumableEntry<'_, K, V>) -> bool + Send,
        retain: impl FnMut(&K, &mut V) -> bool + Send,
    ) where
        K: Eq + Hash + Send + Sync,
        V: Send + Sync,
        H: BuildHasher + Send + Sync,
        Q: scc::Equivalent<K> + Hash + ?Sized + Sync,
        R: Send,
    {
        send(m.entry_async(keys.pop().unwrap()));
        send(m.put_async(keys.pop().unwrap(), vals.pop().unwrap()));
        send(m.replace_async(keys.pop().unwrap()));
        send(m.remove_async(q));
        send(m.get_async(q));
        send(m.read_async(q, read));
        send(m.contains_async(q));
        send(m.remove_if_async(q, cond));
        send(m.iter_async(iter));
        send(m.iter_mut_async(iter_mut));
        send(m.retain_async(retain));
        send(m.clear_async());
    }
}

mod hash_set {
    use super::*;
    use scc::hash_set::{ConsumableEntry, HashSet};
    fn witness<K, H, Q, R>(
        m: &HashSet<K, H>,
        keys: &mut Vec<K>,
        q: &Q,
        cond: impl FnOnce() -> bool + Send,
        read: impl FnOnce(&K) -> R + Send,
        iter: impl FnMut(&K) -> bool + Send,
        iter_mut: impl FnMut(ConsumableEntry<'_, K>) -> bool + Send,
        retain: impl FnMut(&K) -> bool + Send,
    ) where
        K: Eq + Hash + Send + Sync,
        H: BuildHasher + Send + Sync,
        Q: scc::Equivalent<K> + Hash + ?Sized + Sync,
        R: Send,
    {
        send(m.insert_async(keys.pop().unwrap()));
        send(m.replace_async(keys.pop().unwrap()));
        send(m.remove_async(q));
        send(m.remove_if_async(q, cond));
        send(m.read_async(q, read));
        send(m.contains_async(q));
        send(m.iter_async(iter));
        send(m.iter_mut_async(iter_mut));
        send(m.retain_async(retain));
        send(m.clear_async());
    }
}

mod tree_index {
    use super::*;
    use scc::tree_index::TreeIndex;
    use std::ops::RangeBounds;
    fn witness<K, V, Q>(
        m: &TreeIndex<K, V>,
        keys: &mut Vec<K>,
        vals: &mut Vec<V>,
        q: &Q,
        cond: impl FnMut(&V) -> bool + Send,
        range: impl RangeBounds<Q> + Send + Sync,
    ) where
        K: 'static + Clone + Ord + Send + Sync,
        V: 'static + Clone + Send + Sync,
        Q: scc::Comparable<K> + ?Sized + Sync,
    {
        send(m.insert_async(keys.pop().unwrap(), vals.pop().unwrap()));
        send(m.remove_async(q));
        send(m.remove_if_async(q, cond));
        send(m.remove_range_async(range));
    }
}
