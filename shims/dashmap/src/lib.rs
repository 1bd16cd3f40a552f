//! Stand-in for dashmap: same API and locking discipline (a guard locks its key's shard), linear storage.
//!
//! Locking model: two threads conflict when they touch the same key and one writes; a thread that touches a map it
//! already holds a guard of, one of the two being a write, would deadlock whenever the keys share a shard, which is
//! reported. Every operation is a preemption point.
use std::borrow::Borrow;
use std::cell::{Cell, UnsafeCell};
use std::collections::hash_map::RandomState;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

struct Slot<K, V> {
    k: UnsafeCell<K>,
    v: UnsafeCell<Option<V>>,
    live: Cell<bool>,
}
impl<K, V> Slot<K, V> {
    fn key(&self) -> &K {
        unsafe { &*self.k.get() }
    }
    fn val(&self) -> &V {
        unsafe { (*self.v.get()).as_ref().unwrap() }
    }
    #[allow(clippy::mut_from_ref)]
    fn val_mut(&self) -> &mut V {
        unsafe { (*self.v.get()).as_mut().unwrap() }
    }
    #[allow(clippy::mut_from_ref)]
    fn opt(&self) -> &mut Option<V> {
        unsafe { &mut *self.v.get() }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum On {
    /// one key, present
    Slot(usize),
    /// a key that is absent (where the vacant entry keeps it)
    Absent(usize),
    /// an iteration in progress
    Iter,
}
#[derive(Clone, Copy)]
struct Lock {
    id: u32,
    on: On,
    write: bool,
    owner: u32,
}
struct Locks {
    v: UnsafeCell<Vec<Lock>>,
    next: Cell<u32>,
    /// whether different keys share a shard, decided when it first matters
    share: Cell<Option<bool>>,
}
impl Locks {
    /// Waits while a lock that `same` finds, or one of another key if the keys share a shard, is held; returns whether it
    /// did not have to.
    fn wait(&self, same: Option<On>, write: bool) -> bool {
        let locks: &'static Locks = unsafe { &*(self as *const Locks) };
        if let Some(on) = same {
            let free = move || !locks.v().iter().any(|l| l.on == on && (l.write || write));
            if !free() {
                vxrt::block_until("deadlock: the main thread waits for a map lock", Box::new(free));
                return false;
            }
        }
        let me = vxrt::current_thread();
        let apart = move || !locks.v().iter().any(|l| l.on != On::Iter && Some(l.on) != same && l.owner != me && (l.write || write));
        if !apart() && self.shared() {
            vxrt::block_until("deadlock: the main thread waits for a map lock", Box::new(apart));
            return false;
        }
        true
    }
    fn shared(&self) -> bool {
        match self.share.get() {
            Some(b) => b,
            None => {
                let b = vxrt::choice(2, "map.shard") == 1;
                self.share.set(Some(b));
                b
            }
        }
    }
    fn v(&self) -> &mut Vec<Lock> {
        unsafe { &mut *self.v.get() }
    }
    fn add(&self, on: On, write: bool) -> u32 {
        let id = self.next.get() + 1;
        self.next.set(id);
        self.v().push(Lock { id, on, write, owner: vxrt::current_thread() });
        id
    }
    fn del(&self, id: u32) {
        let v = self.v();
        if let Some(i) = v.iter().position(|l| l.id == id) {
            v.swap_remove(i);
        }
    }
}
/// A held lock.
struct Held<'a> {
    l: &'a Locks,
    id: u32,
}
impl Drop for Held<'_> {
    fn drop(&mut self) {
        self.l.del(self.id);
    }
}

pub struct DashMap<K, V, S = RandomState> {
    slots: UnsafeCell<Vec<Rc<Slot<K, V>>>>,
    locks: Locks,
    hasher: S,
}
unsafe impl<K: Send, V: Send, S: Send> Send for DashMap<K, V, S> {}
unsafe impl<K: Send + Sync, V: Send + Sync, S: Sync> Sync for DashMap<K, V, S> {}
impl<K, V, S> std::panic::RefUnwindSafe for DashMap<K, V, S> {}
impl<K, V, S> std::panic::UnwindSafe for DashMap<K, V, S> {}

/// A cheap hash, only to notice keys that are equal but hash differently.
struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u8(*x);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = self.0.rotate_left(7) ^ i;
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
fn sum<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = Sum(0);
    t.hash(&mut s);
    s.finish()
}

impl<K: Eq + Hash, V> DashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::with_hasher(Default::default())
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn with_shard_amount(_: usize) -> Self {
        Self::new()
    }
    pub fn with_capacity_and_shard_amount(_: usize, _: usize) -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone> DashMap<K, V, S> {
    pub fn with_hasher(hasher: S) -> Self {
        DashMap { slots: UnsafeCell::new(Vec::new()), locks: Locks { v: UnsafeCell::new(Vec::new()), next: Cell::new(0), share: Cell::new(None) }, hasher }
    }
    pub fn with_capacity_and_hasher(_: usize, hasher: S) -> Self {
        Self::with_hasher(hasher)
    }
    pub fn with_hasher_and_shard_amount(hasher: S, _: usize) -> Self {
        Self::with_hasher(hasher)
    }
    pub fn with_capacity_and_hasher_and_shard_amount(_: usize, hasher: S, _: usize) -> Self {
        Self::with_hasher(hasher)
    }
    pub fn hasher(&self) -> &S {
        &self.hasher
    }
    #[allow(clippy::mut_from_ref)]
    fn s(&self) -> &mut Vec<Rc<Slot<K, V>>> {
        unsafe { &mut *self.slots.get() }
    }
    fn find<Q>(&self, key: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        let s = self.s();
        for (i, x) in s.iter().enumerate() {
            if x.key().borrow() == key && sum(x.key().borrow()) == sum(key) {
                return Some(i);
            }
        }
        None
    }
    fn own_conflict(&self, write: bool) {
        let me = vxrt::current_thread();
        for l in self.locks.v().iter() {
            if l.owner == me && (l.write || write) {
                vxrt::fail("deadlock: a map is used again while the same thread holds one of its guards");
            }
        }
    }
    /// Waits until `key` can be locked; returns its position.
    fn acquire<Q>(&self, key: &Q, write: bool) -> Option<usize>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        loop {
            self.own_conflict(write);
            let i = self.find(key);
            if self.locks.wait(self.held(i, key), write) {
                return i;
            }
        }
    }
    /// What a lock on `key`, which is at `i`, is a lock on.
    fn held<Q>(&self, i: Option<usize>, key: &Q) -> Option<On>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        match i {
            Some(i) => Some(On::Slot(Rc::as_ptr(&self.s()[i]) as usize)),
            None => self.locks.v().iter().map(|l| l.on).find(|on| match on {
                On::Absent(p) => unsafe { &*(*p as *const K) }.borrow() == key,
                _ => false,
            }),
        }
    }
    fn hold(&self, i: usize, write: bool) -> (Rc<Slot<K, V>>, Held<'_>) {
        let s = self.s()[i].clone();
        let id = self.locks.add(On::Slot(Rc::as_ptr(&s) as usize), write);
        (s, Held { l: &self.locks, id })
    }
    fn push(&self, k: K, v: V) -> usize {
        self.s().push(Rc::new(Slot { k: UnsafeCell::new(k), v: UnsafeCell::new(Some(v)), live: Cell::new(true) }));
        self.s().len() - 1
    }
    fn take(&self, i: usize) -> (K, V) {
        let s = self.s().remove(i);
        s.live.set(false);
        let v = s.opt().take().unwrap();
        match Rc::try_unwrap(s) {
            Ok(s) => (s.k.into_inner(), v),
            Err(s) => {
                // an iterator still looks at it: take the key out bitwise and leave the husk behind
                let k = unsafe { std::ptr::read(s.k.get()) };
                std::mem::forget(s);
                (k, v)
            }
        }
    }

    pub fn insert(&self, key: K, value: V) -> Option<V> {
        vxrt::yield_point("map.insert");
        match self.acquire(&key, true) {
            Some(i) => self.s()[i].opt().replace(value),
            None => {
                self.push(key, value);
                None
            }
        }
    }
    pub fn remove<Q>(&self, key: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        vxrt::yield_point("map.remove");
        self.acquire(key, true).map(|i| self.take(i))
    }
    pub fn remove_if<Q>(&self, key: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.remove_if_mut(key, |k, v| f(k, v))
    }
    pub fn remove_if_mut<Q>(&self, key: &Q, f: impl FnOnce(&K, &mut V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        vxrt::yield_point("map.remove_if");
        let i = self.acquire(key, true)?;
        let (s, h) = self.hold(i, true);
        let yes = f(s.key(), s.val_mut());
        drop(h);
        if !yes {
            return None;
        }
        let p = self.s().iter().position(|x| Rc::ptr_eq(x, &s)).unwrap();
        drop(s);
        Some(self.take(p))
    }
    pub fn get<'a, Q>(&'a self, key: &Q) -> Option<mapref::one::Ref<'a, K, V>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        vxrt::yield_point("map.get");
        let i = self.acquire(key, false)?;
        let (s, h) = self.hold(i, false);
        Some(mapref::one::Ref { s, h })
    }
    pub fn get_mut<'a, Q>(&'a self, key: &Q) -> Option<mapref::one::RefMut<'a, K, V>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        vxrt::yield_point("map.get_mut");
        let i = self.acquire(key, true)?;
        let (s, h) = self.hold(i, true);
        Some(mapref::one::RefMut { s, h })
    }
    fn locked_now<Q>(&self, key: &Q, write: bool) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        let Some(on) = self.held(self.find(key), key) else { return false };
        self.locks.v().iter().any(|l| l.on == on && (l.write || write))
    }
    pub fn try_get<'a, Q>(&'a self, key: &Q) -> try_result::TryResult<mapref::one::Ref<'a, K, V>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        vxrt::yield_point("map.try_get");
        if self.locked_now(key, false) {
            return try_result::TryResult::Locked;
        }
        match self.find(key) {
            Some(i) => {
                let (s, h) = self.hold(i, false);
                try_result::TryResult::Present(mapref::one::Ref { s, h })
            }
            None => try_result::TryResult::Absent,
        }
    }
    pub fn try_get_mut<'a, Q>(&'a self, key: &Q) -> try_result::TryResult<mapref::one::RefMut<'a, K, V>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        vxrt::yield_point("map.try_get_mut");
        if self.locked_now(key, true) {
            return try_result::TryResult::Locked;
        }
        match self.find(key) {
            Some(i) => {
                let (s, h) = self.hold(i, true);
                try_result::TryResult::Present(mapref::one::RefMut { s, h })
            }
            None => try_result::TryResult::Absent,
        }
    }
    pub fn view<Q, R>(&self, key: &Q, f: impl FnOnce(&K, &V) -> R) -> Option<R>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.get(key).map(|r| f(r.key(), r.value()))
    }
    pub fn contains_key<Q>(&self, key: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.get(key).is_some()
    }
    pub fn alter<Q>(&self, key: &Q, f: impl FnOnce(&K, V) -> V)
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        vxrt::yield_point("map.alter");
        if let Some(i) = self.acquire(key, true) {
            let (s, h) = self.hold(i, true);
            self.alter_slot(&s, f);
            drop(h);
        }
    }
    fn alter_slot(&self, s: &Rc<Slot<K, V>>, f: impl FnOnce(&K, V) -> V) {
        struct Abort;
        impl Drop for Abort {
            fn drop(&mut self) {
                // as the real map does
                vxrt::fail("abort: panic inside of a map update closure aborts the whole program");
            }
        }
        let v = s.opt().take().unwrap();
        let a = Abort;
        let n = f(s.key(), v);
        std::mem::forget(a);
        *s.opt() = Some(n);
    }
    pub fn alter_all(&self, mut f: impl FnMut(&K, V) -> V) {
        vxrt::yield_point("map.alter_all");
        self.own_conflict(true);
        let all: Vec<_> = self.s().iter().cloned().collect();
        for s in all {
            if s.live.get() {
                let id = self.locks.add(On::Slot(Rc::as_ptr(&s) as usize), true);
                let h = Held { l: &self.locks, id };
                self.alter_slot(&s, &mut f);
                drop(h);
            }
        }
    }
    fn order(&self) -> Vec<Rc<Slot<K, V>>> {
        let mut all: Vec<_> = self.s().iter().cloned().collect();
        if all.len() > 1 && vxrt::x().iter_orders && vxrt::choice(2, "map.order") == 1 {
            all.reverse();
        }
        all
    }
    fn wait_slot(&self, p: usize, write: bool) {
        while !self.locks.wait(Some(On::Slot(p)), write) {}
    }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        vxrt::yield_point("map.retain");
        self.own_conflict(true);
        let it = Held { l: &self.locks, id: self.locks.add(On::Iter, true) };
        for s in self.order() {
            let p = Rc::as_ptr(&s) as usize;
            self.wait_slot(p, true);
            if !s.live.get() {
                std::mem::forget(s);
                continue;
            }
            let h = Held { l: &self.locks, id: self.locks.add(On::Slot(p), true) };
            let keep = f(s.key(), s.val_mut());
            drop(h);
            if !keep {
                let i = self.s().iter().position(|x| Rc::ptr_eq(x, &s)).unwrap();
                drop(s);
                let kv = self.take(i);
                drop(kv);
            }
        }
        drop(it);
    }
    pub fn clear(&self) {
        self.retain(|_, _| false)
    }
    pub fn len(&self) -> usize {
        vxrt::yield_point("map.len");
        self.own_conflict(false);
        self.s().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn capacity(&self) -> usize {
        self.s().capacity()
    }
    pub fn shrink_to_fit(&self) {}
    pub fn entry(&self, key: K) -> mapref::entry::Entry<'_, K, V, S> {
        vxrt::yield_point("map.entry");
        match self.acquire(&key, true) {
            Some(i) => {
                let (s, h) = self.hold(i, true);
                mapref::entry::Entry::Occupied(mapref::entry::OccupiedEntry { m: self, s, h, key })
            }
            None => {
                let key = Box::new(key);
                let h = Held { l: &self.locks, id: self.locks.add(On::Absent(&*key as *const K as usize), true) };
                mapref::entry::Entry::Vacant(mapref::entry::VacantEntry { m: self, h, key })
            }
        }
    }
    pub fn try_entry(&self, key: K) -> Option<mapref::entry::Entry<'_, K, V, S>> {
        if self.locked_now(&key, true) {
            return None;
        }
        Some(self.entry(key))
    }
    pub fn iter(&self) -> iter::Iter<'_, K, V, S> {
        vxrt::yield_point("map.iter");
        self.own_conflict(false);
        let h = Held { l: &self.locks, id: self.locks.add(On::Iter, false) };
        iter::Iter { m: self, todo: self.order().into_iter(), _h: h }
    }
    pub fn iter_mut(&self) -> iter::IterMut<'_, K, V, S> {
        vxrt::yield_point("map.iter_mut");
        self.own_conflict(true);
        let h = Held { l: &self.locks, id: self.locks.add(On::Iter, true) };
        iter::IterMut { m: self, todo: self.order().into_iter(), _h: h }
    }
}
impl<K: Eq + Hash, V, S: Default + BuildHasher + Clone> Default for DashMap<K, V, S> {
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}
impl<K: Eq + Hash + Clone, V: Clone, S: BuildHasher + Clone> Clone for DashMap<K, V, S> {
    fn clone(&self) -> Self {
        let m = Self::with_hasher(self.hasher.clone());
        for s in self.s().iter() {
            m.push(s.key().clone(), s.val().clone());
        }
        m
    }
}
impl<K: Eq + Hash + fmt::Debug, V: fmt::Debug, S: BuildHasher + Clone> fmt::Debug for DashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.s().iter().map(|s| (s.key(), s.val()))).finish()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone + Default> FromIterator<(K, V)> for DashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let m = Self::with_hasher(S::default());
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone> Extend<(K, V)> for DashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for DashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        let mut v = vec![];
        while !self.s().is_empty() {
            v.push(self.take(0));
        }
        v.into_iter()
    }
}
impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for &'a DashMap<K, V, S> {
    type Item = mapref::multiple::RefMulti<'a, K, V>;
    type IntoIter = iter::Iter<'a, K, V, S>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

pub mod try_result {
    pub enum TryResult<R> {
        Present(R),
        Absent,
        Locked,
    }
    impl<R> TryResult<R> {
        pub fn is_present(&self) -> bool {
            matches!(self, TryResult::Present(_))
        }
        pub fn is_absent(&self) -> bool {
            matches!(self, TryResult::Absent)
        }
        pub fn is_locked(&self) -> bool {
            matches!(self, TryResult::Locked)
        }
        pub fn unwrap(self) -> R {
            match self {
                TryResult::Present(r) => r,
                _ => panic!("called unwrap on a TryResult that is not Present"),
            }
        }
        pub fn try_unwrap(self) -> Option<R> {
            match self {
                TryResult::Present(r) => Some(r),
                _ => None,
            }
        }
    }
}

pub mod iter {
    use super::*;
    pub struct Iter<'a, K, V, S = RandomState> {
        pub(super) m: &'a DashMap<K, V, S>,
        pub(super) todo: std::vec::IntoIter<Rc<Slot<K, V>>>,
        pub(super) _h: Held<'a>,
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> Iterator for Iter<'a, K, V, S> {
        type Item = mapref::multiple::RefMulti<'a, K, V>;
        fn next(&mut self) -> Option<Self::Item> {
            loop {
                let s = self.todo.next()?;
                let p = Rc::as_ptr(&s) as usize;
                self.m.wait_slot(p, false);
                if !s.live.get() {
                    std::mem::forget(s);
                    continue;
                }
                let h = Held { l: &self.m.locks, id: self.m.locks.add(On::Slot(p), false) };
                return Some(mapref::multiple::RefMulti { s, _h: h });
            }
        }
    }
    pub struct IterMut<'a, K, V, S = RandomState> {
        pub(super) m: &'a DashMap<K, V, S>,
        pub(super) todo: std::vec::IntoIter<Rc<Slot<K, V>>>,
        pub(super) _h: Held<'a>,
    }
    impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> Iterator for IterMut<'a, K, V, S> {
        type Item = mapref::multiple::RefMutMulti<'a, K, V>;
        fn next(&mut self) -> Option<Self::Item> {
            loop {
                let s = self.todo.next()?;
                let p = Rc::as_ptr(&s) as usize;
                self.m.wait_slot(p, true);
                if !s.live.get() {
                    std::mem::forget(s);
                    continue;
                }
                let h = Held { l: &self.m.locks, id: self.m.locks.add(On::Slot(p), true) };
                return Some(mapref::multiple::RefMutMulti { s, _h: h });
            }
        }
    }
}

pub mod mapref {
    use super::*;
    pub mod one {
        use super::*;
        pub struct Ref<'a, K, V> {
            pub(crate) s: Rc<Slot<K, V>>,
            pub(crate) h: Held<'a>,
        }
        unsafe impl<K: Sync, V: Sync> Send for Ref<'_, K, V> {}
        unsafe impl<K: Sync, V: Sync> Sync for Ref<'_, K, V> {}
        impl<'a, K, V> Ref<'a, K, V> {
            pub fn key(&self) -> &K {
                self.s.key()
            }
            pub fn value(&self) -> &V {
                self.s.val()
            }
            pub fn pair(&self) -> (&K, &V) {
                (self.s.key(), self.s.val())
            }
            pub fn map<F, T>(self, f: F) -> MappedRef<'a, K, V, T>
            where
                F: FnOnce(&V) -> &T,
            {
                let v = f(self.s.val()) as *const T;
                MappedRef { s: self.s, _h: self.h, v }
            }
        }
        impl<K, V> Deref for Ref<'_, K, V> {
            type Target = V;
            fn deref(&self) -> &V {
                self.s.val()
            }
        }
        impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Ref<'_, K, V> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct("Ref").field("k", self.key()).field("v", self.value()).finish()
            }
        }
        pub struct MappedRef<'a, K, V, T> {
            s: Rc<Slot<K, V>>,
            _h: Held<'a>,
            v: *const T,
        }
        impl<K, V, T> MappedRef<'_, K, V, T> {
            pub fn key(&self) -> &K {
                self.s.key()
            }
            pub fn value(&self) -> &T {
                unsafe { &*self.v }
            }
        }
        impl<K, V, T> Deref for MappedRef<'_, K, V, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.value()
            }
        }
        pub struct RefMut<'a, K, V> {
            pub(crate) s: Rc<Slot<K, V>>,
            pub(crate) h: Held<'a>,
        }
        unsafe impl<K: Sync, V: Sync> Send for RefMut<'_, K, V> {}
        unsafe impl<K: Sync, V: Sync> Sync for RefMut<'_, K, V> {}
        impl<'a, K, V> RefMut<'a, K, V> {
            pub fn key(&self) -> &K {
                self.s.key()
            }
            pub fn value(&self) -> &V {
                self.s.val()
            }
            pub fn value_mut(&mut self) -> &mut V {
                self.s.val_mut()
            }
            pub fn pair(&self) -> (&K, &V) {
                (self.s.key(), self.s.val())
            }
            pub fn pair_mut(&mut self) -> (&K, &mut V) {
                (self.s.key(), self.s.val_mut())
            }
            pub fn downgrade(self) -> Ref<'a, K, V> {
                for l in self.h.l.v().iter_mut() {
                    if l.id == self.h.id {
                        l.write = false;
                    }
                }
                Ref { s: self.s, h: self.h }
            }
        }
        impl<K, V> Deref for RefMut<'_, K, V> {
            type Target = V;
            fn deref(&self) -> &V {
                self.s.val()
            }
        }
        impl<K, V> DerefMut for RefMut<'_, K, V> {
            fn deref_mut(&mut self) -> &mut V {
                self.s.val_mut()
            }
        }
        impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for RefMut<'_, K, V> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct("RefMut").field("k", self.key()).field("v", self.value()).finish()
            }
        }
    }
    pub mod multiple {
        use super::*;
        pub struct RefMulti<'a, K, V> {
            pub(crate) s: Rc<Slot<K, V>>,
            pub(crate) _h: Held<'a>,
        }
        unsafe impl<K: Sync, V: Sync> Send for RefMulti<'_, K, V> {}
        unsafe impl<K: Sync, V: Sync> Sync for RefMulti<'_, K, V> {}
        impl<K, V> RefMulti<'_, K, V> {
            pub fn key(&self) -> &K {
                self.s.key()
            }
            pub fn value(&self) -> &V {
                self.s.val()
            }
            pub fn pair(&self) -> (&K, &V) {
                (self.s.key(), self.s.val())
            }
        }
        impl<K, V> Deref for RefMulti<'_, K, V> {
            type Target = V;
            fn deref(&self) -> &V {
                self.s.val()
            }
        }
        pub struct RefMutMulti<'a, K, V> {
            pub(crate) s: Rc<Slot<K, V>>,
            pub(crate) _h: Held<'a>,
        }
        unsafe impl<K: Sync, V: Sync> Send for RefMutMulti<'_, K, V> {}
        unsafe impl<K: Sync, V: Sync> Sync for RefMutMulti<'_, K, V> {}
        impl<K, V> RefMutMulti<'_, K, V> {
            pub fn key(&self) -> &K {
                self.s.key()
            }
            pub fn value(&self) -> &V {
                self.s.val()
            }
            pub fn value_mut(&mut self) -> &mut V {
                self.s.val_mut()
            }
            pub fn pair(&self) -> (&K, &V) {
                (self.s.key(), self.s.val())
            }
            pub fn pair_mut(&mut self) -> (&K, &mut V) {
                (self.s.key(), self.s.val_mut())
            }
        }
        impl<K, V> Deref for RefMutMulti<'_, K, V> {
            type Target = V;
            fn deref(&self) -> &V {
                self.s.val()
            }
        }
        impl<K, V> DerefMut for RefMutMulti<'_, K, V> {
            fn deref_mut(&mut self) -> &mut V {
                self.s.val_mut()
            }
        }
    }
    pub mod entry {
        use super::*;
        use one::RefMut;
        pub enum Entry<'a, K, V, S = RandomState> {
            Occupied(OccupiedEntry<'a, K, V, S>),
            Vacant(VacantEntry<'a, K, V, S>),
        }
        impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> Entry<'a, K, V, S> {
            pub fn and_modify(self, f: impl FnOnce(&mut V)) -> Self {
                match self {
                    Entry::Occupied(mut e) => {
                        f(e.get_mut());
                        Entry::Occupied(e)
                    }
                    e => e,
                }
            }
            pub fn key(&self) -> &K {
                match self {
                    Entry::Occupied(e) => e.key(),
                    Entry::Vacant(e) => e.key(),
                }
            }
            pub fn into_key(self) -> K {
                match self {
                    Entry::Occupied(e) => e.key,
                    Entry::Vacant(e) => *e.key,
                }
            }
            pub fn or_default(self) -> RefMut<'a, K, V>
            where
                V: Default,
            {
                self.or_insert_with(V::default)
            }
            pub fn or_insert(self, value: V) -> RefMut<'a, K, V> {
                self.or_insert_with(|| value)
            }
            pub fn or_insert_with(self, value: impl FnOnce() -> V) -> RefMut<'a, K, V> {
                match self {
                    Entry::Occupied(e) => e.into_ref(),
                    Entry::Vacant(e) => e.insert(value()),
                }
            }
            pub fn or_try_insert_with<E>(self, value: impl FnOnce() -> Result<V, E>) -> Result<RefMut<'a, K, V>, E> {
                match self {
                    Entry::Occupied(e) => Ok(e.into_ref()),
                    Entry::Vacant(e) => Ok(e.insert(value()?)),
                }
            }
            pub fn insert(self, value: V) -> RefMut<'a, K, V> {
                match self {
                    Entry::Occupied(mut e) => {
                        e.insert(value);
                        e.into_ref()
                    }
                    Entry::Vacant(e) => e.insert(value),
                }
            }
            pub fn insert_entry(self, value: V) -> OccupiedEntry<'a, K, V, S>
            where
                K: Clone,
            {
                match self {
                    Entry::Occupied(mut e) => {
                        e.insert(value);
                        e
                    }
                    Entry::Vacant(e) => e.insert_entry(value),
                }
            }
        }
        pub struct VacantEntry<'a, K, V, S = RandomState> {
            pub(crate) m: &'a DashMap<K, V, S>,
            pub(crate) h: Held<'a>,
            pub(crate) key: Box<K>,
        }
        impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> VacantEntry<'a, K, V, S> {
            pub fn insert(self, value: V) -> RefMut<'a, K, V> {
                let i = self.m.push(*self.key, value);
                drop(self.h);
                let (s, h) = self.m.hold(i, true);
                RefMut { s, h }
            }
            pub fn insert_entry(self, value: V) -> OccupiedEntry<'a, K, V, S>
            where
                K: Clone,
            {
                let key = (*self.key).clone();
                let m = self.m;
                let r = self.insert(value);
                OccupiedEntry { m, s: r.s, h: r.h, key }
            }
            pub fn into_key(self) -> K {
                *self.key
            }
            pub fn key(&self) -> &K {
                &self.key
            }
        }
        pub struct OccupiedEntry<'a, K, V, S = RandomState> {
            pub(crate) m: &'a DashMap<K, V, S>,
            pub(crate) s: Rc<Slot<K, V>>,
            pub(crate) h: Held<'a>,
            pub(crate) key: K,
        }
        impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> OccupiedEntry<'a, K, V, S> {
            pub fn get(&self) -> &V {
                self.s.val()
            }
            pub fn get_mut(&mut self) -> &mut V {
                self.s.val_mut()
            }
            pub fn insert(&mut self, value: V) -> V {
                std::mem::replace(self.s.val_mut(), value)
            }
            pub fn into_ref(self) -> RefMut<'a, K, V> {
                RefMut { s: self.s, h: self.h }
            }
            pub fn into_key(self) -> K {
                self.key
            }
            pub fn key(&self) -> &K {
                self.s.key()
            }
            pub fn remove(self) -> V {
                self.remove_entry().1
            }
            pub fn remove_entry(self) -> (K, V) {
                let i = self.m.s().iter().position(|x| Rc::ptr_eq(x, &self.s)).unwrap();
                drop(self.s);
                let r = self.m.take(i);
                drop(self.h);
                r
            }
            pub fn replace_entry(self, value: V) -> (K, V) {
                let i = self.m.s().iter().position(|x| Rc::ptr_eq(x, &self.s)).unwrap();
                drop(self.s);
                let r = self.m.take(i);
                self.m.push(self.key, value);
                drop(self.h);
                r
            }
        }
    }
}
pub use mapref::entry::{Entry, OccupiedEntry, VacantEntry};

/// A set on top of the map.
pub struct DashSet<K, S = RandomState>(DashMap<K, (), S>);
impl<K: Eq + Hash> DashSet<K, RandomState> {
    pub fn new() -> Self {
        DashSet(DashMap::new())
    }
}
impl<K: Eq + Hash> Default for DashSet<K, RandomState> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash, S: BuildHasher + Clone> DashSet<K, S> {
    pub fn insert(&self, k: K) -> bool {
        self.0.insert(k, ()).is_none()
    }
    pub fn contains<Q>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.0.contains_key(k)
    }
    pub fn remove<Q>(&self, k: &Q) -> Option<K>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        self.0.remove(k).map(|x| x.0)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&self) {
        self.0.clear()
    }
    pub fn retain(&self, mut f: impl FnMut(&K) -> bool) {
        self.0.retain(|k, _| f(k))
    }
}
