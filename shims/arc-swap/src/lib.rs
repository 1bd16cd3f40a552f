//! Stand-in for arc-swap; loads and stores are preemption points.
use std::cell::UnsafeCell;
use std::ops::Deref;
use std::sync::Arc;

/// Shared pointers that can be swapped.
pub trait RefCnt: Clone {
    fn vx_ptr(&self) -> *const ();
}
impl<T> RefCnt for Arc<T> {
    fn vx_ptr(&self) -> *const () {
        Arc::as_ptr(self) as *const ()
    }
}
impl<T> RefCnt for Option<Arc<T>> {
    fn vx_ptr(&self) -> *const () {
        match self {
            Some(a) => Arc::as_ptr(a) as *const (),
            None => std::ptr::null(),
        }
    }
}
pub struct Guard<T>(T);
impl<T> Guard<T> {
    pub fn into_inner(g: Self) -> T {
        g.0
    }
    pub fn from_inner(t: T) -> Self {
        Guard(t)
    }
}
impl<T> Deref for Guard<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for Guard<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
pub struct ArcSwapAny<T>(UnsafeCell<T>);
unsafe impl<T: Send> Send for ArcSwapAny<T> {}
unsafe impl<T: Send + Sync> Sync for ArcSwapAny<T> {}
impl<T> std::panic::RefUnwindSafe for ArcSwapAny<T> {}
pub type ArcSwap<T> = ArcSwapAny<Arc<T>>;
pub type ArcSwapOption<T> = ArcSwapAny<Option<Arc<T>>>;
impl<T: RefCnt> ArcSwapAny<T> {
    pub fn new(t: T) -> Self {
        ArcSwapAny(UnsafeCell::new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
    pub fn load(&self) -> Guard<T> {
        vxrt::yield_point("arcswap.load");
        Guard(unsafe { (*self.0.get()).clone() })
    }
    pub fn load_full(&self) -> T {
        self.load().0
    }
    pub fn store(&self, t: T) {
        drop(self.swap(t))
    }
    pub fn swap(&self, t: T) -> T {
        vxrt::yield_point("arcswap.swap");
        std::mem::replace(unsafe { &mut *self.0.get() }, t)
    }
    pub fn compare_and_swap<C: Deref<Target = T>>(&self, current: C, new: T) -> Guard<T> {
        vxrt::yield_point("arcswap.cas");
        let cur = unsafe { (*self.0.get()).clone() };
        if cur.vx_ptr() == current.vx_ptr() {
            unsafe { *self.0.get() = new };
        }
        Guard(cur)
    }
    pub fn rcu<R: Into<T>, F: FnMut(&T) -> R>(&self, mut f: F) -> T {
        loop {
            let cur = self.load().0;
            let new = f(&cur).into();
            vxrt::yield_point("arcswap.rcu");
            if unsafe { (*self.0.get()).vx_ptr() } == cur.vx_ptr() {
                return std::mem::replace(unsafe { &mut *self.0.get() }, new);
            }
        }
    }
}
impl<T> ArcSwapAny<Arc<T>> {
    pub fn from_pointee(t: T) -> Self {
        Self::new(Arc::new(t))
    }
}
impl<T> ArcSwapAny<Option<Arc<T>>> {
    pub fn from_pointee<V: Into<Option<T>>>(t: V) -> Self {
        Self::new(t.into().map(Arc::new))
    }
    pub fn empty() -> Self {
        Self::new(None)
    }
}
impl<T: RefCnt> From<T> for ArcSwapAny<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: RefCnt + Default> Default for ArcSwapAny<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: RefCnt + std::fmt::Debug> std::fmt::Debug for ArcSwapAny<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unsafe { (*self.0.get()).fmt(f) }
    }
}
