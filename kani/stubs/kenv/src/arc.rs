//! `Arc` that is never freed: the count is not modelled, so dropping one never
//! runs the destructor of what is shared.
use std::marker::{PhantomData, Unsize};
use std::ops::{CoerceUnsized, Deref};
use std::ptr::NonNull;

pub struct Arc<T: ?Sized>(NonNull<T>, PhantomData<T>);
unsafe impl<T: ?Sized> Send for Arc<T> {}
unsafe impl<T: ?Sized> Sync for Arc<T> {}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T> Arc<T> {
    pub fn new(t: T) -> Self {
        Arc(NonNull::from(Box::leak(Box::new(t))), PhantomData)
    }
}
impl<T: ?Sized> Arc<T> {
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        std::ptr::addr_eq(a.0.as_ptr(), b.0.as_ptr())
    }
    pub fn as_ptr(a: &Self) -> *const T {
        a.0.as_ptr()
    }
    pub fn downgrade(a: &Self) -> Weak<T> {
        Weak(Some(a.clone()))
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    #[inline]
    fn clone(&self) -> Self {
        Arc(self.0, PhantomData)
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    #[inline]
    fn deref(&self) -> &T {
        unsafe { self.0.as_ref() }
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        self
    }
}
impl<T> From<T> for Arc<T> {
    fn from(t: T) -> Self {
        Arc::new(t)
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}
pub struct Weak<T: ?Sized>(Option<Arc<T>>);
impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        self.0.clone()
    }
}
impl<T> Weak<T> {
    pub fn new() -> Self {
        Weak(None)
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        Weak(self.0.clone())
    }
}
