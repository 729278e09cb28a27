//! Reference counts, where looking at or changing a count is a point of its own.
use crate::point;
use ::std::{
    borrow::Borrow,
    cmp::Ordering,
    fmt,
    hash::{Hash, Hasher},
    ops::Deref,
    sync as real,
};

pub struct Arc<T: ?Sized>(Option<real::Arc<T>>);
pub struct Weak<T: ?Sized>(real::Weak<T>);

impl<T> Arc<T> {
    pub fn new(t: T) -> Self {
        Arc(Some(real::Arc::new(t)))
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Self {
        Arc(Some(real::Arc::new_cyclic(|w| f(&Weak(w.clone())))))
    }
    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
        point();
        real::Arc::try_unwrap(this.0.take().unwrap()).map_err(|a| Arc(Some(a)))
    }
    pub fn into_inner(mut this: Self) -> Option<T> {
        point();
        real::Arc::into_inner(this.0.take().unwrap())
    }
    pub fn unwrap_or_clone(this: Self) -> T
    where
        T: Clone,
    {
        Self::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
    }
}

impl<T: ?Sized> Arc<T> {
    fn real(&self) -> &real::Arc<T> {
        self.0.as_ref().unwrap()
    }
    pub fn strong_count(this: &Self) -> usize {
        point();
        real::Arc::strong_count(this.real())
    }
    pub fn weak_count(this: &Self) -> usize {
        point();
        real::Arc::weak_count(this.real())
    }
    pub fn downgrade(this: &Self) -> Weak<T> {
        point();
        Weak(real::Arc::downgrade(this.real()))
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        real::Arc::ptr_eq(a.real(), b.real())
    }
    pub fn as_ptr(this: &Self) -> *const T {
        real::Arc::as_ptr(this.real())
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        point();
        real::Arc::get_mut(this.0.as_mut().unwrap())
    }
}

impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Self) -> &mut T {
        point();
        real::Arc::make_mut(this.0.as_mut().unwrap())
    }
}

impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        if self.0.is_some() {
            point();
        }
    }
}

impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        point();
        Arc(self.0.clone())
    }
}

impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.real()
    }
}

impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        self.real()
    }
}

impl<T: ?Sized> Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        self.real()
    }
}

impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}

impl<T> From<T> for Arc<T> {
    fn from(t: T) -> Self {
        Arc::new(t)
    }
}

impl<T: ?Sized> From<Box<T>> for Arc<T> {
    fn from(t: Box<T>) -> Self {
        Arc(Some(t.into()))
    }
}

impl<T> From<Vec<T>> for Arc<[T]> {
    fn from(t: Vec<T>) -> Self {
        Arc(Some(t.into()))
    }
}

impl From<&str> for Arc<str> {
    fn from(t: &str) -> Self {
        Arc(Some(t.into()))
    }
}

impl From<String> for Arc<str> {
    fn from(t: String) -> Self {
        Arc(Some(t.into()))
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.real().fmt(f)
    }
}

impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.real().fmt(f)
    }
}

impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, other: &Self) -> bool {
        self.real() == other.real()
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        self.real().partial_cmp(other.real())
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.real().cmp(other.real())
    }
}
impl<T: ?Sized + Hash> Hash for Arc<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.real().hash(h)
    }
}

impl<T> Weak<T> {
    pub const fn new() -> Self {
        Weak(real::Weak::new())
    }
}

impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        point();
        self.0.upgrade().map(|a| Arc(Some(a)))
    }
    pub fn strong_count(&self) -> usize {
        point();
        self.0.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        point();
        self.0.weak_count()
    }
    pub fn ptr_eq(&self, other: &Self) -> bool {
        self.0.ptr_eq(&other.0)
    }
    pub fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
}

impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        Weak(self.0.clone())
    }
}

impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak(real::Weak::new())
    }
}

impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
