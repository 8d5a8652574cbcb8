//! Stand-in for the fork of `triomphe` the packet crate uses: a reference counted pointer whose
//! heap block is `repr(C) { count: AtomicUsize, data: T }`.
#![feature(ptr_metadata)]
use std::alloc::{alloc, dealloc, handle_alloc_error, Layout};
use std::fmt;
use std::marker::PhantomData;
use std::mem::size_of;
use std::ops::Deref;
use std::ptr::NonNull;
use std::sync::atomic::{fence, AtomicUsize, Ordering};

#[repr(C)]
#[derive(Debug)]
pub struct HeaderSlice<H, T: ?Sized> {
    pub header: H,
    pub slice: T,
}
#[repr(C)]
struct ArcInner<T: ?Sized> {
    count: AtomicUsize,
    data: T,
}
pub struct Arc<T: ?Sized> {
    p: NonNull<ArcInner<T>>,
    _m: PhantomData<T>,
}
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}
impl<T: ?Sized> Arc<T> {
    fn inner(&self) -> &ArcInner<T> {
        unsafe { self.p.as_ref() }
    }
    pub fn count(this: &Self) -> usize {
        this.inner().count.load(Ordering::Acquire)
    }
    pub fn strong_count(this: &Self) -> usize {
        Self::count(this)
    }
    pub fn heap_ptr(&self) -> *const std::ffi::c_void {
        self.p.as_ptr() as *const std::ffi::c_void
    }
    pub fn into_raw(this: Self) -> *const T {
        let p = unsafe { std::ptr::addr_of!((*this.p.as_ptr()).data) };
        std::mem::forget(this);
        p
    }
}
impl<H> Arc<HeaderSlice<H, [u8]>> {
    pub fn from_header_and_fn(header: H, len: usize, f: impl FnOnce(&mut [u8])) -> Self {
        let (l, off) = Layout::new::<AtomicUsize>().extend(Layout::new::<H>()).unwrap();
        assert_eq!(off, size_of::<AtomicUsize>());
        let (l, off2) = l.extend(Layout::array::<u8>(len).unwrap()).unwrap();
        let l = l.pad_to_align();
        unsafe {
            let b = alloc(l);
            if b.is_null() {
                handle_alloc_error(l)
            }
            b.cast::<AtomicUsize>().write(AtomicUsize::new(1));
            b.add(off).cast::<H>().write(header);
            std::ptr::write_bytes(b.add(off2), 0, l.size() - off2);
            f(std::slice::from_raw_parts_mut(b.add(off2), len));
            let p: *mut ArcInner<HeaderSlice<H, [u8]>> =
                std::ptr::from_raw_parts_mut(b.cast::<()>(), len);
            Arc { p: NonNull::new_unchecked(p), _m: PhantomData }
        }
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        self.inner().count.fetch_add(1, Ordering::Relaxed);
        Arc { p: self.p, _m: PhantomData }
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        if self.inner().count.fetch_sub(1, Ordering::Release) == 1 {
            fence(Ordering::Acquire);
            unsafe {
                let l = Layout::for_value(self.p.as_ref());
                std::ptr::drop_in_place(self.p.as_ptr());
                dealloc(self.p.as_ptr().cast(), l);
            }
        }
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner().data
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&(std::ptr::addr_of!(self.inner().data) as *const ()), f)
    }
}
