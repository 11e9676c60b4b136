//! Entry points over the public API of mazth.  Every entry reads its inputs from `i`, takes selectors
//! in `k` and writes its results to `o` (booleans as 1/0).  Nothing here decides anything: the
//! properties are stated over these entries in /verif/props.
#![allow(clippy::all, unused_unsafe, non_snake_case)]
extern crate mazth;

pub struct W<T> {
    p: *mut T,
}
impl<T: Copy + From<u8>> W<T> {
    #[inline(always)]
    pub fn f(&mut self, x: T) {
        unsafe {
            *self.p = x;
            self.p = self.p.add(1);
        }
    }
    #[inline(always)]
    pub fn b(&mut self, x: bool) {
        self.f(T::from(x as u8))
    }
    #[inline(always)]
    pub fn s(&mut self, xs: &[T]) {
        for x in xs {
            self.f(*x)
        }
    }
}

mod algebra;
mod geometry;
