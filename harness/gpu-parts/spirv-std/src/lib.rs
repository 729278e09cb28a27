//! Stands in for spirv-std: on a GPU these accesses are not checked.
pub mod arch {


    fn check(index: usize, len: usize) {
        if index >= len {
            panic!("unchecked access to element {index} of {len}");
        }
    }

    pub trait IndexUnchecked<T> {
        /// # Safety
        /// `index` must be in bounds.
        unsafe fn index_unchecked(&self, index: usize) -> &T;
        /// # Safety
        /// `index` must be in bounds.
        unsafe fn index_unchecked_mut(&mut self, index: usize) -> &mut T;
    }

    impl<T> IndexUnchecked<T> for [T] {
        #[track_caller]
        unsafe fn index_unchecked(&self, index: usize) -> &T {
            check(index, self.len());
            &self[index]
        }
        #[track_caller]
        unsafe fn index_unchecked_mut(&mut self, index: usize) -> &mut T {
            check(index, self.len());
            &mut self[index]
        }
    }

    impl<T, const N: usize> IndexUnchecked<T> for [T; N] {
        #[track_caller]
        unsafe fn index_unchecked(&self, index: usize) -> &T {
            check(index, N);
            &self[index]
        }
        #[track_caller]
        unsafe fn index_unchecked_mut(&mut self, index: usize) -> &mut T {
            check(index, N);
            &mut self[index]
        }
    }
}
