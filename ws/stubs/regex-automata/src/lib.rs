//! Type-only stub of the git dependency `regex-automata-fork` (analysis never runs it).
pub mod util {
    pub mod pool {
        use std::marker::PhantomData;
        use std::ops::{Deref, DerefMut};
        use std::sync::Mutex;
        pub struct Pool<T, F = fn() -> T, const MAX_POOL_STACKS: usize = 8> {
            inner: Mutex<Vec<T>>,
            f: F,
        }
        pub struct PoolGuard<'a, T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize = 8> {
            value: Option<T>,
            pool: PhantomData<&'a Pool<T, F, MAX_POOL_STACKS>>,
        }
        impl<T, F, const N: usize> Pool<T, F, N> {
            pub fn new(create: F) -> Pool<T, F, N> {
                Pool { inner: Mutex::new(vec![]), f: create }
            }
        }
        impl<T: Send, F: Fn() -> T, const N: usize> Pool<T, F, N> {
            pub fn get(&self) -> PoolGuard<'_, T, F, N> {
                let _ = (&self.inner, &self.f);
                unimplemented!()
            }
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> Deref for PoolGuard<'a, T, F, N> {
            type Target = T;
            fn deref(&self) -> &T {
                let _ = &self.pool;
                self.value.as_ref().unwrap()
            }
        }
        impl<'a, T: Send, F: Fn() -> T, const N: usize> DerefMut for PoolGuard<'a, T, F, N> {
            fn deref_mut(&mut self) -> &mut T {
                self.value.as_mut().unwrap()
            }
        }
    }
}
