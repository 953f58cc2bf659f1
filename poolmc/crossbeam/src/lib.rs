//! Stands in for both `crossbeam` and, under `cfg(mysql_connector_mc = "pool")`, `std` in the code
//! under test: everything that threads share through it is an operation the scheduler of the checks
//! knows of. Without a scheduler everything works as usual.
pub use ::std::*;

/// The connection to the scheduler.
pub mod mc {
    use std::cell::Cell;

    /// Called before each operation on something shared; returns when the operation may happen.
    /// The argument of the second kind tells whether it is possible.
    #[derive(Clone, Copy)]
    pub struct Hook {
        pub point: fn(),
        pub block: fn(&dyn Fn() -> bool),
        /// other threads have to do something first
        pub spin: fn(),
    }

    thread_local! {
        static HOOK: Cell<Option<Hook>> = const { Cell::new(None) };
    }

    pub fn set(hook: Option<Hook>) -> Option<Hook> {
        HOOK.with(|h| h.replace(hook))
    }

    pub fn point() {
        if let Some(h) = HOOK.with(|h| h.get()) {
            (h.point)()
        }
    }

    pub fn spin() {
        match HOOK.with(|h| h.get()) {
            Some(h) => (h.spin)(),
            None => std::thread::yield_now(),
        }
    }

    pub fn block(possible: &dyn Fn() -> bool) {
        match HOOK.with(|h| h.get()) {
            Some(h) => (h.block)(possible),
            None => {
                while !possible() {
                    std::thread::yield_now()
                }
            }
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;

    pub fn spin_loop() {
        crate::mc::spin()
    }
}

pub mod thread {
    pub use ::std::thread::*;

    pub fn yield_now() {
        crate::mc::spin()
    }

    pub fn sleep(_: ::std::time::Duration) {
        crate::mc::spin()
    }
}

pub mod utils {
    pub use crossbeam_utils::CachePadded;

    #[derive(Debug, Default)]
    pub struct Backoff(::std::cell::Cell<u32>);

    impl Backoff {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn reset(&self) {
            self.0.set(0)
        }
        pub fn spin(&self) {
            crate::mc::point();
            self.0.set(self.0.get() + 1);
        }
        pub fn snooze(&self) {
            crate::mc::spin();
            self.0.set(self.0.get() + 1);
        }
        pub fn is_completed(&self) -> bool {
            self.0.get() > 10
        }
    }
}

pub mod queue {
    use std::{collections::VecDeque, fmt, sync::Mutex};

    use crate::mc::point;

    fn lock<T>(m: &Mutex<VecDeque<T>>) -> std::sync::MutexGuard<'_, VecDeque<T>> {
        m.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub struct ArrayQueue<T> {
        cap: usize,
        items: Mutex<VecDeque<T>>,
    }

    impl<T> ArrayQueue<T> {
        pub fn new(cap: usize) -> Self {
            assert!(cap > 0, "capacity must be non-zero");
            Self {
                cap,
                items: Mutex::new(VecDeque::new()),
            }
        }
        pub fn push(&self, x: T) -> Result<(), T> {
            point();
            let mut q = lock(&self.items);
            if q.len() < self.cap {
                q.push_back(x);
                Ok(())
            } else {
                Err(x)
            }
        }
        pub fn force_push(&self, x: T) -> Option<T> {
            point();
            let mut q = lock(&self.items);
            let old = (q.len() == self.cap).then(|| q.pop_front().unwrap());
            q.push_back(x);
            old
        }
        pub fn pop(&self) -> Option<T> {
            point();
            lock(&self.items).pop_front()
        }
        pub fn capacity(&self) -> usize {
            self.cap
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn is_full(&self) -> bool {
            self.len() == self.cap
        }
        pub fn len(&self) -> usize {
            point();
            lock(&self.items).len()
        }
    }

    impl<T> IntoIterator for ArrayQueue<T> {
        type Item = T;
        type IntoIter = std::collections::vec_deque::IntoIter<T>;

        fn into_iter(self) -> Self::IntoIter {
            self.items.into_inner().unwrap().into_iter()
        }
    }

    impl<T> fmt::Debug for ArrayQueue<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.pad("ArrayQueue { .. }")
        }
    }

    pub struct SegQueue<T> {
        items: Mutex<VecDeque<T>>,
    }

    impl<T> SegQueue<T> {
        pub const fn new() -> Self {
            Self {
                items: Mutex::new(VecDeque::new()),
            }
        }
        pub fn push(&self, x: T) {
            point();
            lock(&self.items).push_back(x)
        }
        pub fn pop(&self) -> Option<T> {
            point();
            lock(&self.items).pop_front()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn len(&self) -> usize {
            point();
            lock(&self.items).len()
        }
    }

    impl<T> Default for SegQueue<T> {
        fn default() -> Self {
            Self::new()
        }
    }

    impl<T> IntoIterator for SegQueue<T> {
        type Item = T;
        type IntoIter = std::collections::vec_deque::IntoIter<T>;

        fn into_iter(self) -> Self::IntoIter {
            self.items.into_inner().unwrap().into_iter()
        }
    }

    impl<T> fmt::Debug for SegQueue<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.pad("SegQueue { .. }")
        }
    }
}

pub mod sync {
    pub use ::std::sync::*;

    pub use self::locks::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};

    mod locks {
        use std::{
            cell::UnsafeCell,
            fmt,
            ops::{Deref, DerefMut},
            sync::{
                atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst},
                LockResult, TryLockError, TryLockResult,
            },
            time::Duration,
        };

        use crate::mc::{block, point};

        /// Poisoning is left out.
        pub struct Mutex<T: ?Sized> {
            lock: RwLock<T>,
        }

        pub struct MutexGuard<'a, T: ?Sized>(RwLockWriteGuard<'a, T>);

        impl<T> Mutex<T> {
            pub const fn new(x: T) -> Self {
                Self { lock: RwLock::new(x) }
            }
            pub fn into_inner(self) -> LockResult<T> {
                self.lock.into_inner()
            }
        }

        impl<T: ?Sized> Mutex<T> {
            pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
                self.lock.write().map(MutexGuard).map_err(|_| unreachable!())
            }
            pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
                match self.lock.try_write() {
                    Ok(x) => Ok(MutexGuard(x)),
                    Err(_) => Err(TryLockError::WouldBlock),
                }
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                self.lock.get_mut()
            }
            pub fn is_poisoned(&self) -> bool {
                false
            }
            pub fn clear_poison(&self) {}
        }

        impl<T> From<T> for Mutex<T> {
            fn from(x: T) -> Self {
                Self::new(x)
            }
        }

        impl<T> From<T> for RwLock<T> {
            fn from(x: T) -> Self {
                Self::new(x)
            }
        }

        impl<T: ?Sized> Deref for MutexGuard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }

        impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                &mut self.0
            }
        }

        /// -1: written
        pub struct RwLock<T: ?Sized> {
            state: AtomicIsize,
            x: UnsafeCell<T>,
        }

        unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
        unsafe impl<T: ?Sized + Send> Sync for RwLock<T> {}

        pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
        pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);

        impl<T> RwLock<T> {
            pub const fn new(x: T) -> Self {
                Self {
                    state: AtomicIsize::new(0),
                    x: UnsafeCell::new(x),
                }
            }
            pub fn into_inner(self) -> LockResult<T> {
                Ok(self.x.into_inner())
            }
        }

        impl<T: ?Sized> RwLock<T> {
            fn take_write(&self) -> bool {
                self.state.compare_exchange(0, -1, SeqCst, SeqCst).is_ok()
            }
            fn take_read(&self) -> bool {
                self.state
                    .fetch_update(SeqCst, SeqCst, |x| (x >= 0).then_some(x + 1))
                    .is_ok()
            }
            pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
                point();
                while !self.take_write() {
                    block(&|| self.state.load(SeqCst) == 0);
                }
                Ok(RwLockWriteGuard(self))
            }
            pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
                point();
                while !self.take_read() {
                    block(&|| self.state.load(SeqCst) >= 0);
                }
                Ok(RwLockReadGuard(self))
            }
            pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
                point();
                match self.take_write() {
                    true => Ok(RwLockWriteGuard(self)),
                    false => Err(TryLockError::WouldBlock),
                }
            }
            pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
                point();
                match self.take_read() {
                    true => Ok(RwLockReadGuard(self)),
                    false => Err(TryLockError::WouldBlock),
                }
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                Ok(self.x.get_mut())
            }
            pub fn is_poisoned(&self) -> bool {
                false
            }
            pub fn clear_poison(&self) {}
        }

        impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                // Safety: there are only readers
                unsafe { &*self.0.x.get() }
            }
        }

        impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                // Safety: this is the only writer
                unsafe { &*self.0.x.get() }
            }
        }

        impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                // Safety: this is the only writer
                unsafe { &mut *self.0.x.get() }
            }
        }

        impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
            fn drop(&mut self) {
                self.0.state.fetch_sub(1, SeqCst);
                if !std::thread::panicking() {
                    point();
                }
            }
        }

        impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
            fn drop(&mut self) {
                self.0.state.store(0, SeqCst);
                if !std::thread::panicking() {
                    point();
                }
            }
        }

        #[derive(Default)]
        pub struct Condvar {
            waiting: AtomicUsize,
            released: AtomicUsize,
        }

        impl Condvar {
            pub const fn new() -> Self {
                Self {
                    waiting: AtomicUsize::new(0),
                    released: AtomicUsize::new(0),
                }
            }
            pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
                let lock = guard.0 .0;
                let ticket = self.waiting.fetch_add(1, SeqCst);
                drop(guard);
                block(&|| self.released.load(SeqCst) > ticket);
                lock.write().map(MutexGuard).map_err(|_| unreachable!())
            }
            pub fn wait_while<'a, T>(
                &self,
                mut guard: MutexGuard<'a, T>,
                mut cond: impl FnMut(&mut T) -> bool,
            ) -> LockResult<MutexGuard<'a, T>> {
                while cond(&mut guard) {
                    guard = self.wait(guard)?;
                }
                Ok(guard)
            }
            /// Time passes when nothing else happens.
            pub fn wait_timeout<'a, T>(
                &self,
                guard: MutexGuard<'a, T>,
                _: Duration,
            ) -> LockResult<(MutexGuard<'a, T>, bool)> {
                self.wait(guard).map(|g| (g, false)).map_err(|_| unreachable!())
            }
            pub fn notify_one(&self) {
                point();
                let waiting = self.waiting.load(SeqCst);
                let _ = self
                    .released
                    .fetch_update(SeqCst, SeqCst, |x| (x < waiting).then_some(x + 1));
            }
            pub fn notify_all(&self) {
                point();
                self.released.store(self.waiting.load(SeqCst), SeqCst);
            }
        }

        impl<T: Default> Default for Mutex<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }

        impl<T: Default> Default for RwLock<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }

        impl<T: ?Sized> fmt::Debug for Mutex<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad("Mutex { .. }")
            }
        }

        impl<T: ?Sized> fmt::Debug for RwLock<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad("RwLock { .. }")
            }
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;

        use crate::mc::point;

        macro_rules! common {
            ($name:ident, $t:ty) => {
                #[derive(Debug, Default)]
                pub struct $name(::std::sync::atomic::$name);

                #[allow(clippy::missing_errors_doc)]
                impl $name {
                    pub const fn new(x: $t) -> Self {
                        Self(::std::sync::atomic::$name::new(x))
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        point();
                        self.0.load(o)
                    }
                    pub fn store(&self, x: $t, o: Ordering) {
                        point();
                        self.0.store(x, o)
                    }
                    pub fn swap(&self, x: $t, o: Ordering) -> $t {
                        point();
                        self.0.swap(x, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    /// Does not fail spuriously.
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update(
                        &self,
                        s: Ordering,
                        f: Ordering,
                        mut update: impl FnMut($t) -> Option<$t>,
                    ) -> Result<$t, $t> {
                        let mut old = self.load(f);
                        while let Some(new) = update(old) {
                            match self.compare_exchange(old, new, s, f) {
                                Ok(x) => return Ok(x),
                                Err(x) => old = x,
                            }
                        }
                        Err(old)
                    }
                    pub fn try_update(
                        &self,
                        s: Ordering,
                        f: Ordering,
                        update: impl FnMut($t) -> Option<$t>,
                    ) -> Result<$t, $t> {
                        self.fetch_update(s, f, update)
                    }
                    pub fn update(&self, s: Ordering, f: Ordering, mut update: impl FnMut($t) -> $t) -> $t {
                        match self.fetch_update(s, f, |x| Some(update(x))) {
                            Ok(x) | Err(x) => x,
                        }
                    }
                    pub fn fetch_nand(&self, x: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_nand(x, o)
                    }
                    pub fn fetch_and(&self, x: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_and(x, o)
                    }
                    pub fn fetch_or(&self, x: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_or(x, o)
                    }
                    pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_xor(x, o)
                    }
                }

                impl From<$t> for $name {
                    fn from(x: $t) -> Self {
                        Self::new(x)
                    }
                }
            };
        }

        macro_rules! int {
            ($($name:ident $t:ty,)*) => {
                $(
                    common!($name, $t);

                    impl $name {
                        pub fn fetch_add(&self, x: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_add(x, o)
                        }
                        pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_sub(x, o)
                        }
                        pub fn fetch_max(&self, x: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_max(x, o)
                        }
                        pub fn fetch_min(&self, x: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_min(x, o)
                        }
                    }
                )*
            };
        }

        common!(AtomicBool, bool);
        int!(
            AtomicUsize usize,
            AtomicIsize isize,
            AtomicU8 u8,
            AtomicU16 u16,
            AtomicU32 u32,
            AtomicU64 u64,
            AtomicI8 i8,
            AtomicI16 i16,
            AtomicI32 i32,
            AtomicI64 i64,
        );
    }
}
