//! A cooperative runtime whose schedule the harness decides. Tasks are polled one at a time; a task stops at awaits that
//! would block and, with `rt::preempt`, before every lock acquisition. Aborting drops the task at its current await.
pub mod rt {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, RawWaker, RawWakerVTable, Waker};
    type F = Pin<Box<dyn Future<Output = ()>>>;
    #[derive(Clone, Copy, PartialEq)]
    pub enum Wait {
        Ready,
        /// A call to the outside world is under way.
        Call,
        /// Read/write of the lock with this address.
        Lock(usize, bool),
        Join(usize),
        Until(u64),
        Never,
    }
    pub struct Task {
        fut: Option<F>,
        pub wait: Wait,
        pub done: bool,
        pub aborted: bool,
    }
    pub struct Rt {
        pub tasks: Vec<Task>,
        pub current: usize,
        pub preempt: bool,
        pub now_ms: u64,
        pub locks: Vec<(usize, isize)>, // address, -1 written, n>0 readers
        pub spawned: u64,
    }
    static mut RT: Rt = Rt { tasks: vec![], current: usize::MAX, preempt: false, now_ms: 0, locks: vec![], spawned: 0 };
    #[allow(static_mut_refs)]
    pub fn get() -> &'static mut Rt {
        unsafe { &mut RT }
    }
    fn waker() -> Waker {
        fn clone(_: *const ()) -> RawWaker {
            RawWaker::new(core::ptr::null(), &VT)
        }
        fn nop(_: *const ()) {}
        static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
        unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) }
    }
    pub fn add(f: F) -> usize {
        let r = get();
        r.tasks.push(Task { fut: Some(f), wait: Wait::Ready, done: false, aborted: false });
        r.tasks.len() - 1
    }
    pub fn lock_state(a: usize) -> &'static mut isize {
        let r = get();
        for i in 0..r.locks.len() {
            if r.locks[i].0 == a {
                return &mut get().locks[i].1;
            }
        }
        r.locks.push((a, 0));
        let n = r.locks.len() - 1;
        &mut get().locks[n].1
    }
    pub fn alive(i: usize) -> bool {
        let t = &get().tasks[i];
        !t.done && !t.aborted
    }
    /// Could polling the task make progress now?
    pub fn runnable(i: usize) -> bool {
        let r = get();
        if !alive(i) || r.tasks[i].fut.is_none() {
            return false;
        }
        match r.tasks[i].wait {
            Wait::Ready | Wait::Call => true,
            Wait::Lock(a, w) => {
                let s = *lock_state(a);
                if w { s == 0 } else { s >= 0 }
            }
            Wait::Join(t) => !alive(t),
            Wait::Until(t) => r.now_ms >= t,
            Wait::Never => false,
        }
    }
    /// Polls the task once (until it stops).
    pub fn step(i: usize) {
        let r = get();
        let Some(mut f) = r.tasks[i].fut.take() else { return };
        let back = r.current;
        r.current = i;
        r.tasks[i].wait = Wait::Ready;
        let w = waker();
        let mut cx = Context::from_waker(&w);
        let done = f.as_mut().poll(&mut cx).is_ready();
        let r = get();
        r.current = back;
        if done {
            r.tasks[i].done = true;
            drop(f);
        } else if r.tasks[i].aborted {
            drop(f);
        } else {
            r.tasks[i].fut = Some(f);
        }
    }
    pub fn abort(i: usize) {
        let t = &mut get().tasks[i];
        if t.done || t.aborted {
            return;
        }
        t.aborted = true;
        let f = t.fut.take();
        drop(f);
    }
    pub fn wait(w: Wait) {
        let r = get();
        let c = r.current;
        if c < r.tasks.len() {
            r.tasks[c].wait = w;
        }
    }
    /// Pending once, with the given reason.
    pub struct Once(pub Option<Wait>);
    impl Future for Once {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> std::task::Poll<()> {
            match self.0.take() {
                Some(w) => {
                    wait(w);
                    std::task::Poll::Pending
                }
                None => std::task::Poll::Ready(()),
            }
        }
    }
    pub fn call() -> Once {
        Once(Some(Wait::Call))
    }
}
pub mod task {
    use super::rt;
    use std::cell::UnsafeCell;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::Arc;
    use std::task::{Context, Poll};
    struct Out<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Send for Out<T> {}
    unsafe impl<T> Sync for Out<T> {}
    pub struct JoinHandle<T> {
        id: usize,
        out: Arc<Out<T>>,
    }
    #[derive(Clone)]
    pub struct AbortHandle(usize);
    impl AbortHandle {
        pub fn abort(&self) {
            rt::abort(self.0)
        }
        pub fn is_finished(&self) -> bool {
            !rt::alive(self.0)
        }
    }
    #[derive(Debug)]
    pub struct JoinError;
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            true
        }
        pub fn is_panic(&self) -> bool {
            false
        }
    }
    impl std::fmt::Display for JoinError {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for JoinError {}
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            rt::abort(self.id)
        }
        pub fn is_finished(&self) -> bool {
            !rt::alive(self.id)
        }
        pub fn abort_handle(&self) -> AbortHandle {
            AbortHandle(self.id)
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            if rt::alive(self.id) {
                rt::wait(rt::Wait::Join(self.id));
                return Poll::Pending;
            }
            match unsafe { (*self.out.0.get()).take() } {
                Some(v) => Poll::Ready(Ok(v)),
                None => Poll::Ready(Err(JoinError)),
            }
        }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let out = Arc::new(Out(UnsafeCell::new(None)));
        let o = Arc::clone(&out);
        rt::get().spawned += 1;
        let id = rt::add(Box::pin(async move {
            let v = f.await;
            unsafe { *o.0.get() = Some(v) };
        }));
        JoinHandle { id, out }
    }
    pub async fn yield_now() {
        rt::call().await
    }
}
pub use model_macros::main;
pub use task::spawn;
pub mod sync {
    use super::rt;
    use std::cell::UnsafeCell;
    use std::ops::{Deref, DerefMut};
    #[derive(Debug)]
    pub struct TryLockError(());
    pub struct RwLock<T: ?Sized> {
        id: u8, // only its address matters
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    unsafe impl<T: ?Sized + Sync> Send for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Send for RwLockWriteGuard<'_, T> {}
    impl<T> RwLock<T> {
        pub fn new(v: T) -> Self {
            RwLock { id: 0, v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> T {
            self.v.into_inner()
        }
        fn a(&self) -> usize {
            &self.id as *const u8 as usize
        }
        async fn acquire(&self, w: bool) {
            // the order of accesses to shared tables is what matters
            let t = std::any::type_name::<T>();
            if rt::get().preempt && (t.contains("Map<") || t.contains("Set<")) {
                rt::Once(Some(rt::Wait::Lock(self.a(), w))).await;
            }
            loop {
                let s = rt::lock_state(self.a());
                if w && *s == 0 {
                    *s = -1;
                    return;
                }
                if !w && *s >= 0 {
                    *s += 1;
                    return;
                }
                rt::Once(Some(rt::Wait::Lock(self.a(), w))).await;
            }
        }
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            self.acquire(false).await;
            RwLockReadGuard(self)
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            self.acquire(true).await;
            RwLockWriteGuard(self)
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            let s = rt::lock_state(self.a());
            if *s < 0 {
                return Err(TryLockError(()));
            }
            *s += 1;
            Ok(RwLockReadGuard(self))
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            let s = rt::lock_state(self.a());
            if *s != 0 {
                return Err(TryLockError(()));
            }
            *s = -1;
            Ok(RwLockWriteGuard(self))
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.v.get_mut()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            *rt::lock_state(&self.0.id as *const u8 as usize) -= 1;
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            *rt::lock_state(&self.0.id as *const u8 as usize) = 0;
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    pub struct Mutex<T>(RwLock<T>);
    pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
    impl<T> Mutex<T> {
        pub fn new(v: T) -> Self {
            Mutex(RwLock::new(v))
        }
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            self.0.write().await
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            self.0.try_write()
        }
    }
}
pub mod time {
    use super::rt;
    use std::future::Future;
    pub use std::time::Duration;
    pub async fn sleep(d: Duration) {
        let t = rt::get().now_ms + d.as_millis() as u64;
        while rt::get().now_ms < t {
            rt::Once(Some(rt::Wait::Until(t))).await;
        }
    }
    pub struct Interval {
        next: u64,
        every: u64,
    }
    pub fn interval(d: Duration) -> Interval {
        Interval { next: rt::get().now_ms, every: d.as_millis() as u64 }
    }
    impl Interval {
        pub async fn tick(&mut self) {
            while rt::get().now_ms < self.next {
                rt::Once(Some(rt::Wait::Until(self.next))).await;
            }
            self.next += self.every;
        }
    }
    pub mod error {
        #[derive(Debug)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                Ok(())
            }
        }
        impl std::error::Error for Elapsed {}
    }
    /// Never times out.
    pub async fn timeout<F: Future>(_: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        Ok(f.await)
    }
}
