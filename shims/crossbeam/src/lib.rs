//! Stand-in for the parts of `crossbeam` that the library uses. Spawned closures run
//! on the caller's stack; *when* they run is a nondeterministic choice (parameter 902:
//! 0 = at spawn, 1 = at join or at the end of the scope (latest spawned first),
//! 2 = decided symbolically for every spawn, 3 = as threads of the executor, which
//! switches between them at atomic operations).
pub mod thread {
    use std::cell::RefCell;
    use std::marker::PhantomData;
    use std::rc::Rc;
    extern "C" {
        fn vsched(k: u32, d: u64) -> u64;
        fn vx_bool() -> bool;
    }
    extern "C-unwind" {
        fn vx_thread_spawn(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u64;
        fn vx_thread_count() -> u64;
        fn vx_thread_join(t: u64);
        fn vx_thread_join_from(t: u64);
        fn vx_thread_yield();
    }
    extern "C-unwind" fn start(p: *mut u8) {
        let j: Box<Box<dyn FnOnce()>> = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>) };
        (*j)()
    }
    struct Slot<T>(std::cell::UnsafeCell<Option<T>>);
    pub type Result<T> = std::thread::Result<T>;
    type Job<'env> = Box<dyn FnOnce() + 'env>;
    struct Queue<'env> { jobs: RefCell<Vec<Option<Job<'env>>>> }
    /// without a queue: mode 3
    pub struct Scope<'env> { q: Option<Rc<Queue<'env>>>, _p: PhantomData<&'env mut &'env ()> }
    pub struct ScopedJoinHandle<'scope, T> {
        v: Rc<RefCell<Option<T>>>,
        run: Box<dyn Fn() + 'scope>,
        _p: PhantomData<&'scope ()>,
    }
    impl<'env> Queue<'env> {
        fn run(&self, i: usize) {
            let job = self.jobs.borrow_mut()[i].take();
            if let Some(j) = job { j() }
        }
        fn drain(&self) {
            loop {
                let mut i = self.jobs.borrow().len();
                while i > 0 && self.jobs.borrow()[i - 1].is_none() { i -= 1; }
                if i == 0 { return; }
                self.run(i - 1);
            }
        }
    }
    pub fn scope<'env, F, R>(f: F) -> Result<R> where F: FnOnce(&Scope<'env>) -> R {
        if unsafe { vsched(902, 0) } == 3 {
            let from = unsafe { vx_thread_count() };
            let s = Scope { q: None, _p: PhantomData };
            let r = f(&s);
            unsafe { vx_thread_join_from(from) };
            return Ok(r);
        }
        let q = Rc::new(Queue { jobs: RefCell::new(Vec::new()) });
        let s = Scope { q: Some(q.clone()), _p: PhantomData };
        let r = f(&s);
        q.drain();
        Ok(r)
    }
    impl<'env> Scope<'env> {
        pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where F: FnOnce(&Scope<'env>) -> T + Send + 'env, T: Send + 'env {
            let Some(q) = &self.q else {
                let p = Box::into_raw(Box::new(Slot::<T>(std::cell::UnsafeCell::new(None)))) as usize;
                let job: Job<'env> = Box::new(move || {
                    let s = Scope { q: None, _p: PhantomData };
                    let r = f(&s);
                    unsafe { *(*(p as *const Slot<T>)).0.get() = Some(r) };
                });
                let id = unsafe { vx_thread_spawn(start, Box::into_raw(Box::new(job)) as *mut u8) };
                unsafe { vx_thread_yield() };
                let v = Rc::new(RefCell::new(None));
                let v2 = v.clone();
                return ScopedJoinHandle { v, run: Box::new(move || unsafe { vx_thread_join(id); *v2.borrow_mut() = (*(p as *const Slot<T>)).0.get().as_mut().and_then(|x| x.take()); }), _p: PhantomData };
            };
            let v: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
            let (v2, q2) = (v.clone(), q.clone());
            let job: Job<'env> = Box::new(move || {
                let s = Scope { q: Some(q2), _p: PhantomData };
                let r = f(&s);
                *v2.borrow_mut() = Some(r);
            });
            let now = unsafe { match vsched(902, 0) { 0 => true, 1 => false, _ => vx_bool() } };
            let id;
            if now {
                job();
                id = usize::MAX;
            } else {
                id = q.jobs.borrow().len();
                q.jobs.borrow_mut().push(Some(job));
            }
            let q = q.clone();
            ScopedJoinHandle { v, run: Box::new(move || if id != usize::MAX { q.run(id) }), _p: PhantomData }
        }
        pub fn builder<'scope>(&'scope self) -> ScopedThreadBuilder<'scope, 'env> { ScopedThreadBuilder { scope: self } }
    }
    pub struct ScopedThreadBuilder<'scope, 'env> { scope: &'scope Scope<'env> }
    impl<'scope, 'env> ScopedThreadBuilder<'scope, 'env> {
        pub fn name(self, _: String) -> Self { self }
        pub fn stack_size(self, _: usize) -> Self { self }
        pub fn spawn<F, T>(self, f: F) -> std::io::Result<ScopedJoinHandle<'scope, T>>
        where F: FnOnce(&Scope<'env>) -> T + Send + 'env, T: Send + 'env { Ok(self.scope.spawn(f)) }
    }
    impl<'scope, T> ScopedJoinHandle<'scope, T> {
        pub fn join(self) -> Result<T> {
            (self.run)();
            let v = self.v.borrow_mut().take();
            Ok(v.unwrap())
        }
    }
}
pub use thread::scope;
