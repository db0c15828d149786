pub use real::thread::*;
use real::boxed::Box;
use real::marker::PhantomData;
use real::prelude::v1::*;
use real::sync::{Arc, Mutex};
use real::thread as rt;
use real::time::Duration;

pub fn sleep(d: Duration) {
    if vx::active() {
        vx::sleep_ms(d.as_millis() as u64)
    } else {
        rt::sleep(d)
    }
}
pub fn yield_now() {
    vx::yield_point()
}
pub fn park_timeout(d: Duration) {
    if vx::active() {
        vx::sleep_ms(d.as_millis() as u64)
    } else {
        rt::park_timeout(d)
    }
}

enum Jh<T> {
    Real(rt::JoinHandle<T>),
    Vx(vx::JoinKey, Arc<Mutex<Option<T>>>),
}
pub struct JoinHandle<T>(Jh<T>);
impl<T> JoinHandle<T> {
    pub fn join(self) -> rt::Result<T> {
        match self.0 {
            Jh::Real(h) => h.join(),
            Jh::Vx(k, slot) => {
                k.wait()?;
                let v = slot.lock().unwrap_or_else(|e| e.into_inner()).take();
                match v {
                    Some(v) => Ok(v),
                    None => Err(Box::new("aborted")),
                }
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Jh::Real(h) => h.is_finished(),
            Jh::Vx(k, _) => {
                vx::point();
                k.is_done()
            }
        }
    }
    pub fn thread(&self) -> rt::Thread {
        match &self.0 {
            Jh::Real(h) => h.thread().clone(),
            Jh::Vx(..) => rt::current(),
        }
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if !vx::active() {
        return JoinHandle(Jh::Real(rt::spawn(f)));
    }
    let slot = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let k = unsafe {
        vx::spawn_thread(Box::new(move || {
            let v = f();
            *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(v);
        }))
    };
    JoinHandle(Jh::Vx(k, slot))
}

#[derive(Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Builder { name: None }
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> real::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn(f))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    keys: Mutex<Vec<Arc<vx::JoinKey>>>,
    real: Option<&'scope rt::Scope<'scope, 'env>>,
    _p: PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>,
}
enum Sh<'scope, T> {
    Real(rt::ScopedJoinHandle<'scope, T>),
    Vx(Arc<vx::JoinKey>, Arc<Mutex<Option<rt::Result<T>>>>),
}
pub struct ScopedJoinHandle<'scope, T>(Sh<'scope, T>);
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> rt::Result<T> {
        match self.0 {
            Sh::Real(h) => h.join(),
            Sh::Vx(k, slot) => {
                let _ = k.wait();
                let v = slot.lock().unwrap_or_else(|e| e.into_inner()).take();
                v.unwrap_or_else(|| Err(Box::new("aborted")))
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Sh::Real(h) => h.is_finished(),
            Sh::Vx(k, _) => {
                vx::point();
                k.is_done()
            }
        }
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        if let Some(r) = self.real {
            return ScopedJoinHandle(Sh::Real(r.spawn(f)));
        }
        let slot = Arc::new(Mutex::new(None));
        let s2 = slot.clone();
        let k = unsafe {
            vx::spawn_thread(Box::new(move || {
                let v = real::panic::catch_unwind(real::panic::AssertUnwindSafe(f));
                *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(v);
            }))
        };
        let k = Arc::new(k);
        self.keys.lock().unwrap_or_else(|e| e.into_inner()).push(k.clone());
        ScopedJoinHandle(Sh::Vx(k, slot))
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    if !vx::active() {
        return rt::scope(|s| {
            // the wrapper lives as long as the real scope's borrow
            let w: Scope<'_, 'env> = Scope { keys: Mutex::new(Vec::new()), real: Some(unsafe { real::mem::transmute(s) }), _p: PhantomData };
            let r = f(unsafe { &*(&w as *const Scope<'_, 'env>) });
            r
        });
    }
    let s = Scope { keys: Mutex::new(Vec::new()), real: None, _p: PhantomData };
    let r = real::panic::catch_unwind(real::panic::AssertUnwindSafe(|| f(unsafe { &*(&s as *const Scope<'_, 'env>) })));
    loop {
        let k = s.keys.lock().unwrap_or_else(|e| e.into_inner()).pop();
        match k {
            Some(k) => {
                let _ = k.wait();
            }
            None => break,
        }
    }
    match r {
        Ok(v) => v,
        Err(p) => real::panic::resume_unwind(p),
    }
}
