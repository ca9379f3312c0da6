//! A wall clock of its own for a case: while set on a thread, CLOCK_REALTIME there is
//! the case's base plus its virtual time.
use crate::sim::Sim;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone)]
pub struct Wall {
    pub sim: Sim,
    base: Arc<AtomicU64>,
    pub reads: Arc<AtomicU64>,
}
thread_local!(static WALL: RefCell<Option<Wall>> = const { RefCell::new(None) });

impl Wall {
    pub fn new(sim: &Sim, base_ns: u64) -> Wall {
        Wall { sim: sim.clone(), base: Arc::new(AtomicU64::new(base_ns)), reads: Default::default() }
    }
    pub fn now_ns(&self) -> u64 {
        self.base.load(SeqCst) + self.sim.now_ns()
    }
    pub fn step(&self, by: i64) {
        self.base.store(self.base.load(SeqCst).saturating_add_signed(by), SeqCst);
    }
    /// runs `f` with this clock as the thread's wall clock
    pub fn with<T>(&self, f: impl FnOnce() -> T) -> T {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                let old = WALL.with(|w| w.borrow_mut().take());
                drop(old);
            }
        }
        WALL.with(|w| *w.borrow_mut() = Some(self.clone()));
        let _off = Off;
        f()
    }
}

static REAL: AtomicUsize = AtomicUsize::new(0);
type Gettime = unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> libc::c_int;

/// # Safety
/// as the C function
#[cfg_attr(not(feature = "san"), no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        let w = WALL.try_with(|w| w.try_borrow().ok().and_then(|w| w.clone())).ok().flatten();
        if let Some(w) = w {
            let now = w.now_ns();
            w.reads.fetch_add(1, SeqCst);
            (*ts).tv_sec = (now / 1_000_000_000) as _;
            (*ts).tv_nsec = (now % 1_000_000_000) as _;
            return 0;
        }
    }
    let mut f = REAL.load(SeqCst);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, c"clock_gettime".as_ptr()) as usize;
        REAL.store(f, SeqCst);
    }
    std::mem::transmute::<usize, Gettime>(f)(id, ts)
}
