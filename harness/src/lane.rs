//! Two runs taking turns on one thread (glibc's ucontext): each step of one falls between two steps of the other,
//! with the same thread-local state.
use std::cell::{Cell, UnsafeCell};
use std::ffi::c_void;
use std::rc::Rc;

#[repr(C, align(16))]
struct Context([u8; 2048]);
extern "C" {
    fn getcontext(c: *mut Context) -> i32;
    fn makecontext(c: *mut Context, f: extern "C" fn(), argc: i32, ...);
    fn swapcontext(from: *mut Context, to: *const Context) -> i32;
}
// where ucontext_t keeps its stack on this platform (glibc, x86-64 and aarch64)
const STACK_AT: usize = 16;
const STACK: usize = 64 << 20;

pub struct Lanes {
    here: UnsafeCell<Box<Context>>,
    there: UnsafeCell<Box<Context>>,
    away: Cell<bool>,
    pub turns: Cell<u64>,
    body: UnsafeCell<Option<Box<dyn FnOnce()>>>,
    _stack: Vec<u8>,
}
thread_local!(static BODY: Cell<*const Lanes> = const { Cell::new(std::ptr::null()) });

extern "C" fn enter() {
    // SAFETY: set by `Lanes::new` on this thread to a value that outlives its turns.
    let lanes = unsafe { &*BODY.get() };
    if let Some(f) = unsafe { (*lanes.body.get()).take() } {
        f();
    }
    // nothing is left to do there: hand back every turn
    loop {
        lanes.turn();
    }
}

impl Lanes {
    /// `body` runs in the turns given away by `turn`; it must not end by unwinding.
    pub fn new(body: impl FnOnce(Rc<Lanes>) + 'static) -> Rc<Lanes> {
        let blank = || Box::new(Context([0; 2048]));
        let mut stack: Vec<u8> = Vec::with_capacity(STACK);
        let at = stack.as_mut_ptr();
        let lanes = Rc::new(Lanes {
            here: UnsafeCell::new(blank()),
            there: UnsafeCell::new(blank()),
            away: Cell::new(false),
            turns: Cell::new(0),
            body: UnsafeCell::new(None),
            _stack: stack,
        });
        let mine = lanes.clone();
        // SAFETY: the context is filled by getcontext, its stack is owned by `lanes`, which the body keeps alive.
        unsafe {
            *lanes.body.get() = Some(Box::new(move || body(mine)));
            let c: *mut Context = &mut **lanes.there.get();
            assert_eq!(getcontext(c), 0);
            let p = (c as *mut u8).add(STACK_AT);
            (p as *mut *mut c_void).write(at as *mut c_void);
            (p.add(16) as *mut usize).write(STACK);
            makecontext(c, enter, 0);
        }
        lanes
    }
    /// Gives the turn to the other run.
    pub fn turn(&self) {
        BODY.set(self);
        self.turns.set(self.turns.get() + 1);
        let away = self.away.replace(!self.away.get());
        // SAFETY: both contexts belong to this thread; one runs, the other waits here or at its start.
        unsafe {
            let (h, t): (*mut Context, *mut Context) = (&mut **self.here.get(), &mut **self.there.get());
            swapcontext(if away { t } else { h }, if away { h } else { t });
        }
    }
}
