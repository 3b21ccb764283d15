//! Global allocator seam: attributes heap bytes held across library calls to the calling session.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
/// A call that holds this much is a runaway: end the process (the parent reports the run).
const RUNAWAY: i64 = 3 << 30;

pub struct Counting;
fn note(d: i64) {
    let _ = IN_SUT.try_with(|f| {
        if f.get() {
            LIVE.with(|l| {
                let v = l.get() + d;
                l.set(v);
                if v > RUNAWAY {
                    f.set(false);
                    std::process::abort();
                }
            });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

struct Guard {
    was: bool,
    live: i64,
}
impl Drop for Guard {
    fn drop(&mut self) {
        IN_SUT.with(|f| f.set(self.was));
    }
}
/// Run `f` as library code; returns its result and the net change of held heap bytes.
pub fn tracked<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let g = Guard {
        was: IN_SUT.with(|f| f.replace(true)),
        live: LIVE.with(|l| l.get()),
    };
    let r = f();
    let d = LIVE.with(|l| l.get()) - g.live;
    (r, d)
}
/// Run harness code from inside library code (callbacks); its heap use is not the library's.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let _g = Restore {
        was: IN_SUT.with(|f| f.replace(false)),
        live: LIVE.with(|l| l.get()),
    };
    f()
}
struct Restore {
    was: bool,
    live: i64,
}
impl Drop for Restore {
    fn drop(&mut self) {
        IN_SUT.with(|f| f.set(self.was));
        LIVE.with(|l| l.set(self.live));
    }
}
