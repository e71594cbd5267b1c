//! Resource meter: a counting allocator and the CPU clock of the thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static START: Cell<Option<(i64, u64, u64, u64)>> = const { Cell::new(None) };
    static LAST: Cell<Option<Use>> = const { Cell::new(None) };
}
fn add(n: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            let _ = TOTAL.try_with(|p| p.set(p.get() + n as u64));
            let _ = COUNT.try_with(|p| p.set(p.get() + 1));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // growing in place or by moving: both blocks may exist for a moment
        add(n as i64);
        add(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
}
/// CPU time of this thread in microseconds (CLOCK_THREAD_CPUTIME_ID)
pub fn cpu_us() -> u64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe {
        clock_gettime(3, &mut t);
    }
    t.s as u64 * 1_000_000 + t.n as u64 / 1000
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Use {
    /// most octets held at once
    pub peak: u64,
    /// octets requested altogether
    pub total: u64,
    pub count: u64,
    pub us: u64,
}
pub fn begin() {
    LAST.set(None);
    PEAK.set(CUR.get());
    START.set(Some((CUR.get(), TOTAL.get(), COUNT.get(), cpu_us())));
}
/// called by the harness when the library has returned; only the first call after `begin` counts
pub fn end() {
    if let Some((cur, total, count, us)) = START.take() {
        LAST.set(Some(Use { peak: (PEAK.get() - cur).max(0) as u64, total: TOTAL.get() - total, count: COUNT.get() - count, us: cpu_us() - us }));
    }
}
pub fn last() -> Option<Use> {
    LAST.take()
}
/// run `f` as a whole under the meter
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, Use) {
    begin();
    let t = f();
    end();
    (t, last().unwrap_or_default())
}
