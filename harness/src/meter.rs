//! Heap and stack an instruction uses
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static TOP: Cell<usize> = const { Cell::new(0) };
    static STACK: Cell<u64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
}

/// called by the instrumented build (cov-rustc.sh) for every basic block of the program
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_guard: *mut u32) {
    BLOCKS.with(|b| b.set(b.get().wrapping_add(1)));
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_start: *mut u32, _stop: *mut u32) {}

fn count(n: usize) {
    ON.with(|o| {
        if o.get() {
            BYTES.with(|b| b.set(b.get() + n as u64));
            BIGGEST.with(|b| b.set(b.get().max(n as u64)));
        }
    })
}

// SAFETY: everything is passed on to the system's allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    // on chain growing means allocating anew
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Use {
    /// bytes allocated in all; nothing is ever freed on chain
    pub heap: u64,
    pub biggest: u64,
    /// deepest point of the stack, bytes; 0 if not measured
    pub stack: u64,
    /// basic blocks executed; 0 if not instrumented
    pub work: u64,
}

/// not counted: what stands for the runtime
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    if !ON.with(|o| o.get()) {
        return f();
    }
    ON.with(|o| o.set(false));
    let top = TOP.with(|t| t.get());
    if top != 0 {
        STACK.with(|s| s.set(s.get().max(deepest(top))));
    }
    let r = f();
    if top != 0 {
        fill(top - PAINT);
    }
    ON.with(|o| o.set(true));
    r
}

const PAINT: usize = 1 << 20;
const MARK: u64 = 0x5AA5_C33C_9669_F00F;

/// paints the unused stack below this frame, down to `from`
#[inline(never)]
fn fill(from: usize) -> usize {
    let here = 0u8;
    let top = (std::hint::black_box(&here) as *const u8 as usize - 512) & !15;
    let mut p = from as *mut u64;
    while (p as usize) < top {
        // SAFETY: unused stack of this thread, which has 64 MB
        unsafe {
            std::ptr::write_volatile(p, MARK);
            p = p.add(1);
        }
    }
    top
}

#[inline(never)]
fn paint() -> usize {
    let here = 0u8;
    let top = (std::hint::black_box(&here) as *const u8 as usize) & !15;
    fill(top - PAINT);
    top
}

#[inline(never)]
fn deepest(top: usize) -> u64 {
    let p = (top - PAINT) as *const u64;
    for i in 0..PAINT / 8 {
        // SAFETY: as above
        if unsafe { std::ptr::read_volatile(p.add(i)) } != MARK {
            return (PAINT - i * 8) as u64;
        }
    }
    0
}

#[inline(never)]
pub fn measure<T>(stack: bool, f: impl FnOnce() -> T) -> (T, Use) {
    let top = if stack { paint() } else { 0 };
    BYTES.with(|b| b.set(0));
    BIGGEST.with(|b| b.set(0));
    STACK.with(|b| b.set(0));
    TOP.with(|t| t.set(top));
    ON.with(|o| o.set(true));
    let before = BLOCKS.with(|b| b.get());
    let r = f();
    let work = BLOCKS.with(|b| b.get()).wrapping_sub(before);
    ON.with(|o| o.set(false));
    TOP.with(|t| t.set(0));
    let stack = if stack { deepest(top).max(STACK.with(|s| s.get())) } else { 0 };
    (r, Use { heap: BYTES.with(|b| b.get()), biggest: BIGGEST.with(|b| b.get()), stack, work })
}
