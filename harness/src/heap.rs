//! A global allocator that counts what the current thread allocates and frees while it is armed,
//! and how much of what a thread allocated as a member of a group is still held, by whatever thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};

pub struct Counting;

const GROUPS: usize = 64;
static LIVE: [AtomicI64; GROUPS] = [const { AtomicI64::new(0) }; GROUPS];

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static MAX_FREE: Cell<usize> = const { Cell::new(0) };
    static GROUP: Cell<usize> = const { Cell::new(0) };
}

fn note(alloc: bool, size: usize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            if alloc {
                ALLOCS.with(|c| c.set(c.get() + 1));
            } else {
                FREES.with(|c| c.set(c.get() + 1));
                MAX_FREE.with(|c| c.set(c.get().max(size)));
            }
        }
    });
}

/// Every block begins with the group it belongs to; as long as its alignment asks for.
fn room(l: Layout) -> usize {
    l.align().max(16)
}

fn whole(l: Layout, size: usize) -> Layout {
    unsafe { Layout::from_size_align_unchecked(room(l) + size, room(l)) }
}

unsafe fn enrol(base: *mut u8, l: Layout) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let group = GROUP.try_with(|g| g.get()).unwrap_or(0);
    *(base as *mut usize) = group;
    if group != 0 {
        LIVE[group].fetch_add(l.size() as i64, Ordering::SeqCst);
    }
    base.add(room(l))
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(true, l.size());
        enrol(System.alloc(whole(l, l.size())), l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(false, l.size());
        let base = p.sub(room(l));
        let group = *(base as *const usize);
        if group != 0 {
            LIVE[group].fetch_sub(l.size() as i64, Ordering::SeqCst);
        }
        System.dealloc(base, whole(l, l.size()))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(true, l.size());
        enrol(System.alloc_zeroed(whole(l, l.size())), l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(true, n);
        let base = System.realloc(p.sub(room(l)), whole(l, l.size()), room(l) + n);
        if base.is_null() {
            return base;
        }
        let group = *(base as *const usize);
        if group != 0 {
            LIVE[group].fetch_add(n as i64 - l.size() as i64, Ordering::SeqCst);
        }
        base.add(room(l))
    }
}

/// While it lives, what this thread allocates is counted until it is freed.
pub struct Group(usize);

impl Group {
    pub fn new() -> Group {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        thread_local!(static MINE: usize = 1 + NEXT.fetch_add(1, Ordering::SeqCst) % (GROUPS - 1));
        let mine = MINE.with(|m| *m);
        GROUP.with(|g| g.set(mine));
        Group(mine)
    }

    /// Bytes held at present.
    pub fn held(&self) -> i64 {
        LIVE[self.0].load(Ordering::SeqCst)
    }
}

impl Drop for Group {
    fn drop(&mut self) {
        GROUP.with(|g| g.set(0));
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Counts {
    pub allocs: u64,
    pub frees: u64,
    /// Size of the largest block freed.
    pub max_free: usize,
}

/// Count heap operations of this thread during `f`.
pub fn counted<T>(f: impl FnOnce() -> T) -> (T, Counts) {
    ALLOCS.with(|c| c.set(0));
    FREES.with(|c| c.set(0));
    MAX_FREE.with(|c| c.set(0));
    ARMED.with(|a| a.set(true));
    let r = f();
    ARMED.with(|a| a.set(false));
    (r, Counts { allocs: ALLOCS.with(|c| c.get()), frees: FREES.with(|c| c.get()), max_free: MAX_FREE.with(|c| c.get()) })
}

/// Switch counting off, after a panic inside `counted`.
pub fn disarm() {
    ARMED.with(|a| a.set(false));
}

/// How often this thread has given up the processor to wait for something.
pub fn waits() -> i64 {
    #[repr(C)]
    struct Usage([i64; 18]);
    extern "C" {
        fn getrusage(who: i32, usage: *mut Usage) -> i32;
    }
    const THREAD: i32 = 1;
    let mut u = Usage([0; 18]);
    // user and system time take four words; voluntary switches are the last but one of the fourteen counts.
    unsafe { getrusage(THREAD, &mut u) };
    u.0[16]
}
