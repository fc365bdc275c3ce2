//! An allocator that follows the blocks allocated while a call into the C API is in progress.
//! A followed block that is released is kept aside, overwritten, until the case ends: its
//! address is not handed out again, and releasing it again is noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const PLAIN: u64 = 0x504c_4149_4e5f_626c;
const LIVE: u64 = 0x4c49_5645_5f62_6c6b;
const DEAD: u64 = 0x4445_4144_5f62_6c6b;
const HEAD: usize = 32;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    next: usize,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static FAULTS: Cell<i64> = const { Cell::new(0) };
    static ASIDE: Cell<usize> = const { Cell::new(0) };
}

pub struct Meter;

fn pad(align: usize) -> usize {
    HEAD.max(align)
}
unsafe fn outer(size: usize, align: usize) -> Layout {
    Layout::from_size_align_unchecked(size + pad(align), align.max(16))
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let base = System.alloc(outer(l.size(), l.align()));
        if base.is_null() {
            return base;
        }
        let p = base.add(pad(l.align()));
        let on = ON.try_with(|o| o.get()).unwrap_or(false);
        let h = p.sub(HEAD) as *mut Head;
        h.write(Head { magic: if on { LIVE } else { PLAIN }, size: l.size(), align: l.align(), next: 0 });
        if on {
            BLOCKS.with(|c| c.set(c.get() + 1));
            BYTES.with(|c| c.set(c.get() + l.size() as i64));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *mut Head;
        match (*h).magic {
            PLAIN => System.dealloc(p.sub(pad(l.align())), outer(l.size(), l.align())),
            LIVE => {
                if (*h).size != l.size() || (*h).align != l.align() {
                    FAULTS.with(|c| c.set(c.get() + 1));
                }
                BLOCKS.with(|c| c.set(c.get() - 1));
                BYTES.with(|c| c.set(c.get() - (*h).size as i64));
                p.write_bytes(0x5b, (*h).size);
                (*h).magic = DEAD;
                (*h).next = ASIDE.with(|c| c.replace(p as usize));
            }
            _ => FAULTS.with(|c| c.set(c.get() + 1)),
        }
    }
}

/// Runs a call whose allocations are followed.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    r
}
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(was));
    r
}

/// Starts a case.
pub fn reset() {
    ON.with(|o| o.set(false));
    BLOCKS.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    FAULTS.with(|c| c.set(0));
    let mut p = ASIDE.with(|c| c.replace(0));
    while p != 0 {
        unsafe {
            let q = p as *mut u8;
            let h = q.sub(HEAD) as *mut Head;
            let (size, align, next) = ((*h).size, (*h).align, (*h).next);
            System.dealloc(q.sub(pad(align)), outer(size, align));
            p = next;
        }
    }
}
/// Followed blocks alive, their bytes, and releases of something not alive.
pub fn balance() -> (i64, i64, i64) {
    (BLOCKS.with(|c| c.get()), BYTES.with(|c| c.get()), FAULTS.with(|c| c.get()))
}
