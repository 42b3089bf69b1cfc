//! Memory for simulated processes at addresses that depend on nothing but the run itself: the
//! scheduler looks for conflicting accesses by address, so addresses must repeat with the seed.
use crate::sched::{cur, MAXT};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Arena;

const BASE: usize = 0x6100_0000_0000;
const SLAB0: usize = 4 << 30;
const SLAB: usize = 256 << 20;
const STACKS: usize = 0x6500_0000_0000;
const STACK0: usize = 64 << 20;
const STACK: usize = 4 << 20;

struct Heap {
    at: usize,
    end: usize,
    free: [usize; 48],
}
// the last one is for the warm-up that happens before a run is forked
static mut HEAPS: [Heap; MAXT + 1] = [const { Heap { at: 0, end: 0, free: [0; 48] } }; MAXT + 1];
static mut WARMING: bool = false;
static mut UP: bool = false;

fn region_len() -> usize {
    SLAB0 + MAXT * SLAB
}

pub unsafe fn setup() {
    if UP {
        return;
    }
    let fl = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE;
    let rw = libc::PROT_READ | libc::PROT_WRITE;
    let a = libc::mmap(BASE as *mut _, region_len(), rw, fl, -1, 0);
    let b = libc::mmap(STACKS as *mut _, STACK0 + MAXT * STACK, rw, fl, -1, 0);
    assert!(a as usize == BASE && b as usize == STACKS, "arena");
    for t in 0..=MAXT {
        let lo = if t == 0 { BASE } else { BASE + SLAB0 + (t - 1) * SLAB };
        HEAPS[t].at = lo;
        HEAPS[t].end = lo + if t == 0 { SLAB0 } else { SLAB };
    }
    UP = true;
}

pub fn warming(on: bool) {
    unsafe { WARMING = on }
}

/// (lowest address, size) of the stack for simulated thread `tid`
pub unsafe fn stack(tid: usize) -> (usize, usize) {
    if tid == 0 {
        (STACKS, STACK0)
    } else {
        let lo = STACKS + STACK0 + (tid - 1) * STACK;
        // a page that faults between stacks
        libc::mprotect(lo as *mut _, 4096, libc::PROT_NONE);
        (lo + 4096, STACK - 4096)
    }
}

unsafe fn heap() -> *mut Heap {
    let t = cur();
    if !t.is_null() {
        &mut HEAPS[(*t).tid]
    } else if WARMING {
        &mut HEAPS[MAXT]
    } else {
        std::ptr::null_mut()
    }
}

fn class(l: &Layout) -> usize {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = if UP { heap() } else { std::ptr::null_mut() };
        if h.is_null() {
            return System.alloc(l);
        }
        let h = &mut *h;
        let c = class(&l);
        let p = h.free[c];
        if p != 0 {
            h.free[c] = *(p as *const usize);
            return p as *mut u8;
        }
        let size = 1usize << c;
        let at = (h.at + l.align() - 1) & !(l.align() - 1);
        if at + size > h.end {
            return System.alloc(l);
        }
        h.at = at + size;
        at as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >= BASE && a < BASE + region_len() {
            let h = heap();
            if !h.is_null() {
                let h = &mut *h;
                let c = class(&l);
                *(a as *mut usize) = h.free[c];
                h.free[c] = a;
            }
            return;
        }
        System.dealloc(p, l)
    }
}
