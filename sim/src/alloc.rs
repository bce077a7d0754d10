//! A per-thread caching allocator. The workers allocate many short-lived vectors per simulated run
//! and would otherwise spend most of their time waiting for libc's arena lock.
//!
//! Blocks up to 64 KiB come in power-of-two classes and go back to the free list of the thread that
//! frees them; everything else goes straight to libc.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;

const MIN: u32 = 4;
const MAX: u32 = 16;
const N: usize = (MAX - MIN + 1) as usize;
const CHUNK: usize = 1 << 20;

thread_local! {
    static FREE: [Cell<*mut u8>; N] = const { [const { Cell::new(null_mut()) }; N] };
    static BUMP: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

pub struct Caching;

fn class(l: &Layout) -> Option<u32> {
    let c = l.size().max(l.align()).max(1 << MIN).next_power_of_two().trailing_zeros();
    // chunks are 4 KiB aligned, so classes are aligned to their size only up to that
    (c <= MAX && l.align() <= 4096).then_some(c)
}

unsafe impl GlobalAlloc for Caching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(c) = class(&l) else { return System.alloc(l) };
        FREE.with(|f| {
            let f = &f[(c - MIN) as usize];
            let p = f.get();
            if !p.is_null() {
                f.set(*(p as *mut *mut u8));
                return p;
            }
            let size = 1usize << c;
            BUMP.with(|b| {
                let (mut at, mut end) = b.get();
                at = (at + size.min(4096) - 1) & !(size.min(4096) - 1);
                if at + size > end {
                    let p = System.alloc(Layout::from_size_align_unchecked(CHUNK, 4096)) as usize;
                    if p == 0 {
                        return null_mut();
                    }
                    (at, end) = (p, p + CHUNK);
                }
                b.set((at + size, end));
                at as *mut u8
            })
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some(c) = class(&l) else { return System.dealloc(p, l) };
        FREE.with(|f| {
            let f = &f[(c - MIN) as usize];
            *(p as *mut *mut u8) = f.get();
            f.set(p);
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        match (class(&l), class(&nl)) {
            (None, None) => System.realloc(p, l, new),
            (Some(a), Some(b)) if a == b => p,
            _ => {
                let q = self.alloc(nl);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}
