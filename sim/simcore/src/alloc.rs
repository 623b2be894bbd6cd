//! A deterministic allocator: two fixed-address arenas, one for the controller
//! ("host") and one for the simulated program ("sim"), so that every address
//! the simulated program sees is a pure function of its own history.
use crate::raw;
use std::alloc::{GlobalAlloc, Layout};

const HOST_BASE: usize = 0x1000_0000_0000;
const SIM_BASE: usize = 0x2000_0000_0000;
const ARENA: usize = 64 << 30;
const NCLASS: usize = 160;

struct Arena {
    base: usize,
    next: usize,
    free: [usize; NCLASS],
}
static mut HOST: Arena = Arena { base: HOST_BASE, next: 0, free: [0; NCLASS] };
static mut SIMA: Arena = Arena { base: SIM_BASE, next: 0, free: [0; NCLASS] };
static mut USE_SIM: bool = false;

/// Route allocations to the simulation arena from now on.
pub fn enter_sim_arena() {
    unsafe { USE_SIM = true }
}
pub fn sim_arena_used() -> usize {
    unsafe { if SIMA.next == 0 { 0 } else { SIMA.next - SIMA.base } }
}

#[inline]
fn class_of(size: usize) -> (usize, usize) {
    // 16-byte steps to 256, then 4 steps per power of two.
    if size <= 256 {
        let c = (size + 15) / 16;
        let c = if c == 0 { 1 } else { c };
        (c - 1, c * 16)
    } else {
        let p = usize::BITS as usize - 1 - (size - 1).leading_zeros() as usize; // 2^p <= size-1 < 2^(p+1)
        let base = 1usize << p;
        let step = base / 4;
        let k = (size - base + step - 1) / step; // 1..=4
        (16 + (p - 8) * 4 + (k - 1), base + k * step)
    }
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let arena = if USE_SIM { &mut *core::ptr::addr_of_mut!(SIMA) } else { &mut *core::ptr::addr_of_mut!(HOST) };
        let size = l.size().max(l.align());
        let (c, sz) = class_of(size);
        if arena.next == 0 {
            let r = raw::mmap(arena.base, ARENA, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE);
            if r != arena.base as i64 {
                raw::eprint("dst: cannot map arena\n");
                raw::exit_group(3);
            }
            arena.next = arena.base;
        }
        // sizes are multiples of 16; bigger alignments get naturally aligned blocks
        if l.align() <= 16 {
            let f = arena.free[c];
            if f != 0 {
                arena.free[c] = *(f as *const usize);
                return f as *mut u8;
            }
            let p = arena.next;
            arena.next += sz;
            if arena.next > arena.base + ARENA {
                return core::ptr::null_mut();
            }
            p as *mut u8
        } else {
            // rare: never recycled
            let p = (arena.next + l.align() - 1) & !(l.align() - 1);
            arena.next = p + ((l.size() + 15) & !15);
            p as *mut u8
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return;
        }
        let arena = if (p as usize) >= SIM_BASE { &mut *core::ptr::addr_of_mut!(SIMA) } else { &mut *core::ptr::addr_of_mut!(HOST) };
        let (c, _) = class_of(l.size().max(l.align()));
        *(p as *mut usize) = arena.free[c];
        arena.free[c] = p as usize;
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let (c0, _) = class_of(l.size().max(l.align()));
        let (c1, _) = class_of(new.max(l.align()));
        if c0 == c1 && l.align() <= 16 {
            return p;
        }
        let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !n.is_null() {
            core::ptr::copy_nonoverlapping(p, n, l.size().min(new));
            self.dealloc(p, l);
        }
        n
    }
}
