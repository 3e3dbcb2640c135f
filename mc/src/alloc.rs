//! A counting allocator: peak of the bytes live on this thread since `begin`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| {
                let v = l.get() + n;
                l.set(v);
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        let p = System.alloc(l);
        born(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        let p = System.alloc_zeroed(l);
        born(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        gone(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Growing may copy: both blocks can be live at once.
        add(n as isize);
        gone(p);
        let q = System.realloc(p, l, n);
        born(q, n);
        add(-(l.size() as isize));
        q
    }
}

// ------------------------------------------------ blocks allocated by this thread and still live

const SLOTS: usize = 64;

thread_local! {
    /// Whose blocks are noted; 0 is nobody's.
    static WATCH: Cell<u8> = const { Cell::new(0) };
    static BLOCKS: Cell<usize> = const { Cell::new(0) };
    static LIST: [Cell<(usize, usize, u8)>; SLOTS] = const { [const { Cell::new((0, 0, 0)) }; SLOTS] };
}

fn born(p: *mut u8, n: usize) {
    let _ = WATCH.try_with(|w| {
        if w.get() > 0 && !p.is_null() {
            LIST.with(|l| {
                if let Some(c) = l.iter().find(|c| c.get().0 == 0) {
                    c.set((p as usize, n, w.get()));
                    BLOCKS.with(|b| b.set(b.get() + 1));
                }
            });
        }
    });
}

fn gone(p: *mut u8) {
    let _ = BLOCKS.try_with(|b| {
        if b.get() > 0 {
            LIST.with(|l| {
                if let Some(c) = l.iter().find(|c| c.get().0 == p as usize) {
                    c.set((0, 0, 0));
                    b.set(b.get() - 1);
                }
            });
        }
    });
}

/// Forgets the list.
#[allow(dead_code)]
pub fn forget() {
    LIST.with(|l| l.iter().for_each(|c| c.set((0, 0, 0))));
    BLOCKS.with(|b| b.set(0));
}

/// Blocks that outlive what they were allocated for.
pub const LASTING: u8 = 255;

/// Forgets the list, but for what is still live: it lasts.
#[allow(dead_code)]
pub fn keep() {
    LIST.with(|l| {
        l.iter().for_each(|c| {
            if c.get().0 != 0 {
                c.set((c.get().0, c.get().1, LASTING))
            }
        })
    });
}

/// Forgets the list, but for what lasts.
#[allow(dead_code)]
pub fn forget_new() {
    LIST.with(|l| {
        l.iter().for_each(|c| {
            if c.get().0 != 0 && c.get().2 != LASTING {
                c.set((0, 0, 0));
                BLOCKS.with(|b| b.set(b.get() - 1));
            }
        })
    });
}

/// The program's writable static memory, and this thread's.
#[allow(dead_code)]
pub fn statics() -> Vec<Vec<u8>> {
    let mut found: (Vec<(usize, usize)>, usize) = (vec![], 0);
    unsafe extern "C" fn object(i: *mut libc::dl_phdr_info, _: libc::size_t, to: *mut libc::c_void) -> libc::c_int {
        let (i, to) = (&*i, &mut *(to as *mut (Vec<(usize, usize)>, usize)));
        for k in 0..i.dlpi_phnum as usize {
            let p = &*i.dlpi_phdr.add(k);
            if p.p_type == libc::PT_LOAD && p.p_flags & libc::PF_W != 0 {
                to.0.push((i.dlpi_addr as usize + p.p_vaddr as usize, p.p_memsz as usize));
            }
            if p.p_type == libc::PT_TLS {
                let a = p.p_align.max(1) as usize;
                to.1 = (p.p_memsz as usize + a - 1) / a * a;
            }
        }
        // The first object is the program itself.
        1
    }
    unsafe { libc::dl_iterate_phdr(Some(object), &mut found as *mut _ as *mut libc::c_void) };
    let read = |at: usize, n: usize| -> Vec<u8> { (0..n).map(|i| unsafe { (at as *const u8).add(i).read_volatile() }).collect() };
    let mut v: Vec<Vec<u8>> = found.0.iter().map(|(at, n)| read(*at, *n)).collect();
    #[cfg(target_arch = "x86_64")]
    {
        let tp: usize;
        unsafe { core::arch::asm!("mov {}, fs:0", out(reg) tp) };
        v.push(read(tp - found.1, found.1));
    }
    v
}

/// Remembers the blocks allocated by this call.
#[allow(dead_code)]
pub fn watching<T>(f: impl FnOnce() -> T) -> T {
    watching_for(1, f)
}

/// Remembers the blocks allocated by this call as this owner's.
#[allow(dead_code)]
pub fn watching_for<T>(owner: u8, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            WATCH.with(|w| w.set(0));
        }
    }
    let _off = Off;
    WATCH.with(|w| w.set(owner));
    f()
}

/// Address and length of the blocks that are still live.
#[allow(dead_code)]
pub fn blocks() -> Vec<(usize, usize)> {
    LIST.with(|l| l.iter().map(|c| c.get()).filter(|b| b.0 != 0).map(|b| (b.0, b.1)).collect())
}

/// The contents of this owner's blocks that are still live.
#[allow(dead_code)]
pub fn watched(owner: u8) -> Vec<Vec<u8>> {
    LIST.with(|l| {
        l.iter()
            .map(|c| c.get())
            .filter(|b| b.0 != 0 && b.2 == owner)
            .map(|(p, n, _)| (0..n).map(|i| unsafe { (p as *const u8).add(i).read_volatile() }).collect())
            .collect()
    })
}

pub fn begin() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    ON.with(|o| o.set(true));
}

pub fn end() -> usize {
    ON.with(|o| o.set(false));
    PEAK.with(|p| p.get().max(0) as usize)
}
