//! Guard-page memory: buffers that end exactly at an inaccessible page, so that an access outside
//! the buffer kills the (child) process, which the parent records as a "crash" event.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
const PAGE: usize = 4096;
/// Guarded allocations are recognised by address: they all come from this reserved arena range.
pub static ARMED: AtomicBool = AtomicBool::new(false);
/// false: data ends at the guard page behind it; true: data starts at the guard page before it.
pub static FRONT: AtomicBool = AtomicBool::new(false);

fn map(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0);
        if p as isize == -1 {
            return std::ptr::null_mut();
        }
        p
    }
}

/// Layout: [guard page][header page][guard page][data pages][guard page]
unsafe fn guarded(size: usize, align: usize) -> *mut u8 {
    let data = size.div_ceil(PAGE).max(1) * PAGE;
    let total = data + 2 * PAGE;
    let base = map(total);
    if base.is_null() {
        return base;
    }
    mprotect(base, PAGE, 0);
    mprotect(base.add(PAGE + data), PAGE, 0);
    if FRONT.load(Ordering::Relaxed) {
        base.add(PAGE)
    } else {
        let off = (data - size) / align * align;
        base.add(PAGE + off)
    }
}
unsafe fn unguard(ptr: *mut u8, size: usize) {
    let data = size.div_ceil(PAGE).max(1) * PAGE;
    let start = (ptr as usize) / PAGE * PAGE;
    munmap((start - PAGE) as *mut u8, data + 2 * PAGE);
}

pub struct GuardAlloc;
const MAGIC_MIN: usize = 24;
// Guarded blocks come straight from mmap: a small lock-free table remembers them.
const SLOTS: usize = 1 << 16;
static TABLE: [std::sync::atomic::AtomicUsize; SLOTS] =
    [const { std::sync::atomic::AtomicUsize::new(0) }; SLOTS];
fn slot(p: usize) -> usize {
    (p >> 12).wrapping_mul(0x9E3779B97F4A7C15) >> 48
}
fn remember(p: usize) -> bool {
    let s = slot(p);
    for k in 0..64 {
        let i = (s + k) & (SLOTS - 1);
        if TABLE[i].compare_exchange(0, p, Ordering::AcqRel, Ordering::Relaxed).is_ok() {
            return true;
        }
    }
    false
}
fn forget(p: usize) -> bool {
    let s = slot(p);
    for k in 0..64 {
        let i = (s + k) & (SLOTS - 1);
        if TABLE[i].compare_exchange(p, 0, Ordering::AcqRel, Ordering::Relaxed).is_ok() {
            return true;
        }
    }
    false
}

unsafe impl GlobalAlloc for GuardAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.load(Ordering::Relaxed) && l.size() >= MAGIC_MIN && l.align() <= 64 {
            let p = guarded(l.size(), l.align());
            if !p.is_null() {
                if remember(p as usize) {
                    std::ptr::write_bytes(p, 0xC3, l.size());
                    return p;
                }
                unguard(p, l.size());
            }
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARMED.load(Ordering::Relaxed) && l.size() >= MAGIC_MIN && l.align() <= 64 {
            let p = guarded(l.size(), l.align());
            if !p.is_null() {
                if remember(p as usize) {
                    return p;
                }
                unguard(p, l.size());
            }
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= MAGIC_MIN && l.align() <= 64 && forget(p as usize) {
            unguard(p, l.size());
            return;
        }
        System.dealloc(p, l)
    }
}

/// A guarded slice owned by the driver.
pub struct Guarded<T> {
    ptr: *mut T,
    len: usize,
    key: Key,
}
/// Blocks are used again: successive images of one size and role live at one address, as the frames
/// of a video do, so that anything remembered by address meets other contents there.
type Key = (u8, usize, usize, bool);
static KEPT: std::sync::Mutex<Vec<(Key, usize)>> = std::sync::Mutex::new(Vec::new());
impl<T: Copy> Guarded<T> {
    pub fn new(v: &[T], role: u8) -> Self {
        let size = std::mem::size_of_val(v);
        let key = (role, size.max(1), std::mem::align_of::<T>(), FRONT.load(Ordering::Relaxed));
        let kept = {
            let mut k = KEPT.lock().unwrap();
            k.iter().rposition(|(q, _)| *q == key).map(|i| k.remove(i).1)
        };
        let ptr = kept.unwrap_or_else(|| unsafe { guarded(key.1, key.2) } as usize) as *mut T;
        assert!(!ptr.is_null(), "driver: mmap failed");
        // A zero-length slice still needs an aligned pointer.
        let ptr = if size == 0 { (ptr as usize / PAGE * PAGE) as *mut T } else { ptr };
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), ptr, v.len()) };
        Guarded { ptr, len: v.len(), key }
    }
    pub fn get(&self) -> &'static [T] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    pub fn get_mut(&mut self) -> &'static mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}
impl<T> Drop for Guarded<T> {
    fn drop(&mut self) {
        if self.len == 0 {
            return unsafe { unguard(self.ptr as *mut u8, 1) };
        }
        let mut k = KEPT.lock().unwrap();
        if k.len() == 64 {
            let (old, p) = k.remove(0);
            unsafe { unguard(p as *mut u8, old.1) };
        }
        k.push((self.key, self.ptr as usize));
    }
}
