//! Counts the threads that are started: this definition of pthread_create takes the place of the
//! system's in this program and passes every call on to it.
use std::sync::atomic::{AtomicUsize, Ordering};

extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    fn sched_getaffinity(p: i32, n: usize, m: *mut u64) -> i32;
    fn sched_setaffinity(p: i32, n: usize, m: *const u64) -> i32;
}
static STARTED: AtomicUsize = AtomicUsize::new(0);
type Create = unsafe extern "C" fn(*mut u8, *const u8, *mut u8, *mut u8) -> i32;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u8, a: *const u8, f: *mut u8, x: *mut u8) -> i32 {
    const NEXT: *mut u8 = usize::MAX as *mut u8;
    let real = dlsym(NEXT, b"pthread_create\0".as_ptr());
    if real.is_null() {
        return 11; // EAGAIN
    }
    let r = std::mem::transmute::<*mut u8, Create>(real)(t, a, f, x);
    if r == 0 {
        STARTED.fetch_add(1, Ordering::SeqCst);
    }
    r
}

/// threads started by this program so far
pub fn started() -> usize {
    STARTED.load(Ordering::SeqCst)
}
/// from here on the program may use the first k of its processors
pub fn bind(k: usize) {
    let (mut have, mut want, mut left) = ([0u64; 16], [0u64; 16], k);
    unsafe { sched_getaffinity(0, 128, have.as_mut_ptr()) };
    for i in 0..1024 {
        if left > 0 && have[i / 64] >> (i % 64) & 1 == 1 {
            want[i / 64] |= 1 << (i % 64);
            left -= 1;
        }
    }
    assert_eq!(unsafe { sched_setaffinity(0, 128, want.as_ptr()) }, 0, "driver: processors");
}
