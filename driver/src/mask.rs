//! Hides CPU features from the code under test, so that one machine shows the paths that other
//! processors take. The standard library caches what it detected; the bits of the hidden features
//! are found by trying which one changes the answer, and cleared before any call is made.
use std::sync::atomic::{AtomicUsize, Ordering};

macro_rules! detect {
    ($n:expr, $($f:tt),*) => { match $n { $($f => std::arch::is_x86_feature_detected!($f),)* o => panic!("driver: feature {o}") } };
}
fn has(f: &str) -> bool {
    detect!(f, "sse4.1", "avx2", "fma", "f16c", "avx512f", "avx512bw", "avx512vnni", "avx512vbmi", "avx512fp16", "avxvnni")
}

#[no_mangle]
pub static PSDRV_ANCHOR: AtomicUsize = AtomicUsize::new(1);

fn u(b: &[u8], o: usize, n: usize) -> usize {
    b[o..o + n].iter().rev().fold(0, |a, &x| a << 8 | x as usize)
}
/// Address of the cache of the standard library, from the symbols of this program.
fn cache() -> Option<(usize, usize)> {
    let b = std::fs::read("/proc/self/exe").ok()?;
    let (shoff, shent, shnum) = (u(&b, 0x28, 8), u(&b, 0x3a, 2), u(&b, 0x3c, 2));
    let (mut anchor, mut found) = (None, None);
    for i in 0..shnum {
        let s = shoff + i * shent;
        if u(&b, s + 4, 4) != 2 {
            continue;
        }
        let (off, size, link) = (u(&b, s + 0x18, 8), u(&b, s + 0x20, 8), u(&b, s + 0x28, 4));
        let strs = u(&b, shoff + link * shent + 0x18, 8);
        for y in (off..off + size).step_by(24) {
            let n = strs + u(&b, y, 4);
            let e = n + b[n..].iter().position(|&c| c == 0)?;
            let name = std::str::from_utf8(&b[n..e]).ok()?;
            let at = (u(&b, y + 8, 8), u(&b, y + 16, 8));
            if name == "PSDRV_ANCHOR" {
                anchor = Some(at.0);
            } else if name.contains("std_detect") && name.contains("detect") && name.contains("5cache5CACHE") && at.1 > 0 {
                found = Some(at);
            }
        }
    }
    let bias = (&PSDRV_ANCHOR as *const _ as usize).wrapping_sub(anchor?);
    found.map(|(a, s)| (a.wrapping_add(bias), s))
}

pub fn hide(list: &str) {
    for f in list.split(',').filter(|f| !f.is_empty()) {
        if !has(f) {
            continue;
        }
        let (at, size) = cache().expect("driver: no feature cache");
        let words: &[AtomicUsize] = unsafe { std::slice::from_raw_parts(at as *const AtomicUsize, size / 8) };
        'search: for w in words {
            for bit in 0..63 {
                let old = w.load(Ordering::SeqCst);
                if old >> bit & 1 == 0 {
                    continue;
                }
                w.store(old & !(1 << bit), Ordering::SeqCst);
                if !has(f) {
                    break 'search;
                }
                w.store(old, Ordering::SeqCst);
            }
        }
        assert!(!has(f), "driver: {f} cannot be hidden");
    }
}
