//! Histories of operations on image containers. One plan line is one history:
//! `op=store ty=u8 n=3 ctor=new mut=1 w=4 h=2 len=24 acts=...`, with acts separated by `;`.
//! `a` is the container under test, `b` the last container derived from it. One event per step.
use crate::*;

enum Any<'a, T: Copy + std::fmt::Debug + Clone, const N: usize> {
    Im(ImageStore<'a, T, N>),
    Mut(ImageStoreMut<'a, T, N>),
    None,
}
impl<T: Resize<N>, const N: usize> Any<'_, T, N> {
    fn show(&self) -> String {
        let f = |w: usize, h: usize, ch: usize, st: usize, safe: usize, bd: usize, sz: ImageSize, d: &[T]| {
            format!(
                "{{\"w\":{w},\"h\":{h},\"ch\":{ch},\"stride\":{st},\"safe\":{safe},\"bd\":{bd},\"sw\":{},\"sh\":{},\"data\":{}}}",
                sz.width, sz.height, jarr(d.iter().map(|v| v.log()))
            )
        };
        match self {
            Any::Im(s) => f(s.width, s.height, s.channels, s.stride, s.stride(), s.bit_depth, s.get_size(), s.as_bytes()),
            Any::Mut(s) => f(s.width, s.height, s.channels, s.stride, s.stride(), s.bit_depth, s.get_size(), s.as_bytes()),
            Any::None => "{\"w\":0,\"h\":0,\"ch\":0,\"stride\":0,\"safe\":0,\"bd\":0,\"sw\":0,\"sh\":0,\"data\":[]}".into(),
        }
    }
}
fn val<T: Pix>(seed: i64, i: usize) -> T {
    T::from_int(((seed * 31 + i as i64 * 7) % 251).abs(), 8)
}
fn go<T: Resize<N>, const N: usize>(c: &Case) -> Vec<String> {
    // `up': sizes that no buffer can have
    let up = c.u("up", 0);
    let (w, h, len) = (c.u("w", 1) << up, c.u("h", 1) << up, c.u("len", 0));
    let m = c.i("mut", 0) == 1;
    let mut evs = vec![];
    let fill: Vec<T> = (0..len).map(|i| val::<T>(c.i("fill", 1), i)).collect();
    let mut back = fill.clone();
    let head = header(c);
    let mut emit = |step: usize, act: &str, arg: &[i64], res: &str, code: i64, err: &str, a: &Any<T, N>, b: &Any<T, N>| {
        evs.push(format!(
            "{{{head}\"step\":{step},\"act\":{},\"arg\":{},\"res\":\"{res}\",\"code\":{code},\"err\":{err},\"a\":{},\"b\":{}}}",
            jstr(act), jarr(arg.iter().copied()), a.show(), b.show()
        ));
    };
    let ctor = c.s("ctor", "new");
    let made: Result<Any<T, N>, PicScaleError> = match (ctor.as_str(), m) {
        ("new", false) => ImageStore::<T, N>::new(fill.clone(), w, h).map(Any::Im),
        ("new", true) => ImageStoreMut::<T, N>::new(fill.clone(), w, h).map(Any::Mut),
        ("borrow", false) => ImageStore::<T, N>::borrow(&fill, w, h).map(Any::Im),
        ("borrow", true) => ImageStoreMut::<T, N>::borrow(&mut back, w, h).map(Any::Mut),
        ("from_slice", false) => ImageStore::<T, N>::from_slice(&fill, w, h).map(Any::Im),
        ("from_slice", true) => ImageStoreMut::<T, N>::from_slice(&mut back, w, h).map(Any::Mut),
        ("alloc", false) => Ok(Any::Im(ImageStore::<T, N>::alloc(w, h))),
        ("alloc", true) => Ok(Any::Mut(ImageStoreMut::<T, N>::alloc(w, h))),
        ("depth", _) => Ok(Any::Mut(ImageStoreMut::<T, N>::alloc_with_depth(w, h, c.u("depth", 0)))),
        ("parts", true) => Ok(Any::Mut(ImageStoreMut::<T, N> {
            buffer: BufferStore::Owned(fill.clone()), channels: N, width: w, height: h, stride: c.u("stride", 0), bit_depth: c.u("depth", 0),
        })),
        ("parts", false) => Ok(Any::Im(ImageStore::<T, N> {
            buffer: std::borrow::Cow::Borrowed(&fill), channels: N, width: w, height: h, stride: c.u("stride", 0), bit_depth: c.u("depth", 0),
        })),
        (k, _) => panic!("driver: ctor {k}"),
    };
    let mut a = match made {
        Ok(a) => {
            emit(0, "ctor", &[], "ok", 0, "[]", &a, &Any::None);
            a
        }
        Err(e) => {
            let d = match &e {
                PicScaleError::BufferMismatch(b) if up > 0 => jarr([b.width >> up, b.height >> up, b.channels, b.slice_len].iter().map(|&v| v as i64)),
                PicScaleError::BufferMismatch(b) => jarr([b.expected, b.width, b.height, b.channels, b.slice_len].iter().map(|&v| v as i64)),
                _ => "[]".into(),
            };
            emit(0, "ctor", &[], "err", e.code() as i64, &d, &Any::None, &Any::None);
            return evs;
        }
    };
    let mut b: Any<T, N> = Any::None;
    for (k, t) in c.s("acts", "").split(';').filter(|t| !t.is_empty()).enumerate() {
        let p: Vec<&str> = t.split(':').collect();
        let n: Vec<i64> = p[1..].iter().map(|v| v.parse().expect("driver: act")).collect();
        let put = |s: &mut Any<T, N>| match s {
            Any::Mut(s) => s.buffer.borrow_mut()[n[0] as usize] = T::from_int(n[1], 8),
            Any::Im(s) => s.buffer.to_mut()[n[0] as usize] = T::from_int(n[1], 8),
            Any::None => panic!("driver: write to nothing"),
        };
        match p[0] {
            "wa" => put(&mut a),
            "wb" => put(&mut b),
            "da" => match &mut a {
                Any::Mut(s) => s.bit_depth = n[0] as usize,
                Any::Im(s) => s.bit_depth = n[0] as usize,
                _ => {}
            },
            "copied" => b = match &a {
                Any::Im(s) => Any::Im(s.copied()),
                Any::Mut(s) => Any::Mut(s.copied()),
                _ => Any::None,
            },
            "freeze" => b = match &a {
                // an immutable container has nothing to freeze: copied() is its counterpart
                Any::Im(s) => Any::Im(s.copied()),
                Any::Mut(s) => {
                    let f = s.to_immutable();
                    Any::Im(ImageStore { buffer: std::borrow::Cow::Owned(f.buffer.into_owned()), channels: f.channels, width: f.width, height: f.height, stride: f.stride, bit_depth: f.bit_depth })
                }
                _ => Any::None,
            },
            // copy into a destination of the same size and a stride of its own
            "into" => {
                let st = n[0] as usize;
                let (w, h) = match &a { Any::Im(s) => (s.width, s.height), Any::Mut(s) => (s.width, s.height), _ => (0, 0) };
                let eff = if st == 0 { w * N } else { st };
                let mut d = ImageStoreMut::<T, N> {
                    buffer: BufferStore::Owned((0..eff * h).map(|i| val::<T>(n[1], i)).collect()),
                    channels: N, width: w, height: h, stride: st, bit_depth: n[2] as usize,
                };
                match &a {
                    Any::Im(s) => s.copied_to_mut(&mut d),
                    Any::Mut(s) => s.to_immutable().copied_to_mut(&mut d),
                    _ => {}
                }
                b = Any::Mut(d);
            }
            // the copy becomes the container under test
            "swap" => std::mem::swap(&mut a, &mut b),
            x => panic!("driver: act {x}"),
        }
        emit(k + 1, p[0], &n, "ok", 0, "[]", &a, &b);
    }
    // what is left in the caller's buffer
    let none: Any<T, N> = Any::None;
    let home = jarr((if m { &back } else { &fill }).iter().map(|v| v.log()));
    evs.push(format!(
        "{{{head}\"step\":99,\"act\":\"end\",\"arg\":[],\"res\":\"ok\",\"code\":0,\"err\":[],\"home\":{home},\"a\":{},\"b\":{}}}",
        none.show(), none.show()
    ));
    evs
}

/// What the names of the containers stand for.
trait Named {
    const SAMPLE: &'static str;
    const N: usize;
    const MUTABLE: bool;
}
macro_rules! named {
    ($($t:ident)*) => {$(
        impl<const C: usize> Named for ImageStore<'_, $t, C> { const SAMPLE: &'static str = stringify!($t); const N: usize = C; const MUTABLE: bool = false; }
        impl<const C: usize> Named for ImageStoreMut<'_, $t, C> { const SAMPLE: &'static str = stringify!($t); const N: usize = C; const MUTABLE: bool = true; }
    )*};
}
named!(u8 u16 f32);
#[cfg(feature = "half")]
named!(f16);
pub fn run_alias(c: &Case) -> Vec<String> {
    let head = header(c);
    let mut evs = vec![];
    macro_rules! alias {
        ($($k:literal $s:literal $t:ident $m:ident;)*) => {$(
            evs.push(format!("{{{head}\"kind\":\"{}\",\"sample\":\"{}\",\"mut\":false,\"n\":{},\"ty\":\"{}\",\"mutable\":{}}}", $k, $s, <$t as Named>::N, <$t as Named>::SAMPLE, <$t as Named>::MUTABLE));
            evs.push(format!("{{{head}\"kind\":\"{}\",\"sample\":\"{}\",\"mut\":true,\"n\":{},\"ty\":\"{}\",\"mutable\":{}}}", $k, $s, <$m as Named>::N, <$m as Named>::SAMPLE, <$m as Named>::MUTABLE));
        )*};
    }
    alias! {
        "Planar" "8" Planar8ImageStore Planar8ImageStoreMut; "CbCr" "8" CbCr8ImageStore CbCr8ImageStoreMut;
        "Rgb" "8" Rgb8ImageStore Rgb8ImageStoreMut; "Rgba" "8" Rgba8ImageStore Rgba8ImageStoreMut;
        "Planar" "16" Planar16ImageStore Planar16ImageStoreMut; "CbCr" "16" CbCr16ImageStore CbCr16ImageStoreMut;
        "Rgb" "16" Rgb16ImageStore Rgb16ImageStoreMut; "Rgba" "16" Rgba16ImageStore Rgba16ImageStoreMut;
        "Planar" "F32" PlanarF32ImageStore PlanarF32ImageStoreMut; "CbCr" "F32" CbCrF32ImageStore CbCrF32ImageStoreMut;
        "Rgb" "F32" RgbF32ImageStore RgbF32ImageStoreMut; "Rgba" "F32" RgbaF32ImageStore RgbaF32ImageStoreMut;
    }
    #[cfg(feature = "half")]
    alias! {
        "Planar" "F16" PlanarF16ImageStore PlanarF16ImageStoreMut; "CbCr" "F16" CbCrF16ImageStore CbCrF16ImageStoreMut;
        "Rgb" "F16" RgbF16ImageStore RgbF16ImageStoreMut; "Rgba" "F16" RgbaF16ImageStore RgbaF16ImageStoreMut;
    }
    evs
}
pub fn run_store(c: &Case) -> Vec<String> {
    macro_rules! t {
        ($t:ty) => {
            match c.i("n", 1) { 1 => go::<$t, 1>(c), 2 => go::<$t, 2>(c), 3 => go::<$t, 3>(c), 4 => go::<$t, 4>(c), _ => panic!("driver: n") }
        };
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match c.s("ty", "u8").as_str() {
        "u8" => t!(u8),
        "u16" => t!(u16),
        "f32" => t!(f32),
        #[cfg(feature = "half")]
        "f16" => t!(f16),
        t => panic!("driver: type {t}"),
    }));
    match r {
        Ok(e) => e,
        Err(p) => {
            let m = outcome(Err(p)).msg;
            vec![format!("{{{}\"step\":0,\"act\":\"panic\",\"arg\":[],\"res\":\"panic\",\"code\":-1,\"err\":[],\"msg\":{},\"a\":{{}},\"b\":{{}}}}", header(c), jstr(&m))]
        }
    }
}
