//! psdrv: executes a plan of calls against pic-scale and logs one JSON event per call.
//!
//! `psdrv run PLAN OUT` runs the plan in a child process (`psdrv exec PLAN OUT START`), so that a
//! crash or hang of the code under test becomes an event of the trace instead of ending the driver.
#![cfg_attr(feature = "half", feature(f16))]
mod guard;
mod mask;
mod threads;
mod stores;
#[cfg(feature = "colors")]
mod colours;
use guard::{Guarded, ARMED, FRONT};
use pic_scale::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::sync::atomic::Ordering;

#[global_allocator]
static GLOBAL: guard::GuardAlloc = guard::GuardAlloc;

pub struct Case {
    pub kv: HashMap<String, String>,
}
impl Case {
    pub fn parse(l: &str) -> Case {
        let mut kv = HashMap::new();
        for t in l.split_whitespace() {
            let (k, v) = t.split_once('=').unwrap_or((t, "1"));
            kv.insert(k.to_string(), v.to_string());
        }
        Case { kv }
    }
    pub fn s(&self, k: &str, d: &str) -> String {
        self.kv.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn i(&self, k: &str, d: i64) -> i64 {
        match self.kv.get(k) {
            Some(v) => v.parse().unwrap_or_else(|_| panic!("driver: bad int {k}={v}")),
            None => d,
        }
    }
    pub fn u(&self, k: &str, d: usize) -> usize {
        match self.kv.get(k) {
            Some(v) => v.parse().unwrap_or_else(|_| panic!("driver: bad usize {k}={v}")),
            None => d,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.kv.contains_key(k)
    }
}

/// A pixel component type. `raw` is the bit pattern; `log` what the trace shows.
pub trait Pix: Copy + Clone + std::fmt::Debug + Default + Send + Sync + PartialEq + 'static {
    fn raw(self) -> u32;
    fn from_raw(r: u32) -> Self;
    fn from_int(v: i64, fs: i64) -> Self;
    fn log(self) -> i64;
}
impl Pix for u8 {
    fn raw(self) -> u32 { self as u32 }
    fn from_raw(r: u32) -> Self { r as u8 }
    fn from_int(v: i64, _: i64) -> Self { v as u8 }
    fn log(self) -> i64 { self as i64 }
}
impl Pix for u16 {
    fn raw(self) -> u32 { self as u32 }
    fn from_raw(r: u32) -> Self { r as u16 }
    fn from_int(v: i64, _: i64) -> Self { v as u16 }
    fn log(self) -> i64 { self as i64 }
}
fn flog(v: f64) -> i64 {
    if v.is_nan() {
        return 2147483647;
    }
    let s = (v / mag() * 65536.).round();
    if s >= 2147483646. { 2147483646 } else if s <= -2147483646. { -2147483646 } else { s as i64 }
}
// beyond 2^40: infinities and NaN
/// Float samples are 2^MAG times what patterns say and logs show.
static MAG: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
fn mag() -> f64 { 2f64.powi(MAG.load(Ordering::Relaxed)) }
fn real(v: i64, fs: i64) -> f64 {
    match v {
        0x100_0000_0000 => f64::INFINITY,
        -0x100_0000_0000 => f64::NEG_INFINITY,
        0x100_0000_0001 => f64::NAN,
        _ => v as f64 / (1i64 << fs) as f64 * mag(),
    }
}
impl Pix for f32 {
    fn raw(self) -> u32 { self.to_bits() }
    fn from_raw(r: u32) -> Self { f32::from_bits(r) }
    fn from_int(v: i64, fs: i64) -> Self { real(v, fs) as f32 }
    fn log(self) -> i64 { flog(self as f64) }
}
#[cfg(feature = "half")]
impl Pix for f16 {
    fn raw(self) -> u32 { self.to_bits() as u32 }
    fn from_raw(r: u32) -> Self { f16::from_bits(r as u16) }
    fn from_int(v: i64, fs: i64) -> Self { real(v, fs) as f16 }
    fn log(self) -> i64 { flog(self as f64) }
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn h(seed: u64, a: u64, b: u64, c: u64) -> u64 {
    mix(mix(mix(mix(seed).wrapping_add(a)).wrapping_add(b)).wrapping_add(c))
}

/// A logical image: only the visible components, tightly packed, as raw bit patterns.
#[derive(Clone)]
pub struct Img {
    pub w: usize,
    pub h: usize,
    pub n: usize,
    pub px: Vec<u32>,
}
pub fn digest(w: usize, h: usize, n: usize, px: &[u32]) -> String {
    let mut d: u64 = 0xcbf29ce484222325 ^ mix((w as u64) << 40 | (h as u64) << 8 | n as u64);
    for &p in px {
        d = (d ^ p as u64).wrapping_mul(0x100000001b3);
        d ^= d >> 29;
    }
    format!("{:016x}", mix(d))
}

/// Fills a logical image from a pattern description (see README of the driver in DESIGN.md).
fn pattern<T: Pix>(c: &Case, pat: &str, w: usize, hh: usize, n: usize, regs: &HashMap<String, Img>) -> Option<Img> {
    let fs = c.i("fs", 8);
    let p: Vec<&str> = pat.split(':').collect();
    let num = |i: usize| -> i64 { p[i].parse().unwrap_or_else(|_| panic!("driver: bad pattern {pat}")) };
    let mut px = Vec::with_capacity(w * hh * n);
    match p[0] {
        "reg" => {
            let r = regs.get(p[1])?;
            let r = transform(r, p.get(2).copied().unwrap_or(""), p.get(3).copied().unwrap_or(""));
            if r.w != w || r.h != hh || r.n != n {
                panic!("driver: register {} is {}x{}x{}, call wants {}x{}x{}", p[1], r.w, r.h, r.n, w, hh, n);
            }
            return Some(r);
        }
        // raw bit patterns: NaNs, infinities, values beyond the bit depth
        "bits" => {
            for i in 0..w * hh * n {
                px.push(T::from_raw(h(num(1) as u64, i as u64, 5, 6) as u32).raw());
            }
        }
        // row y is one at column y
        "eye" => {
            for y in 0..hh { for x in 0..w { for _ in 0..n { px.push(T::from_int(if x == y { num(1) } else { 0 }, fs).raw()); } } }
        }
        // a regular picture (all pixels, rows, columns or blocks alike, or smooth) with a few samples or pixels that differ:
        // spot:seed:kind:lo:hi:count:channel or a for all
        "spot" => {
            let (s, lo, hi) = (num(1) as u64, num(3), num(4));
            let ri = |v: u64| lo + (v % ((hi - lo + 1) as u64)) as i64;
            for y in 0..hh { for x in 0..w { for ch in 0..n {
                let (a, b) = match p[2] { "f" => (0, 0), "x" => (0, x), "y" => (y, 0), "b" => (y / 8, x / 8), "p" => (y % 3, x % 4), _ => (y, x) };
                let v = if p[2] == "z" { lo } else if p[2] == "s" { lo + ((x + y) as i64 * 3 + ch as i64 * 5) % (hi - lo + 1) } else { ri(h(s, a as u64, b as u64, ch as u64)) };
                px.push(T::from_int(v, fs).raw());
            } } }
            for i in 0..num(5) as u64 {
                let (x, y) = (h(s, i, 91, 0) as usize % w.max(1), h(s, i, 91, 1) as usize % hh.max(1));
                for ch in 0..n {
                    if p[6] != "a" && num(6) as usize % n != ch || w * hh == 0 { continue }
                    px[(y * w + x) * n + ch] = T::from_int(ri(h(s, i, 92, ch as u64)), fs).raw();
                }
            }
        }
        "data" => {
            let v: Vec<i64> = p[1].split(',').map(|t| t.parse().expect("driver: data")).collect();
            assert!(v.len() == w * hh * n, "driver: data length {} for {}x{}x{}", v.len(), w, hh, n);
            px.extend(v.iter().map(|&v| T::from_int(v, fs).raw()));
        }
        _ => {
            for y in 0..hh {
                for x in 0..w {
                    for ch in 0..n {
                        let ri = |s: u64, lo: i64, hi: i64| lo + (s % ((hi - lo + 1) as u64)) as i64;
                        let v: i64 = match p[0] {
                            "rand" => ri(h(num(1) as u64, y as u64, x as u64, ch as u64), num(2), num(3)),
                            // like rand, but the last channel comes from its own range
                            "randa" => {
                                let s = h(num(1) as u64, y as u64, x as u64, ch as u64);
                                if ch == n - 1 { ri(s, num(4), num(5)) } else { ri(s, num(2), num(3)) }
                            }
                            // like randa, with the colours of a pixel all alike
                            "gray" => {
                                let s = h(num(1) as u64, y as u64, x as u64, if ch == 3 { 3 } else { 0 });
                                if ch == 3 { ri(s, num(4), num(5)) } else { ri(s, num(2), num(3)) }
                            }
                            "ext" => if h(num(1) as u64, y as u64, x as u64, ch as u64) & 1 == 0 { num(2) } else { num(3) },
                            // rows all alike / columns all alike
                            "rx" => ri(h(num(1) as u64, 0, x as u64, ch as u64), num(2), num(3)),
                            "ry" => ri(h(num(1) as u64, y as u64, 0, ch as u64), num(2), num(3)),
                            "flat" => {
                                let v: Vec<i64> = p[1].split(',').map(|t| t.parse().unwrap()).collect();
                                v[ch % v.len()]
                            }
                            // every pixel of a row its own alpha (or per pixels one, with all colours); rows all alike
                            "ramp" => {
                                let (lo, per, top) = (num(2), num(3), num(4));
                                if ch == n - 1 { (lo + x as i64 / per).min(top) }
                                else if per == 1 { ri(h(num(1) as u64, 0, x as u64, ch as u64), 0, top) }
                                else { (x as i64 % per * 3 + ch as i64) % (top + 1) }
                            }
                            // colours any, the last channel one value but at one pixel: odd:seed:lo:hi:a:b:x:y
                            "odd" => {
                                if ch < n - 1 { ri(h(num(1) as u64, y as u64, x as u64, ch as u64), num(2), num(3)) }
                                else if x == num(6) as usize % w && y == num(7) as usize % hh { num(5) } else { num(4) }
                            }
                            "imp" => if x as i64 == num(3) && y as i64 == num(4) { num(2) } else { num(1) },
                            "step" => { // vertical or horizontal edge: step:lo:hi:axis:pos
                                let q = if num(3) == 0 { x as i64 } else { y as i64 };
                                if q < num(4) { num(1) } else { num(2) }
                            }
                            "id" => num(1) + ((y * w + x) * n + ch) as i64 % (num(2) - num(1) + 1),
                            _ => panic!("driver: pattern {pat}"),
                        };
                        px.push(T::from_int(v, fs).raw());
                    }
                }
            }
        }
    }
    Some(Img { w, h: hh, n, px })
}

fn transform(r: &Img, t: &str, arg: &str) -> Img {
    let at = |x: usize, y: usize, c: usize| r.px[(y * r.w + x) * r.n + c];
    let mut o = Img { w: r.w, h: r.h, n: r.n, px: vec![] };
    match t {
        "" => return r.clone(),
        "perm" => {
            let p: Vec<usize> = arg.split(',').map(|v| v.parse().unwrap()).collect();
            o.n = p.len();
            for y in 0..r.h { for x in 0..r.w { for &c in &p { o.px.push(at(x, y, c)); } } }
        }
        "t" => {
            o.w = r.h;
            o.h = r.w;
            for y in 0..o.h { for x in 0..o.w { for c in 0..r.n { o.px.push(at(y, x, c)); } } }
        }
        "rows" => {
            let p: Vec<usize> = arg.split(',').map(|v| v.parse().unwrap()).collect();
            o.h = p.len();
            for &y in &p { for x in 0..r.w { for c in 0..r.n { o.px.push(at(x, y, c)); } } }
        }
        "cols" => {
            let p: Vec<usize> = arg.split(',').map(|v| v.parse().unwrap()).collect();
            o.w = p.len();
            for y in 0..r.h { for &x in &p { for c in 0..r.n { o.px.push(at(x, y, c)); } } }
        }
        "crop" => { // crop=x,y,w,h
            let p: Vec<usize> = arg.split(',').map(|v| v.parse().unwrap()).collect();
            o.w = p[2];
            o.h = p[3];
            for y in 0..o.h { for x in 0..o.w { for c in 0..r.n { o.px.push(at(x + p[0], y + p[1], c)); } } }
        }
        "tile" => { // tile=kx,ky: repeat columns / rows
            let p: Vec<usize> = arg.split(',').map(|v| v.parse().unwrap()).collect();
            o.w = r.w * p[0];
            o.h = r.h * p[1];
            for y in 0..o.h { for x in 0..o.w { for c in 0..r.n { o.px.push(at(x % r.w, y % r.h, c)); } } }
        }
        "roll" => { // roll=dx,dy
            let p: Vec<usize> = arg.split(',').map(|v| v.parse().unwrap()).collect();
            for y in 0..o.h { for x in 0..o.w { for c in 0..r.n { o.px.push(at((x + p[0]) % r.w, (y + p[1]) % r.h, c)); } } }
        }
        #[cfg(feature = "colors")]
        "enc" | "dec" => { // enc / dec=space,transfer function
            let (api, tr) = arg.split_once(',').unwrap();
            let tr = tr.parse().unwrap();
            return if t == "enc" { colours::encode(r, api, tr) } else { colours::decode(r, api, tr) };
        }
        _ => panic!("driver: transform {t}"),
    }
    o
}

pub fn policy(s: &str) -> ThreadingPolicy {
    if s == "s" {
        ThreadingPolicy::Single
    } else if s == "a" {
        ThreadingPolicy::Adaptive
    } else {
        ThreadingPolicy::Fixed(s[1..].parse().expect("driver: policy"))
    }
}
pub fn filter(i: i64) -> ResamplingFunction {
    ResamplingFunction::from(i as u32)
}

type Res = Result<(), PicScaleError>;
trait Resize<const N: usize>: Pix {
    fn direct<'a>(s: &'a Scaler, a: &ImageStore<'a, Self, N>, b: &mut ImageStoreMut<'a, Self, N>, pm: bool) -> Res;
    fn store<'a>(a: &ImageStore<'a, Self, N>, b: &mut ImageStoreMut<'a, Self, N>, o: ScalingOptions) -> Res;
    #[cfg(feature = "colors")]
    fn color<'a>(_: &'a dyn Scaling, _: &ImageStore<'a, Self, N>, _: &mut ImageStoreMut<'a, Self, N>, _: bool) -> Res {
        panic!("driver: no colour scaler for this type")
    }
}
macro_rules! rz {
    ($t:ty, $n:literal, $m:ident, pm) => {
        impl Resize<$n> for $t {
            fn direct<'a>(s: &'a Scaler, a: &ImageStore<'a, $t, $n>, b: &mut ImageStoreMut<'a, $t, $n>, pm: bool) -> Res {
                s.$m(a, b, pm)
            }
            fn store<'a>(a: &ImageStore<'a, $t, $n>, b: &mut ImageStoreMut<'a, $t, $n>, o: ScalingOptions) -> Res {
                a.scale(b, o)
            }
        }
    };
    ($t:ty, $n:literal, $m:ident) => {
        impl Resize<$n> for $t {
            fn direct<'a>(s: &'a Scaler, a: &ImageStore<'a, $t, $n>, b: &mut ImageStoreMut<'a, $t, $n>, _: bool) -> Res {
                s.$m(a, b)
            }
            fn store<'a>(a: &ImageStore<'a, $t, $n>, b: &mut ImageStoreMut<'a, $t, $n>, o: ScalingOptions) -> Res {
                a.scale(b, o)
            }
        }
    };
}
impl Resize<4> for u8 {
    fn direct<'a>(s: &'a Scaler, a: &ImageStore<'a, u8, 4>, b: &mut ImageStoreMut<'a, u8, 4>, pm: bool) -> Res {
        s.resize_rgba(a, b, pm)
    }
    fn store<'a>(a: &ImageStore<'a, u8, 4>, b: &mut ImageStoreMut<'a, u8, 4>, o: ScalingOptions) -> Res {
        a.scale(b, o)
    }
    #[cfg(feature = "colors")]
    fn color<'a>(s: &'a dyn Scaling, a: &ImageStore<'a, u8, 4>, b: &mut ImageStoreMut<'a, u8, 4>, pm: bool) -> Res {
        s.resize_rgba(a, b, pm)
    }
}
impl Resize<3> for u8 {
    fn direct<'a>(s: &'a Scaler, a: &ImageStore<'a, u8, 3>, b: &mut ImageStoreMut<'a, u8, 3>, _: bool) -> Res {
        s.resize_rgb(a, b)
    }
    fn store<'a>(a: &ImageStore<'a, u8, 3>, b: &mut ImageStoreMut<'a, u8, 3>, o: ScalingOptions) -> Res {
        a.scale(b, o)
    }
    #[cfg(feature = "colors")]
    fn color<'a>(s: &'a dyn Scaling, a: &ImageStore<'a, u8, 3>, b: &mut ImageStoreMut<'a, u8, 3>, _: bool) -> Res {
        s.resize_rgb(a, b)
    }
}
rz!(u8, 1, resize_plane);
rz!(u8, 2, resize_cbcr8);
rz!(u16, 1, resize_plane_u16);
rz!(u16, 2, resize_cbcr_u16);
rz!(u16, 3, resize_rgb_u16);
rz!(u16, 4, resize_rgba_u16, pm);
rz!(f32, 1, resize_plane_f32);
rz!(f32, 2, resize_cbcr_f32);
rz!(f32, 3, resize_rgb_f32);
rz!(f32, 4, resize_rgba_f32, pm);
#[cfg(feature = "half")]
rz!(f16, 1, resize_plane_f16);
#[cfg(feature = "half")]
rz!(f16, 2, resize_cbcr_f16);
#[cfg(feature = "half")]
rz!(f16, 3, resize_rgb_f16);
#[cfg(feature = "half")]
rz!(f16, 4, resize_rgba_f16, pm);

#[cfg(feature = "colors")]
fn color_scaler(api: &str, f: ResamplingFunction, tr: i64) -> Box<dyn Scaling + Sync> {
    let t = match tr {
        0 => TransferFunction::Srgb,
        1 => TransferFunction::Rec709,
        2 => TransferFunction::Gamma2p2,
        3 => TransferFunction::Gamma2p8,
        4 => TransferFunction::Smpte428,
        5 => TransferFunction::Hlg,
        6 => TransferFunction::Linear,
        _ => panic!("driver: transfer"),
    };
    match api {
        "lab" => Box::new(LabScaler::new(f)),
        "luv" => Box::new(LuvScaler::new(f)),
        "lch" => Box::new(LChScaler::new(f)),
        "xyz" => Box::new(XYZScaler::new(f)),
        "sigmoidal" => Box::new(SigmoidalScaler::new(f)),
        "oklab" => Box::new(OklabScaler::new(f, t)),
        "jzazbz" => Box::new(JzazbzScaler::new(f, 200., t)),
        "linear" => Box::new(LinearScaler::new(f)),
        "lineart" => Box::new(LinearScaler::new_with_transfer(f, t)),
        "linapprox" => Box::new(LinearApproxScaler::new(f)),
        "linapproxt" => Box::new(LinearApproxScaler::new_with_transfer(f, t)),
        _ => panic!("driver: api {api}"),
    }
}

pub struct Env {
    pub regs: HashMap<String, Img>,
    pub scalers: HashMap<String, Scaler>,
    #[cfg(feature = "colors")]
    pub cscalers: HashMap<String, Box<dyn Scaling + Sync>>,
}

pub struct Outcome {
    pub res: String,
    pub code: i64,
    pub msg: String,
}
pub fn outcome(r: std::thread::Result<Res>) -> Outcome {
    match r {
        Ok(Ok(())) => Outcome { res: "ok".into(), code: 0, msg: String::new() },
        Ok(Err(e)) => Outcome { res: "err".into(), code: e.code() as i64, msg: format!("{e}") },
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            if m.starts_with("driver:") {
                eprintln!("{m}");
                std::process::exit(99);
            }
            Outcome { res: "panic".into(), code: -1, msg: m }
        }
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' | '\\' => { o.push('\\'); o.push(ch) }
            c if (c as u32) < 32 || (c as u32) > 126 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jarr(v: impl Iterator<Item = i64>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.enumerate() {
        if i > 0 { o.push(',') }
        let _ = write!(o, "{x}");
    }
    o.push(']');
    o
}

/// Lays the logical image out in a buffer of `len` elements with rows `stride` apart.
fn lay<T: Pix>(img: &Img, stride: usize, len: usize, fill: &dyn Fn(usize) -> T) -> Vec<T> {
    let mut v: Vec<T> = (0..len).map(fill).collect();
    for y in 0..img.h {
        for k in 0..img.w * img.n {
            let o = y * stride + k;
            if o < len {
                v[o] = T::from_raw(img.px[y * img.w * img.n + k]);
            }
        }
    }
    v
}

fn header(c: &Case) -> String {
    let mut o = String::new();
    let mut ks: Vec<&String> = c.kv.keys().collect();
    ks.sort();
    for k in ks {
        let v = &c.kv[k];
        if k == "src" || k == "log" || k == "name" || k == "sname" { continue }
        let is_int = v.parse::<i32>().is_ok();
        if is_int {
            let _ = write!(o, "\"{k}\":{v},");
        } else {
            let _ = write!(o, "\"{k}\":{},", jstr(v));
        }
    }
    o
}

/// A window of the resized axis: outputs wx.. and source samples wa.., on all rows (columns).
fn window(c: &Case, src: (usize, usize, &[u32]), dst: (usize, usize, &[u32]), n: usize, show: impl Fn(u32) -> i64) -> String {
    let hz = src.0 != dst.0;
    let cut = |(w, h, v): (usize, usize, &[u32]), at: usize, k: usize| {
        let mut o = vec![];
        let (xs, ys) = if hz { (at..at + k, 0..h) } else { (0..w, at..at + k) };
        for y in ys { for x in xs.clone() { for c in 0..n { if let Some(&r) = v.get((y * w + x) * n + c) { o.push(show(r)) } } } }
        jarr(o.into_iter())
    };
    // whether the whole picture has one alpha
    let ca = n != 4 || src.2.chunks_exact(4).all(|p| p[3] == src.2[3]);
    format!(",\"ca\":{},\"in\":{},\"out\":{}", ca as u8, cut(src, c.u("wa", 0), c.u("wn", 0)), cut(dst, c.u("wx", 0), c.u("wk", 0)))
}

/// Calls that have nothing to do with the call under test, or only its sizes or its filter.
fn noise(seed: u64, c: &Case, stop: &std::sync::atomic::AtomicBool) {
    fn call<T: Resize<N>, const N: usize>(s: &Scaler, d: [usize; 4], pm: bool, bd: usize, seed: u64) {
        let v: Vec<T> = (0..d[0] * d[1] * N).map(|i| T::from_int((h(seed, i as u64, 7, 7) % 200) as i64, 8)).collect();
        let a = ImageStore::<T, N> { buffer: std::borrow::Cow::Owned(v), channels: N, width: d[0], height: d[1], stride: d[0] * N, bit_depth: bd };
        let mut b = ImageStoreMut::<T, N> { buffer: BufferStore::Owned(vec![T::default(); d[2] * d[3] * N]), channels: N, width: d[2], height: d[3], stride: d[2] * N, bit_depth: bd };
        // The call's lifetimes tie the scaler to the stores: both outlive the call here.
        let s: &'static Scaler = unsafe { &*(s as *const Scaler) };
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = T::direct(s, &a, &mut b, pm); }));
    }
    let mut i = 0u64;
    while !stop.load(Ordering::SeqCst) {
        i += 1;
        let r = |k: u64, n: u64| (h(seed, i, k, 8) % n) as usize;
        let fs = [0, 2, 3, 4, 8, 24, 27, 46];
        let f = if r(1, 3) == 0 { c.i("f", 0) } else { fs[r(2, 8)] };
        let mut d = [1 + r(3, 40), 1 + r(4, 20), 1 + r(5, 40), 1 + r(6, 20)];
        if r(7, 2) == 0 { d = [c.u("sw", 1).clamp(1, 80), c.u("sh", 1).clamp(1, 40), c.u("dw", 1).clamp(1, 80), c.u("dh", 1).clamp(1, 40)]; }
        let mut s = Scaler::new(filter(f));
        s.set_threading_policy(if r(8, 8) == 0 { ThreadingPolicy::Fixed(2) } else { ThreadingPolicy::Single });
        s.set_workload_strategy(if r(9, 2) == 0 { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed });
        let pm = r(10, 2) == 0;
        match r(11, 6) {
            0 => call::<u8, 4>(&s, d, pm, 0, i),
            1 => call::<u8, 3>(&s, d, pm, 0, i),
            2 => call::<u8, 1>(&s, d, pm, 0, i),
            3 => call::<u16, 4>(&s, d, pm, 8 + r(12, 9), i),
            4 => call::<u16, 1>(&s, d, pm, 8 + r(12, 9), i),
            _ => call::<f32, 4>(&s, d, pm, 0, i),
        }
    }
}

/// What the policy promises for a picture of w by h, next to the threads a call started.
fn promised(c: &Case, started: usize, w: usize, h: usize) -> String {
    let av = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(1);
    format!(",\"used\":{started},\"count\":{},\"avail\":{av}", policy(&c.s("pol", "s")).thread_count(ImageSize::new(w, h)))
}

fn run<T: Resize<N>, const N: usize>(c: &Case, env: &mut Env) -> Vec<String> {
    let (sw, sh, dw, dh) = (c.u("sw", 0), c.u("sh", 0), c.u("dw", 0), c.u("dh", 0));
    let ss = c.u("ss", sw.wrapping_mul(N));
    let ds = c.u("ds", dw.wrapping_mul(N));
    let ess = if ss == 0 { sw * N } else { ss };
    let eds = if ds == 0 { dw * N } else { ds };
    let sl = c.u("sl", ess.wrapping_mul(sh));
    let dl = c.u("dl", eds.wrapping_mul(dh));
    let bd = c.u("bd", 0);
    let sbd = c.u("sbd", bd);
    // Geometry tests may name images that cannot exist; content is then irrelevant.
    let (lw, lh) = if c.has("geom") { (0, 0) } else { (sw, sh) };
    let img = match pattern::<T>(c, &c.s("src", "rand:1:0:255"), lw, lh, N, &env.regs) {
        Some(i) => i,
        None => return vec![format!("{{{}\"res\":\"skip\"}}", header(c))],
    };
    let stale = c.i("st", 7) as u64;
    let spad = c.i("sp", 11) as u64;
    let src_v: Vec<T> = lay(&img, ess, sl, &|i| T::from_int((h(spad, i as u64, 1, 2) & 0xff) as i64, 8));
    let dst_v: Vec<T> = (0..dl).map(|i| T::from_int((h(stale, i as u64, 3, 4) & 0xff) as i64, 8)).collect();
    let f = filter(c.i("f", 0));
    let api = c.s("api", "direct");
    let pm = c.i("pm", 0) == 1;
    let pol = c.s("pol", "s");
    let mut scaler = match c.kv.get("sc") {
        Some(n) => *env.scalers.entry(n.clone()).or_insert_with(|| Scaler::new(f)),
        None => Scaler::new(f),
    };
    if !c.has("nopol") {
        scaler.set_threading_policy(policy(&pol));
    }
    if !c.has("nowl") {
        scaler.set_workload_strategy(if c.s("wl", "s") == "q" { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed });
    }
    if let Some(n) = c.kv.get("sc") {
        env.scalers.insert(n.clone(), scaler);
    }
    #[cfg(feature = "colors")]
    let color: Option<&Box<dyn Scaling + Sync>> = if api != "direct" && api != "store" {
        let key = c.s("sc", "");
        if key.is_empty() || !env.cscalers.contains_key(&key) {
            env.cscalers.insert(key.clone(), color_scaler(&api, f, c.i("tr", 0)));
        }
        if !c.has("nopol") {
            env.cscalers.get_mut(&key).unwrap().set_threading_policy(policy(&pol));
        }
        Some(&env.cscalers[&key])
    } else {
        None
    };
    FRONT.store(c.i("gf", 0) == 1, Ordering::Relaxed);
    let par = c.u("par", 1);
    let guarded = c.i("guard", 1) == 1;
    // conversions run in a pool of the process, which their first use starts
    #[cfg(feature = "colors")]
    if color.is_some() && c.has("thr") {
        let _ = colours::encode(&Img { w: 64, h: 64, n: 3, px: vec![0; 64 * 64 * 3] }, "jzazbz", 0);
    }
    let threads0 = threads::started();
    let one = |_w: usize| -> (Outcome, Vec<T>, bool) {
        let mut gs = if guarded { Some(Guarded::new(&src_v, 0)) } else { None };
        let mut gd = if guarded { Some(Guarded::new(&dst_v, 1)) } else { None };
        let mut src_b;
        let mut dst_b;
        let (sref, dref): (&'static [T], &'static mut [T]) = match (&mut gs, &mut gd) {
            (Some(a), Some(b)) => (a.get(), b.get_mut()),
            _ => {
                src_b = src_v.clone();
                dst_b = dst_v.clone();
                unsafe {
                    (
                        std::slice::from_raw_parts(src_b.as_mut_ptr(), src_b.len()),
                        std::slice::from_raw_parts_mut(dst_b.as_mut_ptr(), dst_b.len()),
                    )
                }
            }
        };
        if guarded { ARMED.store(true, Ordering::SeqCst); }
        let sowned = c.s("sk", "b") == "o";
        let down = c.s("dk", "b") == "o";
        let a = ImageStore::<T, N> {
            buffer: if sowned { std::borrow::Cow::Owned(sref.to_vec()) } else { std::borrow::Cow::Borrowed(sref) },
            channels: N,
            width: sw,
            height: sh,
            stride: ss,
            bit_depth: sbd,
        };
        let mut b = ImageStoreMut::<T, N> {
            buffer: if down { BufferStore::Owned(dref.to_vec()) } else { BufferStore::Borrowed(dref) },
            channels: N,
            width: dw,
            height: dh,
            stride: ds,
            bit_depth: bd,
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            // The call's lifetimes tie the scaler to the stores: both outlive the call here.
            let s: &'static Scaler = unsafe { &*(&scaler as *const Scaler) };
            match api.as_str() {
                "direct" => T::direct(s, &a, &mut b, pm),
                "store" => T::store(&a, &mut b, ScalingOptions {
                    resampling_function: f,
                    premultiply_alpha: pm,
                    use_multithreading: pol != "s",
                }),
                _ => {
                    #[cfg(feature = "colors")]
                    {
                        let k: &'static dyn Scaling = unsafe { &*(color.unwrap().as_ref() as *const (dyn Scaling + Sync)) };
                        T::color(k, &a, &mut b, pm)
                    }
                    #[cfg(not(feature = "colors"))]
                    panic!("driver: colour scalers are not in this build")
                }
            }
        }));
        let out = b.buffer.borrow().to_vec();
        let src_ok = a.buffer.iter().zip(src_v.iter()).all(|(p, q)| p.raw() == q.raw());
        drop(b);
        drop(a);
        (outcome(r), out, src_ok)
    };
    let mut started = 0;
    // noise: other calls are made all the time; of the repetitions the first is logged and those that differ from it
    let results: Vec<(Outcome, Vec<T>, bool)> = if c.has("noise") {
        let stop = std::sync::atomic::AtomicBool::new(false);
        let seed = c.i("noise", 1) as u64;
        let mut rs = vec![];
        std::thread::scope(|sc| {
            for k in 0..2 {
                let stop = &stop;
                sc.spawn(move || noise(seed * 2 + k, c, stop));
            }
            for _ in 0..c.u("rep", 16) {
                let r = one(0);
                let new = match rs.first() {
                    None => true,
                    Some(f) => { let f: &(Outcome, Vec<T>, bool) = f; f.0.code != r.0.code || f.0.res != r.0.res || !r.2 || f.1.iter().zip(&r.1).any(|(p, q)| p.raw() != q.raw()) }
                };
                if new && rs.len() < 4 { rs.push(r); }
            }
            stop.store(true, Ordering::SeqCst);
        });
        ARMED.store(false, Ordering::SeqCst);
        rs
    } else if par == 1 {
        // nest: the caller is a worker of a pool of its own
        let r = match c.u("nest", 0) {
            0 => one(0),
            k => rayon::ThreadPoolBuilder::new().num_threads(k).build().expect("driver: pool").install(|| one(0)),
        };
        started = threads::started() - threads0;
        ARMED.store(false, Ordering::SeqCst);
        vec![r]
    } else {
        let barrier = std::sync::Barrier::new(par);
        let res = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..par)
                .map(|k| {
                    let one = &one;
                    let barrier = &barrier;
                    sc.spawn(move || {
                        barrier.wait();
                        one(k)
                    })
                })
                .collect();
            hs.into_iter().map(|t| t.join().unwrap()).collect()
        });
        ARMED.store(false, Ordering::SeqCst);
        res
    };
    let mut evs = vec![];
    let logm = c.s("log", "dig");
    for (k, (o, out, src_ok)) in results.into_iter().enumerate() {
        let unt = out.iter().zip(dst_v.iter()).all(|(p, q)| p.raw() == q.raw());
        let mut padok = true;
        let mut vis: Vec<u32> = vec![];
        if !c.has("geom") {
            let row = dw * N;
            for (i, v) in out.iter().enumerate() {
                let (y, x) = (i / eds.max(1), i % eds.max(1));
                if y < dh && x < row {
                    vis.push(v.raw());
                } else if v.raw() != dst_v[i].raw() {
                    padok = false;
                }
            }
        }
        let mut e = String::from("{");
        e.push_str(&header(c));
        let _ = write!(e, "\"w\":{k},\"res\":\"{}\",\"code\":{},\"msg\":{},\"unt\":{unt},\"pad\":{padok},\"srcok\":{src_ok},",
            o.res, o.code, jstr(&o.msg));
        let _ = write!(e, "\"src\":\"{}\",\"dst\":\"{}\"", digest(img.w, img.h, N, &img.px), digest(dw, dh, N, &vis));
        if c.has("thr") { e.push_str(&promised(c, started, dw, dh)); }
        if logm == "full" || logm == "in" {
            let _ = write!(e, ",\"in\":{}", jarr(img.px.iter().map(|&r| T::from_raw(r).log())));
        }
        if logm == "full" || logm == "out" {
            let _ = write!(e, ",\"out\":{}", jarr(vis.iter().map(|&r| T::from_raw(r).log())));
        }
        // rows:a,b,.. / cols:a,b,..: the same rows (columns) of source and destination
        if let Some(l) = logm.strip_prefix("rows:") {
            let l: Vec<usize> = l.split(',').map(|v| v.parse().expect("driver: rows")).collect();
            let pick = |v: &[u32], w: usize| jarr(l.iter().flat_map(|&y| v.iter().skip(y * w * N).take(w * N)).map(|&r| T::from_raw(r).log()));
            let _ = write!(e, ",\"lh\":{},\"in\":{},\"out\":{}", l.len(), pick(&img.px, sw), pick(&vis, dw));
        }
        if let Some(l) = logm.strip_prefix("cols:") {
            let l: Vec<usize> = l.split(',').map(|v| v.parse().expect("driver: cols")).collect();
            let pick = |v: &[u32], w: usize, h: usize| {
                let mut o = vec![];
                for y in 0..h { for &x in &l { for c in 0..N { if let Some(&r) = v.get((y * w + x) * N + c) { o.push(T::from_raw(r).log()) } } } }
                jarr(o.into_iter())
            };
            let _ = write!(e, ",\"lw\":{},\"in\":{},\"out\":{}", l.len(), pick(&img.px, sw, sh), pick(&vis, dw, dh));
        }
        if logm == "win" { e.push_str(&window(c, (sw, sh, &img.px), (dw, dh, &vis), N, |r| T::from_raw(r).log())); }
        if logm == "minmax" {
            let mm: Vec<i64> = vis.iter().map(|&r| T::from_raw(r).log()).collect();
            let _ = write!(e, ",\"lo\":{},\"hi\":{}", mm.iter().min().unwrap_or(&0), mm.iter().max().unwrap_or(&0));
        }
        e.push('}');
        evs.push(e);
        if k == 0 && o.res == "ok" {
            if let Some(n) = c.kv.get("name") {
                env.regs.insert(n.clone(), Img { w: dw, h: dh, n: N, px: vis });
            }
        }
    }
    if let Some(n) = c.kv.get("sname") {
        env.regs.insert(n.clone(), img);
    }
    evs
}

/// AR30 / RA30 calls: a register holds the four components of each pixel.
fn unpack(ty: &str, b: &[u8]) -> [u32; 4] {
    let v = if ty.ends_with('n') { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) } else { u32::from_ne_bytes([b[0], b[1], b[2], b[3]]) };
    if ty.starts_with("ar") {
        [v & 1023, (v >> 10) & 1023, (v >> 20) & 1023, v >> 30]
    } else {
        [v >> 22, (v >> 12) & 1023, (v >> 2) & 1023, v & 3]
    }
}
fn pack(ty: &str, p: &[u32]) -> [u8; 4] {
    let v = if ty.starts_with("ar") {
        p[0] | p[1] << 10 | p[2] << 20 | p[3] << 30
    } else {
        p[0] << 22 | p[1] << 12 | p[2] << 2 | p[3]
    };
    if ty.ends_with('n') { v.to_be_bytes() } else { v.to_ne_bytes() }
}
fn run_ar30(c: &Case, env: &mut Env) -> Vec<String> {
    let ty = c.s("ty", "ar30h");
    let (sw, sh, dw, dh) = (c.u("sw", 0), c.u("sh", 0), c.u("dw", 0), c.u("dh", 0));
    let ss = c.u("ss", sw.wrapping_mul(4));
    let ds = c.u("ds", dw.wrapping_mul(4));
    let sl = c.u("sl", ss.wrapping_mul(sh));
    let dl = c.u("dl", ds.wrapping_mul(dh));
    let (lw, lh) = if c.has("geom") { (0, 0) } else { (sw, sh) };
    let mut img = match pattern::<u16>(c, &c.s("src", "rand:1:0:1023"), lw, lh, 4, &env.regs) {
        Some(i) => i,
        None => return vec![format!("{{{}\"res\":\"skip\"}}", header(c))],
    };
    for (i, p) in img.px.iter_mut().enumerate() {
        *p &= if i % 4 == 3 { 3 } else { 1023 };
    }
    let spad = c.i("sp", 11) as u64;
    let stale = c.i("st", 7) as u64;
    let mut src_v: Vec<u8> = (0..sl).map(|i| h(spad, i as u64, 1, 2) as u8).collect();
    for y in 0..img.h {
        for x in 0..img.w {
            let o = y * ss + x * 4;
            if o + 4 <= src_v.len() {
                src_v[o..o + 4].copy_from_slice(&pack(&ty, &img.px[(y * img.w + x) * 4..][..4]));
            }
        }
    }
    let dst_v: Vec<u8> = (0..dl).map(|i| h(stale, i as u64, 3, 4) as u8).collect();
    let mut scaler = match c.kv.get("sc") {
        Some(n) => env.scalers[n],
        None => Scaler::new(filter(c.i("f", 0))),
    };
    if !c.has("nopol") {
        scaler.set_threading_policy(policy(&c.s("pol", "s")));
    }
    if !c.has("nowl") {
        scaler.set_workload_strategy(if c.s("wl", "s") == "q" { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed });
    }
    FRONT.store(c.i("gf", 0) == 1, Ordering::Relaxed);
    let gs = Guarded::new(&src_v, 0);
    let mut gd = Guarded::new(&dst_v, 1);
    let dref = gd.get_mut();
    ARMED.store(true, Ordering::SeqCst);
    let threads0 = threads::started();
    let order = if ty.ends_with('n') { Ar30ByteOrder::Network } else { Ar30ByteOrder::Host };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (a, b) = (ImageSize::new(sw, sh), ImageSize::new(dw, dh));
        if ty.starts_with("ar") {
            scaler.resize_ar30(gs.get(), ss, a, dref, ds, b, order)
        } else {
            scaler.resize_ra30(gs.get(), ss, a, dref, ds, b, order)
        }
    }));
    ARMED.store(false, Ordering::SeqCst);
    let started = threads::started() - threads0;
    let o = outcome(r);
    let out = gd.get_mut().to_vec();
    let src_ok = gs.get() == &src_v[..];
    let unt = out == dst_v;
    let mut padok = true;
    let mut vis: Vec<u32> = vec![];
    if !c.has("geom") {
        for (i, v) in out.iter().enumerate() {
            let (y, x) = (i / ds.max(1), i % ds.max(1));
            if y < dh && x < dw * 4 {
                if x % 4 == 0 { vis.extend(unpack(&ty, &out[i..i + 4])); }
            } else if *v != dst_v[i] {
                padok = false;
            }
        }
    }
    let mut e = String::from("{");
    e.push_str(&header(c));
    let _ = write!(e, "\"w\":0,\"res\":\"{}\",\"code\":{},\"msg\":{},\"unt\":{unt},\"pad\":{padok},\"srcok\":{src_ok},", o.res, o.code, jstr(&o.msg));
    let _ = write!(e, "\"src\":\"{}\",\"dst\":\"{}\"", digest(img.w, img.h, 4, &img.px), digest(dw, dh, 4, &vis));
    if c.has("thr") { e.push_str(&promised(c, started, dw, dh)); }
    let logm = c.s("log", "dig");
    if logm == "win" { e.push_str(&window(c, (sw, sh, &img.px), (dw, dh, &vis), 4, |r| r as i64)); }
    if logm == "full" || logm == "in" { let _ = write!(e, ",\"in\":{}", jarr(img.px.iter().map(|&v| v as i64))); }
    if logm == "full" || logm == "out" { let _ = write!(e, ",\"out\":{}", jarr(vis.iter().map(|&v| v as i64))); }
    e.push('}');
    if o.res == "ok" {
        if let Some(n) = c.kv.get("name") {
            env.regs.insert(n.clone(), Img { w: dw, h: dh, n: 4, px: vis });
        }
    }
    if let Some(n) = c.kv.get("sname") {
        env.regs.insert(n.clone(), img);
    }
    vec![e]
}

macro_rules! by_n {
    ($t:ty, $n:expr, $c:expr, $e:expr) => {
        match $n {
            1 => run::<$t, 1>($c, $e),
            2 => run::<$t, 2>($c, $e),
            3 => run::<$t, 3>($c, $e),
            4 => run::<$t, 4>($c, $e),
            _ => panic!("driver: n"),
        }
    };
}

fn exec_case(c: &Case, env: &mut Env) -> Vec<String> {
    MAG.store(c.i("mag", 0) as i32, Ordering::Relaxed);
    match c.s("op", "resize").as_str() {
        "resize" => {
            let n = c.i("n", 1);
            match c.s("ty", "u8").as_str() {
                "u8" => by_n!(u8, n, c, env),
                "u16" => by_n!(u16, n, c, env),
                "f32" => by_n!(f32, n, c, env),
                #[cfg(feature = "half")]
                "f16" => by_n!(f16, n, c, env),
                "ar30h" | "ar30n" | "ra30h" | "ra30n" => run_ar30(c, env),
                t => panic!("driver: type {t}"),
            }
        }
        "tc" => {
            // `up': sizes too large for the numbers of the specification
            let size = ImageSize::new(c.u("sw", 1) << c.u("up", 0), c.u("sh", 1) << c.u("up", 0));
            let n = policy(&c.s("pol", "s")).thread_count(size);
            let p = policy(&c.s("pol", "s")).get_pool(size);
            let t = p.map(|p| p.current_num_threads()).unwrap_or(0);
            let av = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(1);
            vec![format!("{{{}\"res\":\"ok\",\"count\":{n},\"pool\":{t},\"avail\":{av}}}", header(c))]
        }
        "fn" => {
            vec![format!("{{{}\"res\":\"ok\",\"fname\":{}}}", header(c), jstr(&format!("{:?}", filter(c.i("f", 0)))))]
        }
        // settings of a shared scaler
        "set" => {
            let n = c.s("sc", "A");
            #[cfg(feature = "colors")]
            if c.has("api") {
                if c.has("f") { env.cscalers.insert(n.clone(), color_scaler(&c.s("api", ""), filter(c.i("f", 0)), c.i("tr", 0))); }
                if c.has("pol") { env.cscalers.get_mut(&n).expect("driver: unknown scaler").set_threading_policy(policy(&c.s("pol", "s"))); }
                return vec![format!("{{{}\"res\":\"ok\"}}", header(c))];
            }
            if c.has("f") { env.scalers.insert(n.clone(), Scaler::new(filter(c.i("f", 0)))); }
            if c.has("copy") {
                let s = env.scalers[&c.s("copy", "")];
                env.scalers.insert(n.clone(), s);
            }
            let s = env.scalers.get_mut(&n).expect("driver: unknown scaler");
            if c.has("pol") { s.set_threading_policy(policy(&c.s("pol", "s"))); }
            if c.has("wl") { s.set_workload_strategy(if c.s("wl", "s") == "q" { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed }); }
            vec![format!("{{{}\"res\":\"ok\"}}", header(c))]
        }
        // image algebra on registers: name = map(reg)
        "map" => {
            let r = match env.regs.get(&c.s("reg", "")) { Some(r) => r, None => return vec![format!("{{{}\"res\":\"skip\",\"src\":\"\",\"dst\":\"\"}}", header(c))] };
            let o = transform(r, &c.s("map", ""), &c.s("arg", ""));
            let mut e = format!("{{{}\"res\":\"ok\",\"src\":\"{}\",\"dst\":\"{}\"", header(c), digest(r.w, r.h, r.n, &r.px), digest(o.w, o.h, o.n, &o.px));
            if c.s("log", "dig") == "out" {
                let ty = c.s("ty", "u8");
                let show = |v: u32| match ty.as_str() {
                    "f32" => Pix::log(f32::from_raw(v)),
                    #[cfg(feature = "half")]
                    "f16" => Pix::log(f16::from_raw(v)),
                    _ => v as i64,
                };
                let _ = write!(e, ",\"out\":{}", jarr(o.px.iter().map(|&v| show(v))));
            }
            e.push('}');
            env.regs.insert(c.s("to", ""), o);
            vec![e]
        }
        "store" => stores::run_store(c),
        "alias" => stores::run_alias(c),
        o => panic!("driver: op {o}"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: psdrv run PLAN OUT");
        std::process::exit(2);
    }
    let plan: Vec<String> = std::io::BufReader::new(std::fs::File::open(&a[2]).expect("plan"))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .collect();
    if a[1] == "exec" {
        let hide = std::env::var("PSDRV_HIDE").unwrap_or_default();
        match hide.strip_prefix("cpus=") {
            Some(k) => threads::bind(k.parse().expect("driver: cpus")),
            None => mask::hide(&hide),
        }
        std::panic::set_hook(Box::new(|_| {}));
        let start: usize = a[4].parse().unwrap();
        let mut out = std::io::BufWriter::with_capacity(1 << 16, std::fs::OpenOptions::new().append(true).create(true).open(&a[3]).expect("out"));
        let mut env = Env {
            regs: HashMap::new(),
            scalers: HashMap::new(),
            #[cfg(feature = "colors")]
            cscalers: HashMap::new(),
        };
        let progress = format!("{}.at", a[3]);
        for (i, l) in plan.iter().enumerate().skip(start) {
            std::fs::write(&progress, format!("{i}")).unwrap();
            let c = Case::parse(l);
            let evs = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec_case(&c, &mut env))) {
                Ok(e) => e,
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    eprintln!("driver failure at line {i}: {m}: {l}");
                    std::process::exit(99);
                }
            };
            for e in evs {
                out.write_all(e.as_bytes()).unwrap();
                out.write_all(b"\n").unwrap();
            }
            out.flush().unwrap();
        }
        return;
    }
    let _ = std::fs::remove_file(&a[3]);
    let exe = std::env::current_exe().unwrap();
    let limit: u64 = std::env::var("PSDRV_CASE_S").ok().and_then(|v| v.parse().ok()).unwrap_or(60);
    let mut start = 0usize;
    let mut deaths = 0;
    while start < plan.len() {
        let progress = format!("{}.at", a[3]);
        let _ = std::fs::remove_file(&progress);
        let mut ch = std::process::Command::new(&exe)
            .args(["exec", &a[2], &a[3], &start.to_string()])
            .spawn()
            .expect("spawn");
        let mut last = (String::new(), std::time::Instant::now());
        let mut why = "crash";
        let st = loop {
            if let Some(s) = ch.try_wait().unwrap() {
                break s;
            }
            let at = std::fs::read_to_string(&progress).unwrap_or_default();
            if at != last.0 {
                last = (at, std::time::Instant::now());
            } else if last.1.elapsed().as_secs() > limit {
                why = "hang";
                let _ = ch.kill();
                break ch.wait().unwrap();
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        };
        if st.code() == Some(0) {
            break;
        }
        if st.code() == Some(99) {
            std::process::exit(99);
        }
        let at: usize = std::fs::read_to_string(&progress).ok().and_then(|v| v.parse().ok()).unwrap_or(start);
        // the event of the call that killed the process
        let c = Case::parse(&plan[at]);
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&a[3]).unwrap();
        writeln!(f, "{{{}\"w\":0,\"res\":\"{}\",\"code\":-2,\"msg\":{},\"unt\":false,\"pad\":false,\"srcok\":false,\"src\":\"\",\"dst\":\"\",\"in\":[],\"out\":[],\"lo\":0,\"hi\":0}}",
            header(&c), why, jstr(&format!("{st}"))).unwrap();
        start = at + 1;
        deaths += if why == "hang" { 20 } else { 1 };
        if deaths >= 40 {
            break;
        }
    }
    let _ = std::fs::remove_file(format!("{}.at", a[3]));
}
