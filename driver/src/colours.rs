//! The colour conversions of the crate pic-scale depends on, as transformations of registers.
use crate::Img;
use colorutils_rs::*;

fn tf(tr: i64) -> TransferFunction {
    match tr {
        0 => TransferFunction::Srgb,
        1 => TransferFunction::Rec709,
        2 => TransferFunction::Gamma2p2,
        3 => TransferFunction::Gamma2p8,
        4 => TransferFunction::Smpte428,
        5 => TransferFunction::Hlg,
        _ => TransferFunction::Linear,
    }
}

pub fn encode(r: &Img, api: &str, tr: i64) -> Img {
    let t = tf(tr);
    let s: Vec<u8> = r.px.iter().map(|&v| v as u8).collect();
    let (w, h, n) = (r.w as u32, r.h as u32, r.n);
    let mut d = vec![0f32; s.len()];
    let mut d8 = vec![0u8; s.len()];
    let st = w * n as u32;
    let fs = st * 4;
    let three = n == 3;
    match api {
        "lab" if three => rgb_to_lab(&s, st, &mut d, fs, w, h, &SRGB_TO_XYZ_D65, TransferFunction::Srgb),
        "lab" => rgba_to_lab_with_alpha(&s, st, &mut d, fs, w, h, &SRGB_TO_XYZ_D65, TransferFunction::Srgb),
        "luv" if three => rgb_to_luv(&s, st, &mut d, fs, w, h, &SRGB_TO_XYZ_D65, TransferFunction::Srgb),
        "luv" => rgba_to_luv_with_alpha(&s, st, &mut d, fs, w, h, &SRGB_TO_XYZ_D65, TransferFunction::Srgb),
        "lch" if three => rgb_to_lch(&s, st, &mut d, fs, w, h, &SRGB_TO_XYZ_D65, TransferFunction::Srgb),
        "lch" => rgba_to_lch_with_alpha(&s, st, &mut d, fs, w, h, &SRGB_TO_XYZ_D65, TransferFunction::Srgb),
        "xyz" if three => srgb_to_xyz(&s, st, &mut d, fs, w, h),
        "xyz" => rgba_to_xyz_with_alpha(&s, st, &mut d, fs, w, h, &SRGB_TO_XYZ_D65, TransferFunction::Srgb),
        "sigmoidal" if three => rgb_to_sigmoidal(&s, st, &mut d, fs, w, h),
        "sigmoidal" => rgba_to_sigmoidal(&s, st, &mut d, fs, w, h),
        "oklab" if three => rgb_to_oklab(&s, st, &mut d, fs, w, h, t),
        "oklab" => rgba_to_oklab(&s, st, &mut d, fs, w, h, t),
        "jzazbz" if three => rgb_to_jzazbz(&s, st, &mut d, fs, w, h, 200., t),
        "jzazbz" => rgba_to_jzazbz(&s, st, &mut d, fs, w, h, 200., t),
        "linear" | "lineart" if three => rgb_to_linear(&s, st, &mut d, fs, w, h, t),
        "linear" | "lineart" => rgba_to_linear(&s, st, &mut d, fs, w, h, t),
        "linapprox" | "linapproxt" if three => rgb_to_linear_u8(&s, st, &mut d8, st, w, h, t),
        "linapprox" | "linapproxt" => rgba_to_linear_u8(&s, st, &mut d8, st, w, h, t),
        _ => panic!("driver: api {api}"),
    }
    let px = if api.starts_with("linapprox") { d8.iter().map(|&v| v as u32).collect() } else { d.iter().map(|v| v.to_bits()).collect() };
    Img { w: r.w, h: r.h, n, px }
}

pub fn decode(r: &Img, api: &str, tr: i64) -> Img {
    let t = tf(tr);
    let s: Vec<f32> = r.px.iter().map(|&v| f32::from_bits(v)).collect();
    let s8: Vec<u8> = r.px.iter().map(|&v| v as u8).collect();
    let (w, h, n) = (r.w as u32, r.h as u32, r.n);
    let mut d = vec![0u8; s.len()];
    let st = w * n as u32;
    let fs = st * 4;
    let three = n == 3;
    match api {
        "lab" if three => lab_to_srgb(&s, fs, &mut d, st, w, h),
        "lab" => lab_with_alpha_to_rgba(&s, fs, &mut d, st, w, h, &XYZ_TO_SRGB_D65, TransferFunction::Srgb),
        "luv" if three => luv_to_rgb(&s, fs, &mut d, st, w, h, &XYZ_TO_SRGB_D65, TransferFunction::Srgb),
        "luv" => luv_with_alpha_to_rgba(&s, fs, &mut d, st, w, h, &XYZ_TO_SRGB_D65, TransferFunction::Srgb),
        "lch" if three => lch_to_rgb(&s, fs, &mut d, st, w, h, &XYZ_TO_SRGB_D65, TransferFunction::Srgb),
        "lch" => lch_with_alpha_to_rgba(&s, fs, &mut d, st, w, h, &XYZ_TO_SRGB_D65, TransferFunction::Srgb),
        "xyz" if three => xyz_to_srgb(&s, fs, &mut d, st, w, h),
        "xyz" => xyz_with_alpha_to_rgba(&s, fs, &mut d, st, w, h, &XYZ_TO_SRGB_D65, TransferFunction::Srgb),
        "sigmoidal" if three => sigmoidal_to_rgb(&s, fs, &mut d, st, w, h),
        "sigmoidal" => sigmoidal_to_rgba(&s, fs, &mut d, st, w, h),
        "oklab" if three => oklab_to_rgb(&s, fs, &mut d, st, w, h, t),
        "oklab" => oklab_to_rgba(&s, fs, &mut d, st, w, h, t),
        "jzazbz" if three => jzazbz_to_rgb(&s, fs, &mut d, st, w, h, 200., t),
        "jzazbz" => jzazbz_to_rgba(&s, fs, &mut d, st, w, h, 200., t),
        "linear" | "lineart" if three => linear_to_rgb(&s, fs, &mut d, st, w, h, t),
        "linear" | "lineart" => linear_to_rgba(&s, fs, &mut d, st, w, h, t),
        "linapprox" | "linapproxt" if three => linear_u8_to_rgb(&s8, st, &mut d, st, w, h, t),
        "linapprox" | "linapproxt" => linear_u8_to_rgba(&s8, st, &mut d, st, w, h, t),
        _ => panic!("driver: api {api}"),
    }
    Img { w: r.w, h: r.h, n, px: d.iter().map(|&v| v as u32).collect() }
}
