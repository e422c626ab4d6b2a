//! Contrast, dynamic colours, schemes and variants.
use crate::engine::*;
use crate::ensure;
use crate::p_color::lattice;
use crate::refm as r;
use crate::rolem as m;
use crate::rolem::{Pol, V};
use material_color_utilities_rs::contrast::contrast::Contrast;
use material_color_utilities_rs::dynamiccolor::dynamic_color::DynamicColor;
use material_color_utilities_rs::dynamiccolor::dynamic_scheme::DynamicScheme;
use material_color_utilities_rs::dynamiccolor::material_dynamic_colors::MaterialDynamicColors as MDC;
use material_color_utilities_rs::dynamiccolor::src::contrast_curve::ContrastCurve;
use material_color_utilities_rs::dynamiccolor::src::tone_delta_pair::{ToneDeltaPair, TonePolarity};
use material_color_utilities_rs::dynamiccolor::variant::Variant;
use material_color_utilities_rs::hct::hct::Hct;
use material_color_utilities_rs::palettes::tonal_palette::TonalPalette;
use material_color_utilities_rs::scheme::scheme_content::SchemeContent;
use material_color_utilities_rs::scheme::scheme_expressive::SchemeExpressive;
use material_color_utilities_rs::scheme::scheme_fidelity::SchemeFidelity;
use material_color_utilities_rs::scheme::scheme_fruit_salad::SchemeFruitSalad;
use material_color_utilities_rs::scheme::scheme_monochrome::SchemeMonochrome;
use material_color_utilities_rs::scheme::scheme_neutral::SchemeNeutral;
use material_color_utilities_rs::scheme::scheme_rainbow::SchemeRainbow;
use material_color_utilities_rs::scheme::scheme_tonal_spot::SchemeTonalSpot;
use material_color_utilities_rs::scheme::scheme_vibrant::SchemeVibrant;

pub fn run(id: &str, cx: &mut Ctx) -> bool {
    match id {
        "C11" => c11(cx),
        "C12" => c12(cx),
        "C13" => c13(cx),
        "C14" => c14(cx),
        "C15" => c15(cx),
        "C16" => c16(cx),
        "C17" => c17(cx),
        "C31" => c31(cx),
        _ => return false,
    }
    true
}

macro_rules! roles {
    ($($n:ident $g:ident),* $(,)?) => {
        pub const ROLE_FNS: &[(&str, fn() -> DynamicColor, fn(&DynamicScheme) -> i64)] = &[
            $((stringify!($n), || MDC::$n(), |s| s.$g())),*
        ];
    };
}
roles! {
    primary_palette_key_color get_primary_palette_key_color, secondary_palette_key_color get_secondary_palette_key_color,
    tertiary_palette_key_color get_tertiary_palette_key_color, neutral_palette_key_color get_neutral_palette_key_color,
    neutral_variant_palette_key_color get_neutral_variant_palette_key_color, background get_background,
    on_background get_on_background, surface get_surface, surface_dim get_surface_dim, surface_bright get_surface_bright,
    surface_container_lowest get_surface_container_lowest, surface_container_low get_surface_container_low,
    surface_container get_surface_container, surface_container_high get_surface_container_high,
    surface_container_highest get_surface_container_highest, on_surface get_on_surface, surface_variant get_surface_variant,
    on_surface_variant get_on_surface_variant, inverse_surface get_inverse_surface, inverse_on_surface get_inverse_on_surface,
    outline get_outline, outline_variant get_outline_variant, shadow get_shadow, scrim get_scrim, surface_tint get_surface_tint,
    primary get_primary, on_primary get_on_primary, primary_container get_primary_container,
    on_primary_container get_on_primary_container, inverse_primary get_inverse_primary, secondary get_secondary,
    on_secondary get_on_secondary, secondary_container get_secondary_container, on_secondary_container get_on_secondary_container,
    tertiary get_tertiary, on_tertiary get_on_tertiary, tertiary_container get_tertiary_container,
    on_tertiary_container get_on_tertiary_container, error get_error, on_error get_on_error, error_container get_error_container,
    on_error_container get_on_error_container, primary_fixed get_primary_fixed, primary_fixed_dim get_primary_fixed_dim,
    on_primary_fixed get_on_primary_fixed, on_primary_fixed_variant get_on_primary_fixed_variant,
    secondary_fixed get_secondary_fixed, secondary_fixed_dim get_secondary_fixed_dim, on_secondary_fixed get_on_secondary_fixed,
    on_secondary_fixed_variant get_on_secondary_fixed_variant, tertiary_fixed get_tertiary_fixed,
    tertiary_fixed_dim get_tertiary_fixed_dim, on_tertiary_fixed get_on_tertiary_fixed,
    on_tertiary_fixed_variant get_on_tertiary_fixed_variant,
}

pub fn scheme(v: V, src: i64, dark: bool, level: f64) -> DynamicScheme {
    let h = Hct::from_int(src);
    match v {
        V::Mono => SchemeMonochrome::new(h, dark, level).dynamic_scheme,
        V::Neutral => SchemeNeutral::new(h, dark, level).dynamic_scheme,
        V::Tonal => SchemeTonalSpot::new(h, dark, level).dynamic_scheme,
        V::Vibrant => SchemeVibrant::new(h, dark, level).dynamic_scheme,
        V::Expressive => SchemeExpressive::new(h, dark, level).dynamic_scheme,
        V::Content => SchemeContent::new(h, dark, level).dynamic_scheme,
        V::Fidelity => SchemeFidelity::new(h, dark, level).dynamic_scheme,
        V::Rainbow => SchemeRainbow::new(h, dark, level).dynamic_scheme,
        V::Fruit => SchemeFruitSalad::new(h, dark, level).dynamic_scheme,
    }
}
pub fn variant_enum(v: V) -> Variant {
    match v {
        V::Mono => Variant::Monochrome,
        V::Neutral => Variant::Neutral,
        V::Tonal => Variant::TonalSpot,
        V::Vibrant => Variant::Vibrant,
        V::Expressive => Variant::Expressive,
        V::Content => Variant::Content,
        V::Fidelity => Variant::Fidelity,
        V::Rainbow => Variant::Rainbow,
        V::Fruit => Variant::FruitSalad,
    }
}
pub fn pals(s: &DynamicScheme) -> [&TonalPalette; 6] {
    [&s.primary_palette, &s.secondary_palette, &s.tertiary_palette, &s.neutral_palette, &s.neutral_variant_palette, &s.error_palette]
}
/// The model's view of a real scheme (palette hue/chroma/key as the scheme holds them).
pub fn model(v: V, s: &DynamicScheme) -> m::Sch {
    let p = pals(s);
    let f = |i: usize| m::Pal { hue: p[i].hue, chroma: p[i].chroma, key: r::hct(p[i].key_color.to_int()) };
    m::Sch { v, dark: s.is_dark, level: s.contrast_level, src: r::hct(s.source_color_argb), pal: [f(0), f(1), f(2), f(3), f(4), f(5)] }
}

/// Colours with unusual coordinates: extremes, greys, hue just below 360, the disliked zone.
pub fn special_sources() -> Vec<i64> {
    let mut v: Vec<i64> = vec![
        0xff000000, 0xffffffff, 0xff010101, 0xff808080, 0xfffefefe, 0xff0000ff, 0xff00ff00, 0xffff0000, 0xffffff00, 0xff00ffff,
        0xffff00ff, 0xff4285f4, 0xff6750a4, 0xff7b5800, 0xff850096, 0xff3b2100, 0xff606000, 0xff959b1a, 0xff000100, 0xff010000,
    ];
    let mut near: Vec<(f64, i64)> = Vec::new();
    for i in 0..(33u64 * 33 * 33) {
        let a = lattice(i, 33);
        let h = r::hct(a);
        if h.hue >= 359.5 && h.chroma > 2.0 {
            near.push((h.chroma, a));
        }
    }
    near.sort_by(|a, b| b.partial_cmp(a).unwrap());
    for k in 0..4 {
        if let Some(x) = near.get(k * near.len() / 4) {
            v.push(x.1);
        }
    }
    v
}
pub fn sources(n: u64) -> Vec<i64> {
    let mut v = special_sources();
    for i in 0..n * n * n {
        let a = lattice(i, n);
        if !v.contains(&a) {
            v.push(a);
        }
    }
    v
}
pub fn levels(n: u64) -> Vec<f64> {
    // n steps of the documented range, plus out-of-range and off-grid values
    let mut v: Vec<f64> = (0..=n).map(|i| -1.0 + 2.0 * i as f64 / n as f64).collect();
    v.extend([-1.5, 1.5, -0.001, 0.001, 0.499, 0.6568521221032331, 0.999]);
    v
}

// ------------------------------------------------------------------ C11
fn near_any(got: f64, tol: f64, c: &[f64]) -> bool {
    c.iter().any(|x| (x - got).abs() <= tol)
}
fn c11(cx: &mut Ctx) {
    let n = cx.pick(2401, 9601);
    cx.space("ratio", "contrast ratio of every pair of tones from -10 to 110 (quarter steps / 0.05 steps)", n * n, |i, t| {
        let f = |k: u64| -10.0 + 120.0 * k as f64 / (n - 1) as f64;
        let (a, b) = (f(i / n), f(i % n));
        let x = Contrast::ratio_of_tones(a, b);
        let y = Contrast::ratio_of_tones(b, a);
        t.ops(2);
        ensure!(t, x == y || r::close(x, y, 1e-12), "ratio({},{})={} but ratio({},{})={}", a, b, x, b, a, y);
        ensure!(t, (1.0 - 1e-9..=21.0 + 1e-9).contains(&x), "ratio({},{})={} outside 1..21", a, b, x);
        ensure!(t, r::close(x, r::ratio(a, b), 1e-9), "ratio({},{})={} expected {}", a, b, x, r::ratio(a, b));
        t.out_f(x);
        t.note(|| format!("ratio({},{})={}", a, b, x));
        Ok(())
    });
    let (nt, nr) = (cx.pick(2401, 9601), cx.pick(801, 4001));
    cx.space("lighter-darker", "lighter/darker and their unsafe forms for every tone (-10..110) x ratio (1..21)", nt * nr, |i, t| {
        let tone = -10.0 + 120.0 * (i / nr) as f64 / (nt - 1) as f64;
        let ratio = 1.0 + 20.0 * (i % nr) as f64 / (nr - 1) as f64;
        let (l, d, lu, du) =
            (Contrast::lighter(tone, ratio), Contrast::darker(tone, ratio), Contrast::lighter_unsafe(tone, ratio), Contrast::darker_unsafe(tone, ratio));
        t.ops(4);
        let e = 1e-8;
        let ml = [r::lighter(tone, ratio), r::lighter(tone, ratio + e), r::lighter(tone, ratio - e)];
        let md = [r::darker(tone, ratio), r::darker(tone, ratio + e), r::darker(tone, ratio - e)];
        ensure!(t, near_any(l, 1e-6, &ml), "lighter({},{})={} expected {}", tone, ratio, l, ml[0]);
        ensure!(t, near_any(d, 1e-6, &md), "darker({},{})={} expected {}", tone, ratio, d, md[0]);
        ensure!(t, lu == if l < 0.0 { 100.0 } else { l }, "lighter_unsafe({},{})={} with lighter={}", tone, ratio, lu, l);
        ensure!(t, du == if d < 0.0 { 0.0 } else { d }, "darker_unsafe({},{})={} with darker={}", tone, ratio, du, d);
        if !(0.0..=100.0).contains(&tone) {
            ensure!(t, l == -1.0 && d == -1.0, "tone {} out of range gives {} {}", tone, l, d);
            return Ok(());
        }
        if l >= 0.0 {
            ensure!(t, l <= 100.0 && l >= tone - 1e-9, "lighter({},{})={} not lighter", tone, ratio, l);
            ensure!(t, r::ratio(l, tone) >= ratio - 1e-9, "lighter({},{})={} reaches only {}", tone, ratio, l, r::ratio(l, tone));
        } else {
            ensure!(t, l == -1.0, "lighter sentinel {}", l);
            // unreachable up to the safety margin of 0.4 tone
            ensure!(t, r::ratio(99.6, tone.min(99.6)) < ratio + 1e-6 || tone > 99.6, "lighter({},{}) gives up although tone 99.6 reaches it", tone, ratio);
        }
        if d >= 0.0 {
            ensure!(t, d >= 0.0 && d <= tone + 1e-9, "darker({},{})={} not darker", tone, ratio, d);
            ensure!(t, r::ratio(d, tone) >= ratio - 1e-9, "darker({},{})={} reaches only {}", tone, ratio, d, r::ratio(d, tone));
        } else {
            ensure!(t, d == -1.0, "darker sentinel {}", d);
            ensure!(t, r::ratio(0.4, tone.max(0.4)) < ratio + 1e-6 || tone < 0.4, "darker({},{}) gives up although tone 0.4 reaches it", tone, ratio);
        }
        t.out_f(l);
        t.out_f(d);
        t.note(|| format!("tone {} ratio {} -> lighter {} darker {}", tone, ratio, l, d));
        Ok(())
    });
    let (nt, nr) = (cx.pick(2001, 10001), cx.pick(801, 4001));
    cx.space("foreground", "foreground tone for every background tone (0..100) x ratio (1..21)", nt * nr, |i, t| {
        let bg = 100.0 * (i / nr) as f64 / (nt - 1) as f64;
        let ratio = 1.0 + 20.0 * (i % nr) as f64 / (nr - 1) as f64;
        let x = DynamicColor::foreground_tone(bg, ratio);
        t.ops(1);
        let mut c = vec![r::foreground(bg, ratio)];
        if (c[0] - x).abs() > 1e-6 {
            for e in [1e-8, -1e-8] {
                c.push(r::foreground(bg, ratio + e));
                c.push(r::foreground((bg + e).clamp(0.0, 100.0), ratio));
            }
        }
        ensure!(t, near_any(x, 1e-6, &c), "foreground_tone({},{})={} expected {}", bg, ratio, x, c[0]);
        let best = r::ratio(bg, 0.0).max(r::ratio(bg, 100.0));
        ensure!(t, r::ratio(bg, x) >= ratio.min(best) - 0.1 - 1e-9, "foreground_tone({},{})={} contrasts {} of achievable {}", bg, ratio, x, r::ratio(bg, x), best);
        t.out_f(x);
        t.note(|| format!("bg {} ratio {} -> {}", bg, ratio, x));
        Ok(())
    });
    let n = cx.pick(1000001, 10000001);
    cx.space("light-foreground", "light-foreground preference, allowance and adjustment for every tone 0..100", n, |i, t| {
        let x = 100.0 * i as f64 / (n - 1) as f64;
        let (p, a, e) = (DynamicColor::tone_prefers_light_foreground(x), DynamicColor::tone_allows_light_foreground(x), DynamicColor::enable_light_foreground(x));
        t.ops(3);
        ensure!(t, p == (x < 59.5), "tone {} prefers light foreground: {}", x, p);
        ensure!(t, a == (x < 49.5), "tone {} allows light foreground: {}", x, a);
        ensure!(t, e == if (49.5..59.5).contains(&x) { 49.0 } else { x }, "enable_light_foreground({})={}", x, e);
        // 4.5 is reachable with white wherever light foregrounds are allowed (T49.5 at worst)
        if a {
            ensure!(t, r::ratio(x.min(49.0), 100.0) >= 4.5, "white on {} contrasts {}", x, r::ratio(x, 100.0));
        }
        t.out_f(e);
        Ok(())
    });
    let curves: Vec<[f64; 4]> = vec![[1.0, 1.0, 3.0, 4.5], [4.5, 7.0, 11.0, 21.0], [3.0, 4.5, 7.0, 7.0], [87.0, 87.0, 80.0, 75.0], [0.0, 5.0, 2.0, 9.0], [21.0, 11.0, 7.0, 4.5]];
    let n = cx.pick(400001, 4000001);
    cx.space("curve", "contrast curves at every level of a grid from -2 to 2", n * curves.len() as u64, |i, t| {
        let c = curves[(i % curves.len() as u64) as usize];
        let lv = -2.0 + 4.0 * (i / curves.len() as u64) as f64 / (n - 1) as f64;
        let k = ContrastCurve::new(c[0], c[1], c[2], c[3]);
        let x = k.get(lv);
        t.ops(1);
        ensure!(t, r::close(x, r::curve(c, lv), 1e-9), "curve {:?} at {} = {} expected {}", c, lv, x, r::curve(c, lv));
        let y = k.clone().get(lv + 1e-9);
        ensure!(t, (x - y).abs() < 1e-6, "curve {:?} jumps at {}", c, lv);
        t.out_f(x);
        Ok(())
    });
}

// ------------------------------------------------------------------ C12
/// Tone the model assigns; on disagreement also at indistinguishable neighbours (rounding ties).
pub fn tone_ok(name: &str, s: &m::Sch, got: f64) -> Result<(), f64> {
    let want = m::role_tone(name, s);
    if (want - got).abs() <= 1e-6 {
        return Ok(());
    }
    for k in 1..81 {
        let f = |i: i64| ((i % 3) - 1) as f64 * 1e-9;
        let mut q = s.clone();
        q.level += f(k);
        q.src.tone += f(k / 3);
        for p in q.pal.iter_mut() {
            p.chroma += f(k / 9);
            p.hue += f(k / 27);
        }
        if (m::role_tone(name, &q) - got).abs() <= 1e-6 {
            return Ok(());
        }
    }
    Err(want)
}
fn c12(cx: &mut Ctx) {
    let src = sources(cx.pick(8, 17));
    let lv = levels(cx.pick(24, 80));
    let nv = m::VARIANTS.len() as u64;
    cx.space("roles", "every variant x source colour: all 54 roles x light/dark x contrast levels resolve to the tone of the design specification, rendered from the right palette", src.len() as u64 * nv, |i, t| {
        let v = m::VARIANTS[(i % nv) as usize];
        let a = src[(i / nv) as usize];
        let base = scheme(v, a, false, 0.0);
        t.ops(1);
        for dark in [false, true] {
            for &l in &lv {
                let mut s = base.clone();
                s.is_dark = dark;
                s.contrast_level = l;
                let ms = model(v, &s);
                for (name, f, _) in ROLE_FNS {
                    let mut dc = f();
                    let tone = dc.get_tone(&s);
                    t.ops(1);
                    t.checks += 1;
                    if let Err(w) = tone_ok(name, &ms, tone) {
                        return Err(format!("{:?} source {:08x} dark={} contrast={}: {} has tone {} expected {}", v, a, dark, l, name, tone, w));
                    }
                    t.out_f(tone);
                    if l == 0.0 || l == 1.0 || l == -1.0 {
                        let p = &ms.pal[m::role(name, &ms).pal as usize];
                        let c = dc.get_argb(&s);
                        t.ops(1);
                        ensure!(t, r::solve_matches(p.hue, p.chroma, tone, c), "{:?} source {:08x} dark={} contrast={}: {} is {:08x}, not its palette (H{} C{}) at tone {}", v, a, dark, l, name, c, p.hue, p.chroma, tone);
                    }
                }
            }
        }
        t.note(|| format!("{:?} {:08x}", v, a));
        Ok(())
    });
    let (nh, nc) = (cx.pick(24, 72), HAND_CHROMA.len() as u64);
    let hs: Vec<i64> = special_sources();
    let nsrc = cx.pick(6, 24).min(hs.len() as u64);
    cx.space("hand-made", "schemes put together from palettes of every hue and chroma of the grid (beyond what a variant would give) x variant x brightness x contrast: every role has the specified tone", nh * nc * 4 * nsrc * 2, |i, t| {
        let d = digits(i, &[nh, nc, 4, nsrc, 2]);
        let v = [V::Fidelity, V::Content, V::Mono, V::Tonal][d[2] as usize];
        let a = hs[(d[3] as usize * hs.len()) / nsrc as usize];
        let base = hand_made(v, a, 360.0 * d[0] as f64 / nh as f64, d[1] as usize, d[4] == 1);
        for l in [0.0, -0.6, 0.3, 0.9] {
            let mut s = base.clone();
            s.contrast_level = l;
            let ms = model(v, &s);
            for (name, f, _) in ROLE_FNS {
                let tone = f().get_tone(&s);
                t.ops(1);
                t.checks += 1;
                if let Err(w) = tone_ok(name, &ms, tone) {
                    return Err(format!("{:?} hand-made {:?} contrast={}: {} has tone {} expected {}", v, d, l, name, tone, w));
                }
                t.out_f(tone);
            }
        }
        Ok(())
    });
}
const HAND_CHROMA: [f64; 7] = [2.0, 16.0, 36.0, 60.0, 85.0, 110.0, 150.0];
/// Primary, secondary and tertiary palettes at chosen hue and chroma, unrelated to the source.
fn hand_made(v: V, src: i64, hue: f64, c: usize, dark: bool) -> DynamicScheme {
    let p = |j: usize| TonalPalette::of((hue + 47.0 * j as f64) % 360.0, HAND_CHROMA[(c + 3 * j) % HAND_CHROMA.len()]);
    DynamicScheme::new(src, variant_enum(v), Some(0.0), dark, p(1), p(0), p(2), p(3), p(4))
}

// ------------------------------------------------------------------ C13
/// Foreground roles that carry text or icons, with the ratio curve promised against each background.
fn legible() -> Vec<(&'static str, Vec<&'static str>, [f64; 4])> {
    const T: [f64; 4] = [4.5, 7.0, 11.0, 21.0];
    const T2: [f64; 4] = [3.0, 4.5, 7.0, 11.0];
    vec![
        ("on_background", vec!["background"], [3.0, 3.0, 4.5, 7.0]),
        ("on_surface", vec!["@highest"], T),
        ("on_surface_variant", vec!["@highest"], T2),
        ("inverse_on_surface", vec!["inverse_surface"], T),
        ("inverse_primary", vec!["inverse_surface"], [3.0, 4.5, 7.0, 7.0]),
        ("outline", vec!["@highest"], [1.5, 3.0, 4.5, 7.0]),
        ("outline_variant", vec!["@highest"], [1.0, 1.0, 3.0, 4.5]),
        ("on_primary", vec!["primary"], T),
        ("on_primary_container", vec!["primary_container"], T),
        ("on_secondary", vec!["secondary"], T),
        ("on_secondary_container", vec!["secondary_container"], T),
        ("on_tertiary", vec!["tertiary"], T),
        ("on_tertiary_container", vec!["tertiary_container"], T),
        ("on_error", vec!["error"], T),
        ("on_error_container", vec!["error_container"], T),
        ("on_primary_fixed", vec!["primary_fixed_dim", "primary_fixed"], T),
        ("on_primary_fixed_variant", vec!["primary_fixed_dim", "primary_fixed"], T2),
        ("on_secondary_fixed", vec!["secondary_fixed_dim", "secondary_fixed"], T),
        ("on_secondary_fixed_variant", vec!["secondary_fixed_dim", "secondary_fixed"], T2),
        ("on_tertiary_fixed", vec!["tertiary_fixed_dim", "tertiary_fixed"], T),
        ("on_tertiary_fixed_variant", vec!["tertiary_fixed_dim", "tertiary_fixed"], T2),
    ]
}
pub fn role_fn(n: &str) -> DynamicColor {
    (ROLE_FNS.iter().find(|x| x.0 == n).expect("role").1)()
}
fn c13(cx: &mut Ctx) {
    let src = sources(cx.pick(6, 12));
    let lv = levels(cx.pick(24, 80));
    let nv = m::VARIANTS.len() as u64;
    let leg = legible();
    cx.space("legibility", "every variant x source x light/dark x contrast level: foreground roles contrast with each of their backgrounds, in tone and as rendered", src.len() as u64 * nv, |i, t| {
        let v = m::VARIANTS[(i % nv) as usize];
        let a = src[(i / nv) as usize];
        let base = scheme(v, a, false, 0.0);
        for dark in [false, true] {
            for &l in &lv {
                let mut s = base.clone();
                s.is_dark = dark;
                s.contrast_level = l;
                for (fg, bgs, c) in &leg {
                    let want = r::curve(*c, l);
                    let mut fd = role_fn(fg);
                    let ft = fd.get_tone(&s);
                    let fa = fd.get_argb(&s);
                    // what one foreground can reach against all its backgrounds at once
                    let bt: Vec<(f64, i64, &str)> = bgs.iter().map(|b| {
                        let b = if *b == "@highest" { if dark { "surface_bright" } else { "surface_dim" } } else { b };
                        let mut d = role_fn(b);
                        (d.get_tone(&s), d.get_argb(&s), b)
                    }).collect();
                    t.ops(2 + 2 * bt.len() as u64);
                    let best = [0.0, 100.0].iter().map(|x| bt.iter().map(|b| r::ratio(b.0, *x)).fold(21.0, f64::min)).fold(0.0, f64::max);
                    for b in &bt {
                        let need = want.min(best);
                        let have = r::ratio(ft, b.0);
                        ensure!(t, have >= need - 0.1, "{:?} {:08x} dark={} contrast={}: {} (T{}) on {} (T{}) contrasts {:.3}, promised {:.3}", v, a, dark, l, fg, ft, b.2, b.0, have, need);
                        let seen = r::ratio_argb(fa, b.1);
                        ensure!(t, seen >= need * 0.96 - 0.1, "{:?} {:08x} dark={} contrast={}: {} {:08x} on {} {:08x} renders contrast {:.3}, promised {:.3}", v, a, dark, l, fg, fa, b.2, b.1, seen, need);
                        t.out_f(have);
                    }
                }
            }
        }
        t.note(|| format!("{:?} {:08x}", v, a));
        Ok(())
    });
    // raising the contrast level never makes the promise weaker
    cx.space("surfaces", "every variant x source x light/dark x level: text stays legible on every surface container", src.len() as u64 * nv, |i, t| {
        let v = m::VARIANTS[(i % nv) as usize];
        let a = src[(i / nv) as usize];
        let base = scheme(v, a, false, 0.0);
        for dark in [false, true] {
            for &l in &lv {
                let mut s = base.clone();
                s.is_dark = dark;
                s.contrast_level = l;
                let ft = role_fn("on_surface").get_tone(&s);
                let fv = role_fn("on_surface_variant").get_tone(&s);
                for b in ["surface", "surface_dim", "surface_bright", "surface_container_lowest", "surface_container_low", "surface_container", "surface_container_high", "surface_container_highest", "background"] {
                    let bt = role_fn(b).get_tone(&s);
                    t.ops(1);
                    let (h, hv) = (r::ratio(ft, bt), r::ratio(fv, bt));
                    ensure!(t, h >= 4.5 - 0.1, "{:?} {:08x} dark={} contrast={}: on_surface on {} contrasts {:.3}", v, a, dark, l, b, h);
                    ensure!(t, hv >= 3.0 - 0.1, "{:?} {:08x} dark={} contrast={}: on_surface_variant on {} contrasts {:.3}", v, a, dark, l, b, hv);
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C14
fn pol(p: Pol) -> TonePolarity {
    match p {
        Pol::Darker => TonePolarity::Darker,
        Pol::Lighter => TonePolarity::Lighter,
        Pol::Nearer => TonePolarity::Nearer,
        Pol::Farther => TonePolarity::Farther,
    }
}
const POLS: [Pol; 4] = [Pol::Darker, Pol::Lighter, Pol::Nearer, Pol::Farther];
fn plain(name: &'static str, tone: f64, is_bg: bool) -> DynamicColor {
    DynamicColor::from_palette(Some(name), Box::new(|s| &s.primary_palette), Box::new(move |_| tone), Some(is_bg), None, None, None, None)
}
fn with_bg(name: &'static str, tone: f64, is_bg: bool, bg: f64, bg2: Option<f64>, c: [f64; 4]) -> DynamicColor {
    DynamicColor::new(
        name,
        Box::new(|s| &s.primary_palette),
        Box::new(move |_| tone),
        is_bg,
        Some(Box::new(move |_| plain("bg", bg, true))),
        bg2.map(|b| -> Box<dyn Fn(&DynamicScheme) -> DynamicColor> { Box::new(move |_| plain("bg2", b, true)) }),
        Some(ContrastCurve::new(c[0], c[1], c[2], c[3])),
        None,
    )
}
fn m_plain(tone: f64) -> m::Role {
    m::Role { name: "bg".into(), pal: m::P::Pri, tone, is_bg: true, bg: None, bg2: None, curve: None, pair: None }
}
#[derive(Clone, Copy)]
struct PairCfg { a: f64, b: f64, ca: [f64; 4], cb: [f64; 4], bg: f64, delta: f64, pol: Pol, stay: bool }
fn pair_role(k: PairCfg, which: bool) -> DynamicColor {
    let (name, tone, c) = if which { ("a", k.a, k.ca) } else { ("b", k.b, k.cb) };
    DynamicColor::from_palette(
        Some(name),
        Box::new(|s| &s.primary_palette),
        Box::new(move |_| tone),
        Some(true),
        Some(Box::new(move |_| plain("bg", k.bg, true))),
        None,
        Some(ContrastCurve::new(c[0], c[1], c[2], c[3])),
        Some(Box::new(move |_| {
            let side = |n: &'static str, t: f64, c: [f64; 4]| with_bg(n, t, true, k.bg, None, c);
            ToneDeltaPair::new(side("a", k.a, k.ca), side("b", k.b, k.cb), k.delta, pol(k.pol), k.stay)
        })),
    )
}
fn tone_candidates(role: &m::Role, dark: bool, level: f64) -> Vec<f64> {
    let mut v = vec![m::tone_of(role, dark, level)];
    for e in [1e-9, -1e-9] {
        v.push(m::tone_of(role, dark, level + e));
        let mut q = role.clone();
        if let Some(b) = q.bg.as_mut() { b.tone = (b.tone + e).clamp(0.0, 100.0); }
        v.push(m::tone_of(&q, dark, level));
        let mut q = role.clone();
        q.tone += e;
        if let Some(p) = q.pair.as_mut() { p.a.tone += e; p.b.tone -= e; }
        v.push(m::tone_of(&q, dark, level));
        let mut q = role.clone();
        if let Some(c) = q.curve.as_mut() { for x in c.iter_mut() { *x += e; } }
        if let Some(p) = q.pair.as_mut() { for x in p.a.curve.iter_mut().chain(p.b.curve.iter_mut()) { *x += e; } }
        v.push(m::tone_of(&q, dark, level));
    }
    v
}
/// One tone-delta pair, both members, at every level.
fn pair_ok(base: &DynamicScheme, k: PairCfg, dark: bool, lv: &[f64], t: &mut T) -> Result<(), String> {
    let (ca, cb) = (k.ca, k.cb);

        
        
        let side = |n: &str, tone: f64, c: [f64; 4]| m::Side { name: n.into(), tone, curve: c };
        let mp = m::Pair { a: side("a", k.a, ca), b: side("b", k.b, cb), delta: k.delta, pol: k.pol, stay: k.stay };
        let (ra, rb) = (pair_role(k, true), pair_role(k, false));
        let mut s = base.clone();
        s.is_dark = dark;
        for &l in lv {
            s.contrast_level = l;
            let (x, y) = (ra.get_tone(&s), rb.get_tone(&s));
            t.ops(2);
            for (n, got) in [("a", x), ("b", y)] {
                let mr = m::Role { name: n.into(), pal: m::P::Pri, tone: if n == "a" { k.a } else { k.b }, is_bg: true, bg: Some(Box::new(m_plain(k.bg))), bg2: None, curve: Some(if n == "a" { ca } else { cb }), pair: Some(mp.clone()) };
                let w = m::tone_of(&mr, dark, l);
                t.checks += 1;
                if (w - got).abs() > 1e-6 && !near_any(got, 1e-6, &tone_candidates(&mr, dark, l)) {
                    return Err(format!("pair {:?} dark={} level={}: {} has tone {} expected {}", mp, dark, l, n, got, w));
                }
            }
            // the documented guarantee: A and B are delta apart, in the documented direction
            let sep = match k.pol {
                Pol::Darker => y - x,
                Pol::Lighter => x - y,
                Pol::Nearer => if dark { y - x } else { x - y },
                Pol::Farther => if dark { x - y } else { y - x },
            };
            ensure!(t, sep >= k.delta.min(40.0) - 1e-6, "pair {:?} dark={} level={}: tones {} and {} are not {} apart", mp, dark, l, x, y, k.delta);
            ensure!(t, !(50.0..60.0).contains(&x) && !(50.0..60.0).contains(&y), "pair {:?} dark={} level={}: tones {} and {} in the awkward zone", mp, dark, l, x, y);
            t.out_f(x);
            t.out_f(y);
        }
        Ok(())
}
fn c14(cx: &mut Ctx) {
    let curves: Vec<[f64; 4]> = vec![[1.0, 1.0, 3.0, 4.5], [3.0, 4.5, 7.0, 7.0], [4.5, 7.0, 11.0, 21.0]];
    let lv: Vec<f64> = vec![-1.0, -0.3, 0.0, 0.35, 0.5, 0.8, 1.0];
    let base = scheme(V::Tonal, 0xff4285f4, false, 0.0);
    // pairs
    let nt = cx.pick(21, 41);
    // fractional tones around the rounding thresholds and the 50..60 zone
    let edge = [48.6, 49.4, 49.6, 49.97, 50.03, 59.4, 59.6, 59.97, 60.03];
    let mut tones: Vec<f64> = (0..nt).map(|k| 100.0 * k as f64 / (nt - 1) as f64).collect();
    tones.extend(edge);
    let nt = tones.len() as u64;
    let mut bgs: Vec<f64> = if cx.quick() { vec![0.0, 6.0, 24.0, 45.0, 49.4, 49.6, 55.0, 59.4, 59.6, 60.0, 75.0, 87.0, 98.0, 100.0] } else { (0..=50).map(|k| 2.0 * k as f64).collect() };
    if !cx.quick() {
        bgs.extend(edge);
    }
    let deltas = [0.0, 10.0, 15.0, 30.0];
    let rad = [nt, nt, bgs.len() as u64, 4, 4, 2, 3, 2];
    cx.space("pairs", "tone-delta pairs: initial tones x background x delta x polarity x stay-together x curves x light/dark, all contrast levels, both members", prod(&rad), |i, t| {
        let d = digits(i, &rad);
        let (ca, cb) = (curves[d[6] as usize % 2], curves[(d[6] as usize + 1) % 3]);
        let k = PairCfg { a: tones[d[0] as usize], b: tones[d[1] as usize], ca, cb, bg: bgs[d[2] as usize], delta: deltas[d[3] as usize], pol: POLS[d[4] as usize], stay: d[5] == 1 };
        pair_ok(&base, k, d[7] == 1, &lv, t)
    });
    let nd = cx.pick(51, 201);
    let wide = [5.0, 38.0, 50.0, 62.0, 95.0];
    let rad = [nd, 5, 5, 5, 4, 2, 3, 2];
    cx.space("deltas", "tone-delta pairs at every distance 0..100 x polarity x stay-together, five tones each for the members and the background", prod(&rad), |i, t| {
        let d = digits(i, &rad);
        let (ca, cb) = (curves[d[6] as usize % 2], curves[(d[6] as usize + 1) % 3]);
        let k = PairCfg { a: wide[d[1] as usize], b: wide[d[2] as usize], ca, cb, bg: wide[d[3] as usize], delta: 100.0 * d[0] as f64 / (nd - 1) as f64, pol: POLS[d[4] as usize], stay: d[5] == 1 };
        pair_ok(&base, k, d[7] == 1, &lv, t)
    });
    // single and dual backgrounds
    let grid = |n: u64| (0..n).map(|k| 100.0 * k as f64 / (n - 1) as f64).chain(edge).collect::<Vec<f64>>();
    let (ft, fb) = (grid(cx.pick(51, 101)), grid(cx.pick(41, 101)));
    let (nt, nb) = (ft.len() as u64, fb.len() as u64);
    let rad = [nt, nb, nb + 1, 3, 2, 2];
    cx.space("backgrounds", "roles with one or two backgrounds: own tone x background x second background x curve x background flag x light/dark, all contrast levels", prod(&rad), |i, t| {
        let d = digits(i, &rad);
        let (tone, bg, bg2) = (ft[d[0] as usize], fb[d[1] as usize], fb.get(d[2] as usize).cloned());
        let c = curves[d[3] as usize];
        let is_bg = d[4] == 1;
        let dark = d[5] == 1;
        let role = with_bg("x", tone, is_bg, bg, bg2, c);
        let mr = m::Role { name: "x".into(), pal: m::P::Pri, tone, is_bg, bg: Some(Box::new(m_plain(bg))), bg2: bg2.map(|b| Box::new(m_plain(b))), curve: Some(c), pair: None };
        let mut s = base.clone();
        s.is_dark = dark;
        for &l in &lv {
            s.contrast_level = l;
            let x = role.get_tone(&s);
            t.ops(1);
            t.checks += 1;
            let w = m::tone_of(&mr, dark, l);
            if (w - x).abs() > 1e-6 && !near_any(x, 1e-6, &tone_candidates(&mr, dark, l)) {
                return Err(format!("tone {} bg {} bg2 {:?} curve {:?} is_bg={} dark={} level={}: {} expected {}", tone, bg, bg2, c, is_bg, dark, l, x, w));
            }
            ensure!(t, (0.0..=100.0).contains(&x), "tone {} out of range", x);
            let want = r::curve(c, l);
            // reachable against every background at once -> reached
            let all: Vec<f64> = std::iter::once(bg).chain(bg2).collect();
            let hi = all.iter().cloned().fold(0.0, f64::max);
            let lo = all.iter().cloned().fold(100.0, f64::min);
            let prefer_light = all.iter().any(|b| b.round() < 60.0);
            let light_ok = r::lighter(hi, want) >= 0.0;
            let dark_ok = r::darker(lo, want) >= 0.0;
            if (prefer_light && light_ok) || (!prefer_light && (light_ok || dark_ok)) || (bg2.is_none() && (light_ok || dark_ok)) {
                let tol = if is_bg { f64::INFINITY } else { 1e-6 };
                for b in &all {
                    ensure!(t, r::ratio(*b, x) >= want - tol, "tone {} bg {} bg2 {:?} curve {:?} level={}: {} contrasts only {} of {}", tone, bg, bg2, c, l, x, r::ratio(*b, x), want);
                }
            }
            t.out_f(x);
        }
        Ok(())
    });
    // a background that itself depends on a background or on a partner
    let (kt, kb) = (cx.pick(11, 21), cx.pick(9, 21));
    let at = |k: u64, n: u64| 100.0 * k as f64 / (n - 1) as f64;
    let rad = [kt, kt, kb, 3, 3, 2, 2, 3];
    cx.space("nested", "roles on a background that is itself a role on a background, or a member of a tone pair: tones x curves x background flag x light/dark, all contrast levels", prod(&rad), |i, t| {
        let d = digits(i, &rad);
        let (tone, mid, low) = (at(d[0], kt), at(d[1], kt), at(d[2], kb));
        let (c, cm) = (curves[d[3] as usize], curves[d[4] as usize]);
        let (is_bg, dark, kind) = (d[5] == 1, d[6] == 1, d[7]);
        let k = PairCfg { a: mid, b: 100.0 - mid, ca: cm, cb: c, bg: low, delta: 15.0, pol: POLS[d[4] as usize], stay: true };
        let under = move || match kind {
            0 => with_bg("mid", mid, true, low, None, cm),
            1 => with_bg("mid", mid, false, low, Some(100.0 - low), cm),
            _ => pair_role(k, true),
        };
        let role = DynamicColor::new("x", Box::new(|s| &s.primary_palette), Box::new(move |_| tone), is_bg, Some(Box::new(move |_| under())), None, Some(ContrastCurve::new(c[0], c[1], c[2], c[3])), None);
        let side = |n: &str, tone: f64, c: [f64; 4]| m::Side { name: n.into(), tone, curve: c };
        let mm = m::Role {
            name: if kind == 2 { "a" } else { "mid" }.into(), pal: m::P::Pri, tone: mid, is_bg: kind != 1, bg: Some(Box::new(m_plain(low))),
            bg2: if kind == 1 { Some(Box::new(m_plain(100.0 - low))) } else { None }, curve: Some(cm),
            pair: if kind == 2 { Some(m::Pair { a: side("a", k.a, k.ca), b: side("b", k.b, k.cb), delta: k.delta, pol: k.pol, stay: k.stay }) } else { None },
        };
        let mut s = base.clone();
        s.is_dark = dark;
        for &l in &lv {
            s.contrast_level = l;
            let x = role.get_tone(&s);
            t.ops(1);
            t.checks += 1;
            let ok = tone_candidates(&mm, dark, l).iter().any(|b| {
                let mr = m::Role { name: "x".into(), pal: m::P::Pri, tone, is_bg, bg: Some(Box::new(m_plain(*b))), bg2: None, curve: Some(c), pair: None };
                near_any(x, 1e-6, &tone_candidates(&mr, dark, l))
            });
            if !ok {
                return Err(format!("tone {} curve {:?} is_bg={} over {:?} dark={} level={}: {}", tone, c, is_bg, mm, dark, l, x));
            }
            t.out_f(x);
        }
        Ok(())
    });
    cx.space("no-background", "roles without a background keep their tone at every contrast level", 101 * 2 * lv.len() as u64, |i, t| {
        let d = digits(i, &[101, 2, lv.len() as u64]);
        let mut s = base.clone();
        s.is_dark = d[1] == 1;
        s.contrast_level = lv[d[2] as usize];
        let tone = d[0] as f64;
        let mut c = plain("x", tone, false);
        t.ops(2);
        ensure!(t, c.get_tone(&s) == tone, "tone {} became {}", tone, c.get_tone(&s));
        let p = &s.primary_palette;
        let a = c.get_argb(&s);
        ensure!(t, r::solve_matches(p.hue, p.chroma, tone, a), "tone {} rendered {:08x}", tone, a);
        Ok(())
    });
}

// ------------------------------------------------------------------ C15
fn c15(cx: &mut Ctx) {
    let src = sources(cx.pick(4, 9));
    let lv: Vec<f64> = if cx.quick() { vec![-1.0, -0.5, 0.0, 0.25, 0.5, 1.0] } else { levels(16) };
    let nv = m::VARIANTS.len() as u64;
    cx.space("getters", "every variant x source x light/dark x level: the scheme's 54 getters, the role objects and the generic accessors agree and come from the specified palette", src.len() as u64 * nv, |i, t| {
        let v = m::VARIANTS[(i % nv) as usize];
        let a = src[(i / nv) as usize];
        for dark in [false, true] {
            let base = scheme(v, a, dark, 0.5);
            t.ops(1);
            ensure!(t, base.is_dark == dark && base.contrast_level == 0.5, "{:?}: is_dark/contrast not taken over", v);
            ensure!(t, base.source_color_argb == a && base.source_color_hct.to_int() == a, "{:?}: source colour {:08x} became {:08x}", v, a, base.source_color_argb);
            ensure!(t, base.variant == variant_enum(v), "{:?}: variant {:?}", v, base.variant);
            for &l in &lv {
                let mut s = base.clone();
                s.contrast_level = l;
                let ms = model(v, &s);
                let mut all = 0u64;
                for (name, f, g) in ROLE_FNS {
                    let x = g(&s);
                    let mut dc = f();
                    let y = dc.get_argb(&s);
                    let z = s.get_argb(&mut f());
                    let h = f().get_hct(&s);
                    let k = s.get_hct(&mut f());
                    t.ops(5);
                    ensure!(t, x == y && y == z && h.to_int() == x && k.to_int() == x, "{:?} {:08x} dark={} level={} {}: getter {:08x} role {:08x} generic {:08x} hct {:08x}/{:08x}", v, a, dark, l, name, x, y, z, h.to_int(), k.to_int());
                    let want = m::role_tone(name, &ms);
                    let p = &ms.pal[m::role(name, &ms).pal as usize];
                    if !r::solve_matches(p.hue, p.chroma, want, x) {
                        t.checks += 1;
                        if tone_ok(name, &ms, dc.get_tone(&s)).is_err() || !r::solve_matches(p.hue, p.chroma, dc.get_tone(&s), x) {
                            return Err(format!("{:?} {:08x} dark={} level={}: {} = {:08x}, expected H{} C{} T{}", v, a, dark, l, name, x, p.hue, p.chroma, want));
                        }
                    }
                    all = all.wrapping_mul(31).wrapping_add(x as u64);
                }
                t.out(all);
            }
        }
        t.note(|| format!("{:?} {:08x}", v, a));
        Ok(())
    });
    let (nk, ns) = (cx.pick(36, 180), cx.pick(4, 20));
    let all: Vec<i64> = special_sources();
    let na = all.len() as u64;
    cx.space("custom-schemes", "schemes assembled from unrelated palettes (some built from a colour) x variant x brightness x contrast: omitted values have their defaults, every accessor answers from the specified palette", nk * ns * 2 * 4, |i, t| {
        let d = digits(i, &[nk, ns, 2, 4]);
        let (a, dark, l) = (all[((d[1] * 7 + d[0]) % na) as usize], d[2] == 1, [0.0, -0.6, 0.5, 1.0][d[3] as usize]);
        let (v, s) = custom(d[0], a, dark, l);
        t.ops(1);
        ensure!(t, s.source_color_argb == a && s.source_color_hct.to_int() == a && s.is_dark == dark && s.contrast_level == l && s.variant == variant_enum(v), "scheme {:?} of {:08x}: fields not taken over", v, a);
        if d[0] % 4 != 3 {
            pal_is(t, &s.error_palette, 25.0, 84.0, "error palette")?;
        }
        let ms = model(v, &s);
        for (name, f, g) in ROLE_FNS {
            let x = g(&s);
            let tn = f().get_tone(&s);
            t.ops(2);
            if let Err(w) = tone_ok(name, &ms, tn) {
                return Err(format!("custom scheme {} {:?} {:08x} dark={} level={}: {} has tone {} expected {}", d[0], v, a, dark, l, name, tn, w));
            }
            let p = &ms.pal[m::role(name, &ms).pal as usize];
            ensure!(t, r::solve_matches(p.hue, p.chroma, tn, x), "custom scheme {} {:?} {:08x} dark={} level={}: {} = {:08x}, expected H{} C{} T{}", d[0], v, a, dark, l, name, x, p.hue, p.chroma, tn);
        }
        t.out(d[0]);
        Ok(())
    });
}

/// A scheme put together by hand: six palettes that have nothing to do with each other.
pub fn custom(k: u64, src: i64, dark: bool, level: f64) -> (V, DynamicScheme) {
    let v = m::VARIANTS[(k % 9) as usize];
    let p = |j: u64| {
        let (h, c) = ((17.0 + 61.0 * j as f64 + 23.0 * (k / 9) as f64) % 360.0, [6.0, 70.0, 24.0, 48.0, 12.0, 33.0][((j + k) % 6) as usize]);
        if (j + k) % 3 == 0 { TonalPalette::from_hct(&Hct::from(h, c, 20.0 + 10.0 * ((j + k) % 7) as f64)) } else { TonalPalette::of(h, c) }
    };
    let mut s = DynamicScheme::new(src, variant_enum(v), if level == 0.0 && k % 2 == 0 { None } else { Some(level) }, dark, p(0), p(1), p(2), p(3), p(4));
    if k % 4 == 3 {
        s.error_palette = p(5);
    }
    (v, s)
}

// ------------------------------------------------------------------ C16
pub fn pal_is(t: &mut T, p: &TonalPalette, hue: f64, chroma: f64, what: &str) -> Res {
    ensure!(t, chroma < 1e-9 || r::hue_dist(p.hue, hue) < 1e-6, "{}: hue {} expected {}", what, p.hue, hue);
    ensure!(t, r::close(p.chroma, chroma, 1e-7), "{}: chroma {} expected {}", what, p.chroma, chroma);
    Ok(())
}
fn c16(cx: &mut Ctx) {
    let src = sources(cx.pick(16, 48));
    let light: Vec<V> = m::VARIANTS.iter().cloned().filter(|v| !matches!(v, V::Content | V::Fidelity)).collect();
    let n = light.len() as u64;
    let palettes = |v: V, a: i64, t: &mut T| -> Res {
        let h = r::hct(a);
        let spec = m::variant_spec(v, &h);
        for (dark, level) in [(false, 0.0), (true, 0.0), (false, -1.0), (true, 1.0), (false, 0.5)] {
            let s = scheme(v, a, dark, level);
            t.ops(1);
            let p = pals(&s);
            for k in 0..5 {
                let (hue, c) = spec[k].unwrap();
                // rotation breakpoints: accept either side when the source hue sits on one
                // a palette without chroma still carries the hue of a source that has one
                if h.chroma > 1.0 {
                    ensure!(t, c > 0.0 || r::hue_dist(p[k].hue, hue) < 1e-6, "{:?} {:08x} dark={} level={} palette {}: hue {} expected {}", v, a, dark, level, k, p[k].hue, hue);
                }
                if pal_is(t, p[k], hue, c, "").is_err() {
                    let ok = [1e-7, -1e-7].iter().any(|e| {
                        let mut q = h.clone();
                        q.hue += e;
                        let (hue, c) = m::variant_spec(v, &q)[k].unwrap();
                        r::hue_dist(p[k].hue, hue) < 1e-6 && r::close(p[k].chroma, c, 1e-7)
                    }) && h.hue > 1e-6;
                    ensure!(t, ok, "{:?} {:08x} dark={} level={} palette {}: H{} C{} expected H{} C{}", v, a, dark, level, k, p[k].hue, p[k].chroma, hue, c);
                }
                t.out_f(p[k].hue);
            }
            pal_is(t, p[5], 25.0, 84.0, "error palette")?;
        }
        t.note(|| format!("{:?} {:08x}", v, a));
        Ok(())
    };
    cx.space("palettes", "seven hue-rotation variants x source colours x brightness/contrast: six palettes have the hue and chroma of the design specification", src.len() as u64 * n, |i, t| {
        palettes(light[(i % n) as usize], src[(i / n) as usize], t)
    });
    let bps: [f64; 8] = [0.0, 3.0, 60.0, 111.0, 180.0, 250.0, 300.5, 360.0];
    let (nsub, nq) = (256u64, cx.pick(181, 1441));
    cx.space("rotation-tables", "every table of rotation breakpoints (subset of 8) x source hues: the rotation of the interval the hue lies in, none outside the table", nsub * nq, |i, t| {
        let d = digits(i, &[nsub, nq]);
        let hues: Vec<f64> = (0..8).filter(|b| d[0] >> b & 1 == 1).map(|b| bps[b as usize]).collect();
        if hues.is_empty() {
            return t.vacuous();
        }
        let rot: Vec<f64> = hues.iter().enumerate().map(|(k, h)| [12.0, -40.0, 95.0, 200.0, -3.5][(k + *h as usize) % 5]).collect();
        let src = Hct::from(360.0 * d[1] as f64 / nq as f64, 36.0, 55.0);
        let h = src.get_hue();
        let got = DynamicScheme::get_rotated_hue(&src, &hues, &rot);
        t.ops(1);
        let want = |h: f64| if rot.len() == 1 { r::wrap(h + rot[0]) } else {
            match (0..hues.len() - 1).find(|k| hues[*k] < h && h < hues[*k + 1]) { Some(k) => r::wrap(h + rot[k]), None => h }
        };
        ensure!(t, [0.0, 1e-7, -1e-7].iter().any(|e| r::hue_dist(got, want(h + e)) < 1e-6) && (0.0..360.0).contains(&got), "hue {} in table {:?} {:?}: {} expected {}", h, hues, rot, got, want(h));
        t.out_f(got);
        Ok(())
    });
    let nh = cx.pick(3600, 72000);
    cx.space("hue-sweep", "seven hue-rotation variants x sources of every hue (dense sweep across the rotation breakpoints)", nh * n, |i, t| {
        let a = r::solve(360.0 * (i / n) as f64 / nh as f64, [40.0, 70.0][(i / n % 2) as usize], [50.0, 60.0, 35.0][(i / n % 3) as usize]);
        palettes(light[(i % n) as usize], a, t)
    });
    let src = sources(cx.pick(9, 17));
    cx.space("temperature-variants", "content and fidelity x source colours (incl. greys and hues next to 360): palettes follow the specification, tertiary comes from colour temperature", src.len() as u64 * 2, |i, t| {
        let v = if i % 2 == 0 { V::Content } else { V::Fidelity };
        let a = src[(i / 2) as usize];
        let s = scheme(v, a, i % 4 < 2, 0.0);
        let o = scheme(v, a, i % 4 >= 2, if i % 3 == 0 { 1.0 } else { -1.0 });
        t.ops(2);
        for (x, y) in pals(&s).iter().zip(pals(&o)) {
            ensure!(t, x.hue == y.hue && x.chroma == y.chroma, "{:?} {:08x}: brightness or contrast changed a palette", v, a);
        }
        let h = r::hct(a);
        let spec = m::variant_spec(v, &h);
        let p = pals(&s);
        for k in 0..5 {
            if let Some((hue, c)) = spec[k] {
                pal_is(t, p[k], hue, c, &format!("{:?} {:08x} palette {}", v, a, k))?;
            }
        }
        pal_is(t, p[5], 25.0, 84.0, "error palette")?;
        let tm = m::Temp::new(h);
        let cands: Vec<r::H> = if v == V::Content { tm.analogous(3, 6).into_iter().map(|x| x.last().unwrap().clone()).collect() } else { tm.complement() };
        let ok = cands.iter().any(|c| {
            let f = r::fix_disliked(c);
            r::hue_dist(f.hue, p[2].hue) < 1e-6 + if f.chroma < 1e-3 { 360.0 } else { 0.0 } && r::close(f.chroma, p[2].chroma, 1e-7)
        });
        ensure!(t, ok, "{:?} {:08x} tertiary H{} C{} expected one of {:?}", v, a, p[2].hue, p[2].chroma, cands);
        t.out_f(p[2].hue);
        t.note(|| format!("{:?} {:08x} tertiary H{:.2} C{:.2}", v, a, p[2].hue, p[2].chroma));
        Ok(())
    });
}

// ------------------------------------------------------------------ C17
fn cache_schemes() -> Vec<DynamicScheme> {
    let a = 0xff4285f4;
    let mut v = vec![
        scheme(V::Tonal, a, false, 0.0),
        scheme(V::Tonal, a, true, 0.0),
        scheme(V::Tonal, a, false, 1.0),
        scheme(V::Tonal, a, false, 0.5),
        scheme(V::Tonal, a, false, -1.0),
        scheme(V::Tonal, 0xff8a5021, false, 0.0),
        scheme(V::Vibrant, a, false, 0.0),
        scheme(V::Fidelity, a, false, 0.0),
    ];
    // same palettes, only the variant or one palette differs
    let mut s = v[0].clone();
    s.variant = Variant::Monochrome;
    v.push(s);
    for k in 0..6 {
        let mut s = v[0].clone();
        let p = TonalPalette::of(300.0, 40.0);
        match k {
            0 => s.primary_palette = p,
            1 => s.secondary_palette = p,
            2 => s.tertiary_palette = p,
            3 => s.neutral_palette = p,
            4 => s.neutral_variant_palette = p,
            _ => s.error_palette = p,
        }
        v.push(s);
    }
    // only the source colour differs
    let mut s = v[7].clone();
    s.source_color_argb = 0xff1b6b2f;
    s.source_color_hct = Hct::from_int(0xff1b6b2f);
    v.push(s);
    v
}
/// Schemes that are nearly the same: one number a little different, or two palettes exchanged.
pub fn close_schemes() -> Vec<DynamicScheme> {
    let a = 0xff4285f4;
    let base = scheme(V::Fidelity, a, false, 0.5);
    let mut v = vec![base.clone()];
    for d in [1e-3, 0.01, 0.03, -0.03, 0.1] {
        let mut s = base.clone();
        s.contrast_level += d;
        v.push(s);
    }
    fn pal(s: &mut DynamicScheme, k: usize) -> &mut TonalPalette {
        match k {
            0 => &mut s.primary_palette,
            1 => &mut s.secondary_palette,
            2 => &mut s.tertiary_palette,
            3 => &mut s.neutral_palette,
            4 => &mut s.neutral_variant_palette,
            _ => &mut s.error_palette,
        }
    }
    for k in 0..6 {
        for (h, c) in [(0.4, 0.0), (3.0, 0.0), (0.0, 0.45), (0.0, 2.0)] {
            let mut s = base.clone();
            let p = pal(&mut s, k);
            *p = TonalPalette::of(p.hue + h, p.chroma + c);
            v.push(s);
        }
        // the same palette made another way: from its own list, and from one of its colours (which becomes its key colour)
        let (h, c) = { let mut s = base.clone(); let p = pal(&mut s, k); (p.hue, p.chroma) };
        let mut s = base.clone();
        let list = TonalPalette::of(h, c).get_as_list();
        *pal(&mut s, k) = TonalPalette::from_list(&list);
        v.push(s);
        // lists that differ at some tones, but not in the hue and chroma deduced from them
        for swap in [[2, 3], [8, 9], [0, 12]] {
            let mut l = list.clone();
            for j in swap {
                l[j] = Hct::from(h + 150.0, 1.0, 50.0 + j as f64).to_int();
            }
            let mut s = base.clone();
            *pal(&mut s, k) = TonalPalette::from_list(&l);
            v.push(s);
        }
        for tone in [25.0, 75.0] {
            let x = Hct::from(h, c, tone);
            let mut s = base.clone();
            *pal(&mut s, k) = TonalPalette::from_hct(&x);
            v.push(s);
            let mut s = base.clone();
            *pal(&mut s, k) = TonalPalette::of(x.get_hue(), x.get_chroma());
            v.push(s);
        }
        for j in 0..k {
            let mut s = base.clone();
            let (x, y) = (pal(&mut s, k).clone(), pal(&mut s, j).clone());
            *pal(&mut s, k) = y;
            *pal(&mut s, j) = x;
            v.push(s);
        }
    }
    for x in [0xff4285f5, 0xff4284f4, 0xff4385f4, 0xff4a85f4] {
        v.push(scheme(V::Fidelity, x, false, 0.5));
        let mut s = base.clone();
        s.source_color_argb = x;
        s.source_color_hct = Hct::from_int(x);
        v.push(s);
    }
    v
}
fn c17(cx: &mut Ctx) {
    let close = close_schemes();
    let nc = close.len() as u64;
    let nrc = ROLE_FNS.len() as u64;
    let freshc: Vec<Vec<(i64, f64)>> = close.iter().map(|s| ROLE_FNS.iter().map(|(_, f, _)| { let mut x = f(); (x.get_argb(s), f().get_tone(s)) }).collect()).collect();
    let (cr, fr) = (&close, &freshc);
    cx.space("close-schemes", "every role against every ordered pair of nearly identical schemes (contrast level, a palette's hue or chroma, the source a hair apart; two palettes exchanged): each answer equals a fresh role's", nc * nc * nrc, |i, t| {
        let d = digits(i, &[nrc, nc, nc]);
        let (x, y, role) = (d[1] as usize, d[2] as usize, d[0] as usize);
        let mut dc = ROLE_FNS[role].1();
        for k in [x, y, x] {
            let (got, tone) = (dc.get_argb(&cr[k]), dc.get_tone(&cr[k]));
            t.ops(2);
            ensure!(t, (got, tone) == fr[k][role], "role {} over nearly identical schemes {} and {}: {:08x} tone {}, a fresh role gives {:08x} tone {}", ROLE_FNS[role].0, x, y, got, tone, fr[k][role].0, fr[k][role].1);
        }
        t.out(fr[x][role].0 as u64);
        Ok(())
    });
    let all = cache_schemes();
    let fresh: Vec<Vec<i64>> = all.iter().map(|s| ROLE_FNS.iter().map(|(_, f, _)| f().get_argb(s)).collect()).collect();
    let ftone: Vec<Vec<f64>> = all.iter().map(|s| ROLE_FNS.iter().map(|(_, f, _)| f().get_tone(s)).collect()).collect();
    let nr = ROLE_FNS.len() as u64;
    let d = cx.pick(3, 4) as u32;
    let run = |role: usize, seq: &[u64], sc: &[usize], t: &mut T| -> Res {
        let (name, f, _) = ROLE_FNS[role];
        let mut dc = f();
        for (k, op) in seq.iter().enumerate() {
            let si = sc[*op as usize];
            let got = if k % 2 == 0 { dc.get_argb(&all[si]) } else { dc.get_hct(&all[si]).to_int() };
            t.ops(1);
            ensure!(t, got == fresh[si][role], "role {} over schemes {:?}: step {} gives {:08x}, a fresh role gives {:08x}", name, seq.iter().map(|o| sc[*o as usize]).collect::<Vec<_>>(), k, got, fresh[si][role]);
            let tn = dc.get_tone(&all[si]);
            let tf = ftone[si][role];
            ensure!(t, tn == tf, "role {}: tone {} differs from a fresh role's {}", name, tn, tf);
        }
        Ok(())
    };
    let idx: Vec<usize> = (0..all.len()).collect();
    // quick: the schemes that differ in exactly one field from scheme 0
    let sub: Vec<usize> = if cx.quick() { vec![0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 15] } else { idx.clone() };
    let m = sub.len() as u64;
    let cnt = m.pow(d);
    cx.space("histories", "one role object resolved against every sequence of schemes differing in a single field: each answer equals a fresh role's", cnt * nr, |i, t| {
        let seq = digits(i / nr, &vec![m; d as usize]);
        t.note(|| format!("{} over {:?}", ROLE_FNS[(i % nr) as usize].0, seq));
        run((i % nr) as usize, &seq, &sub, t)
    });
    let cw = crate::p_pal::pair_walk(nc.min(56));
    let cwr = &cw;
    cx.space("long-life", "every role object resolved along a walk over all ordered pairs of nearly identical schemes (thousands of resolutions): each answer equals a fresh role's", nrc, |i, t| {
        let mut dc = ROLE_FNS[i as usize].1();
        for (s, k) in cwr.iter().enumerate() {
            let got = dc.get_argb(&cr[*k as usize]);
            t.ops(1);
            ensure!(t, got == fr[*k as usize][i as usize].0, "role {}: {:08x} after {} resolutions, a fresh role gives {:08x}", ROLE_FNS[i as usize].0, got, s, fr[*k as usize][i as usize].0);
        }
        Ok(())
    });
    // long histories: more schemes than the object remembers, then revisits
    let long: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6];
    let roles: Vec<usize> = ["primary", "on_surface", "surface", "primary_container", "on_primary_fixed", "error"].iter().map(|n| ROLE_FNS.iter().position(|x| x.0 == *n).unwrap()).collect();
    let (w, dd) = (6u64, cx.pick(7, 8) as usize);
    let cnt = w.pow(dd as u32);
    let nrr = cx.pick(1, 3);
    cx.space("long-histories", "all scheme sequences longer than the object's memory: revisited schemes still give the fresh answer", cnt * nrr, |i, t| {
        let seq = digits(i / nrr, &vec![w; dd]);
        run(roles[(i % nrr) as usize], &seq, &long, t)
    });
}

// ------------------------------------------------------------------ C31
fn c31(cx: &mut Ctx) {
    let src = sources(cx.pick(3, 7));
    let lv = levels(cx.pick(4, 16));
    let nv = m::VARIANTS.len() as u64;
    let nr = ROLE_FNS.len() as u64;
    // the same tone, or a tie decided the other way
    let near = |name: &str, t0: f64, ms: &m::Sch| {
        const E: [f64; 3] = [0.0, -1e-9, 1e-9];
        (0..27).any(|k| {
            let mut q = ms.clone();
            q.level += E[k / 9];
            q.src.tone += E[k / 3 % 3];
            for p in q.pal.iter_mut() {
                p.chroma += E[k % 3];
            }
            (m::spec(name, &q).tone - t0).abs() < 1e-6
        })
    };
    let near = &near;
    let side = |t: &mut T, what: &str, x: &DynamicColor, s: &DynamicScheme, ms: &m::Sch, w: &m::Side| -> Res {
        ensure!(t, x.name == w.name, "{}: pairs with {}, expected {}", what, x.name, w.name);
        ensure!(t, near(&x.name, (x.tone)(s), ms), "{}: pair member {} starts from tone {}, expected {}", what, x.name, (x.tone)(s), w.tone);
        let c = x.contrast_curve.as_ref().map(|c| [c.low, c.normal, c.medium, c.high]);
        ensure!(t, c == Some(w.curve), "{}: pair member {} has curve {:?}, expected {:?}", what, x.name, c, w.curve);
        Ok(())
    };
    cx.space("declarations", "every role x variant x source x brightness x contrast level: name, palette, starting tone, background flag, backgrounds, contrast curve and tone pair are those of the design specification", src.len() as u64 * nv * 2 * lv.len() as u64, |i, t| {
        let d = digits(i, &[src.len() as u64, nv, 2, lv.len() as u64]);
        let (a, v, dark, l) = (src[d[0] as usize], m::VARIANTS[d[1] as usize], d[2] == 1, lv[d[3] as usize]);
        let s = if d[0] % 5 == 4 {
            custom(d[1] + 9 * (d[0] % 7), a, dark, l)
        } else if d[0] % 5 == 3 {
            let mut s = hand_made(v, a, 29.0 * d[0] as f64, (d[0] / 5) as usize % HAND_CHROMA.len(), dark);
            s.contrast_level = l;
            (v, s)
        } else {
            (v, scheme(v, a, dark, l))
        };
        let (v, s) = s;
        let ms = model(v, &s);
        for (name, f, _) in ROLE_FNS {
            let dc = f();
            let w = m::spec(name, &ms);
            let what = || format!("{:?} {:08x} dark={} level={} {}", v, a, dark, l, name);
            t.ops(1);
            ensure!(t, dc.name == *name, "{}: is named {}", what(), dc.name);
            ensure!(t, dc.is_background == w.is_bg, "{}: is_background {}", what(), dc.is_background);
            let p: &TonalPalette = (dc.palette)(&s);
            let k = pals(&s)[w.pal as usize];
            ensure!(t, p.hue == k.hue && p.chroma == k.chroma, "{}: drawn from palette H{} C{}, expected H{} C{}", what(), p.hue, p.chroma, k.hue, k.chroma);
            let t0 = (dc.tone)(&s);
            ensure!(t, near(name, t0, &ms), "{}: starts from tone {}, expected {}", what(), t0, w.tone);
            let bn = |b: &Option<Box<dyn Fn(&DynamicScheme) -> DynamicColor>>| b.as_ref().map(|f| f(&s).name);
            ensure!(t, bn(&dc.background) == w.bg.as_ref().map(|b| b.name.clone()), "{}: background {:?}", what(), bn(&dc.background));
            ensure!(t, bn(&dc.second_background) == w.bg2.as_ref().map(|b| b.name.clone()), "{}: second background {:?}", what(), bn(&dc.second_background));
            let c = dc.contrast_curve.as_ref().map(|c| [c.low, c.normal, c.medium, c.high]);
            ensure!(t, c == w.curve, "{}: contrast curve {:?}, expected {:?}", what(), c, w.curve);
            match (&dc.tone_delta_pair, &w.pair) {
                (None, None) => {}
                (Some(f), Some(w)) => {
                    let p = f(&s);
                    // the same constraint may be stated from either side
                    let dirn = |x: &TonePolarity| match x {
                        TonePolarity::Nearer => Pol::Nearer,
                        TonePolarity::Farther => Pol::Farther,
                        TonePolarity::Lighter => Pol::Lighter,
                        TonePolarity::Darker => Pol::Darker,
                    };
                    let (mut pa, mut pb, mut po) = (&p.role_a, &p.role_b, dirn(&p.polarity));
                    if pa.name == w.b.name && pb.name == w.a.name {
                        std::mem::swap(&mut pa, &mut pb);
                        po = match po { Pol::Nearer => Pol::Farther, Pol::Farther => Pol::Nearer, Pol::Lighter => Pol::Darker, Pol::Darker => Pol::Lighter };
                    }
                    side(t, &what(), pa, &s, &ms, &w.a)?;
                    side(t, &what(), pb, &s, &ms, &w.b)?;
                    ensure!(t, po == w.pol && p.delta == w.delta && p.stay_together == w.stay, "{}: pair distance {} polarity {:?} stay {}", what(), p.delta, po, p.stay_together);
                }
                _ => return Err(format!("{}: tone pair {}", what(), if w.pair.is_some() { "missing" } else { "unexpected" })),
            }
            t.out_f(t0);
        }
        let hs = MDC::highest_surface(&s).name;
        ensure!(t, hs == if dark { "surface_bright" } else { "surface_dim" }, "highest surface is {}", hs);
        Ok(())
    });
    let names: std::collections::BTreeSet<String> = ROLE_FNS.iter().map(|x| (x.1)().name).collect();
    cx.space("names", "role names are distinct", 1, |_, t| {
        ensure!(t, names.len() as u64 == nr, "{} names for {} roles", names.len(), nr);
        t.ops(nr);
        Ok(())
    });
}
