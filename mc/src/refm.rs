//! Reference model: colour science (sRGB, CIE XYZ/Lab, CAM16, HCT) written from the published
//! definitions, independent of the crate under test (no call into it from this file).
#![allow(dead_code)]
use std::f64::consts::PI;
use std::sync::OnceLock;

pub const OPAQUE: i64 = 0xff00_0000;

pub fn rgb(argb: i64) -> [i64; 3] {
    [(argb >> 16) & 255, (argb >> 8) & 255, argb & 255]
}
pub fn argb(c: [i64; 3]) -> i64 {
    OPAQUE | (c[0] << 16) | (c[1] << 8) | c[2]
}

// ---------------------------------------------------------------- sRGB transfer function
/// 0..=255 (also fractional) -> 0..=100
pub fn eotf(v: f64) -> f64 {
    let n = v / 255.0;
    if n <= 0.040449936 {
        n / 12.92 * 100.0
    } else {
        ((n + 0.055) / 1.055).powf(2.4) * 100.0
    }
}
/// 0..=100 -> 0..=255, unrounded, unclamped
pub fn oetf(v: f64) -> f64 {
    let n = v / 100.0;
    255.0 * if n <= 0.0031308 { n * 12.92 } else { 1.055 * n.powf(1.0 / 2.4) - 0.055 }
}
pub fn quant8(v: f64) -> i64 {
    (v.round() as i64).clamp(0, 255)
}
pub fn lin8(c: i64) -> f64 {
    static T: OnceLock<[f64; 256]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0.0; 256];
        for (i, x) in t.iter_mut().enumerate() {
            *x = eotf(i as f64);
        }
        t
    })[c as usize]
}
/// Is the 8 bit value `got` the correct rounding of unrounded `v`, allowing either side of a tie?
pub fn rounds_to(v: f64, got: i64, eps: f64) -> bool {
    if !(0..=255).contains(&got) {
        return false;
    }
    quant8(v) == got || quant8(v - eps) == got || quant8(v + eps) == got
}

// ---------------------------------------------------------------- XYZ / Lab
pub const M_XYZ: [[f64; 3]; 3] = [
    [0.41233895, 0.35762064, 0.18051042],
    [0.2126, 0.7152, 0.0722],
    [0.01932141, 0.11916382, 0.95034478],
];
pub const D65: [f64; 3] = [95.047, 100.0, 108.883];
pub fn mul(m: &[[f64; 3]; 3], v: [f64; 3]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for i in 0..3 {
        o[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
    }
    o
}
pub fn inv3(m: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let c = |a: usize, b: usize, c: usize, d: usize| m[a][b] * m[c][d];
    let det = m[0][0] * (c(1, 1, 2, 2) - c(1, 2, 2, 1)) - m[0][1] * (c(1, 0, 2, 2) - c(1, 2, 2, 0))
        + m[0][2] * (c(1, 0, 2, 1) - c(1, 1, 2, 0));
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (r0, r1) = ((j + 1) % 3, (j + 2) % 3);
            let (c0, c1) = ((i + 1) % 3, (i + 2) % 3);
            o[i][j] = (m[r0][c0] * m[r1][c1] - m[r0][c1] * m[r1][c0]) / det;
        }
    }
    o
}
pub fn m_rgb() -> &'static [[f64; 3]; 3] {
    static M: OnceLock<[[f64; 3]; 3]> = OnceLock::new();
    M.get_or_init(|| inv3(&M_XYZ))
}
pub fn linrgb(a: i64) -> [f64; 3] {
    let c = rgb(a);
    [lin8(c[0]), lin8(c[1]), lin8(c[2])]
}
pub fn xyz(a: i64) -> [f64; 3] {
    mul(&M_XYZ, linrgb(a))
}
/// unrounded sRGB channels of an XYZ colour
pub fn chans_from_xyz(p: [f64; 3]) -> [f64; 3] {
    let l = mul(m_rgb(), p);
    [oetf(l[0]), oetf(l[1]), oetf(l[2])]
}
const EPS: f64 = 216.0 / 24389.0;
const KAPPA: f64 = 24389.0 / 27.0;
pub fn labf(t: f64) -> f64 {
    if t > EPS { t.powf(1.0 / 3.0) } else { (KAPPA * t + 16.0) / 116.0 }
}
pub fn labinv(f: f64) -> f64 {
    let c = f * f * f;
    if c > EPS { c } else { (116.0 * f - 16.0) / KAPPA }
}
pub fn y_of(l: f64) -> f64 {
    100.0 * labinv((l + 16.0) / 116.0)
}
pub fn l_of(y: f64) -> f64 {
    116.0 * labf(y / 100.0) - 16.0
}
pub fn tone(a: i64) -> f64 {
    l_of(xyz(a)[1])
}
pub fn lab(a: i64) -> [f64; 3] {
    let p = xyz(a);
    let f = [labf(p[0] / D65[0]), labf(p[1] / D65[1]), labf(p[2] / D65[2])];
    [116.0 * f[1] - 16.0, 500.0 * (f[0] - f[1]), 200.0 * (f[1] - f[2])]
}
pub fn chans_from_lab(l: [f64; 3]) -> [f64; 3] {
    let fy = (l[0] + 16.0) / 116.0;
    chans_from_xyz([
        D65[0] * labinv(fy + l[1] / 500.0),
        D65[1] * labinv(fy),
        D65[2] * labinv(fy - l[2] / 200.0),
    ])
}
pub fn chans_ok(ch: [f64; 3], got: i64, eps: f64) -> bool {
    let c = rgb(got);
    (got >> 24) == 255 && (0..3).all(|i| rounds_to(ch[i], c[i], eps))
}
/// grey of a given L*
pub fn grey(l: f64) -> i64 {
    let c = quant8(oetf(y_of(l)));
    argb([c, c, c])
}

// ---------------------------------------------------------------- angles
pub fn wrap(d: f64) -> f64 {
    let r = d.rem_euclid(360.0);
    if r >= 360.0 { 0.0 } else { r }
}
pub fn hue_dist(a: f64, b: f64) -> f64 {
    let d = wrap(a - b);
    d.min(360.0 - d)
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

// ---------------------------------------------------------------- CAM16
pub const M16: [[f64; 3]; 3] = [
    [0.401288, 0.650173, -0.051461],
    [-0.250268, 1.204414, 0.045854],
    [-0.002079, 0.048952, 0.953127],
];
#[derive(Clone, Debug)]
pub struct Vc {
    pub n: f64,
    pub aw: f64,
    pub nbb: f64,
    pub c: f64,
    pub nc: f64,
    pub d: [f64; 3],
    pub fl: f64,
    pub z: f64,
}
pub fn vc(white: [f64; 3], la: f64, bg_l: f64, surround: f64, discount: bool) -> Vc {
    let bg_l = bg_l.max(0.1);
    let w = mul(&M16, white);
    let f = 0.8 + surround / 10.0;
    let c = if f >= 0.9 {
        let t = (f - 0.9) * 10.0;
        0.59 + (0.69 - 0.59) * t
    } else {
        let t = (f - 0.8) * 10.0;
        0.525 + (0.59 - 0.525) * t
    };
    let dd = if discount { 1.0 } else { f * (1.0 - (1.0 / 3.6) * ((-la - 42.0) / 92.0).exp()) };
    let dd = dd.clamp(0.0, 1.0);
    let d = [dd * 100.0 / w[0] + 1.0 - dd, dd * 100.0 / w[1] + 1.0 - dd, dd * 100.0 / w[2] + 1.0 - dd];
    let k = 1.0 / (5.0 * la + 1.0);
    let k4 = k.powi(4);
    let fl = k4 * la + 0.1 * (1.0 - k4) * (1.0 - k4) * (5.0 * la).powf(1.0 / 3.0);
    let n = y_of(bg_l) / white[1];
    let z = 1.48 + n.sqrt();
    let nbb = 0.725 / n.powf(0.2);
    let ad = |i: usize| {
        let x = (fl * d[i] * w[i] / 100.0).powf(0.42);
        400.0 * x / (x + 27.13)
    };
    let aw = (2.0 * ad(0) + ad(1) + ad(2) / 20.0) * nbb;
    Vc { n, aw, nbb, c, nc: f, d, fl, z }
}
pub fn default_la() -> f64 {
    200.0 / PI * y_of(50.0) / 100.0
}
pub fn vc0() -> &'static Vc {
    static V: OnceLock<Vc> = OnceLock::new();
    V.get_or_init(|| vc(D65, default_la(), 50.0, 2.0, false))
}
#[derive(Clone, Debug)]
pub struct Cam {
    pub hue: f64,
    pub chroma: f64,
    pub j: f64,
    pub q: f64,
    pub m: f64,
    pub s: f64,
    pub jstar: f64,
    pub astar: f64,
    pub bstar: f64,
}
fn adapt(x: f64) -> f64 {
    let a = x.abs().powf(0.42);
    let s = if x == 0.0 { 0.0 } else { x.signum() };
    s * 400.0 * a / (a + 27.13)
}
fn unadapt(x: f64) -> f64 {
    let a = x.abs();
    let b = (27.13 * a / (400.0 - a)).max(0.0);
    let s = if x == 0.0 { 0.0 } else { x.signum() };
    s * b.powf(1.0 / 0.42)
}
pub fn cam_xyz(p: [f64; 3], v: &Vc) -> Cam {
    let r = mul(&M16, p);
    let a: Vec<f64> = (0..3).map(|i| adapt(v.fl * v.d[i] * r[i] / 100.0)).collect();
    let ca = a[0] - 12.0 * a[1] / 11.0 + a[2] / 11.0;
    let cb = (a[0] + a[1] - 2.0 * a[2]) / 9.0;
    let u = a[0] + a[1] + 21.0 * a[2] / 20.0;
    let p2 = 2.0 * a[0] + a[1] + a[2] / 20.0;
    let mut hue = cb.atan2(ca).to_degrees();
    if hue < 0.0 {
        hue += 360.0;
    }
    let j = 100.0 * (p2 * v.nbb / v.aw).powf(v.c * v.z);
    let fl4 = v.fl.powf(0.25);
    let q = 4.0 / v.c * (j / 100.0).sqrt() * (v.aw + 4.0) * fl4;
    let hp = if hue < 20.14 { hue + 360.0 } else { hue };
    let et = 0.25 * ((hp.to_radians() + 2.0).cos() + 3.8);
    let t = 50000.0 / 13.0 * v.nc * v.nbb * et * ca.hypot(cb) / (u + 0.305);
    let alpha = t.powf(0.9) * (1.64 - 0.29f64.powf(v.n)).powf(0.73);
    let chroma = alpha * (j / 100.0).sqrt();
    let m = chroma * fl4;
    let s = 50.0 * (alpha * v.c / (v.aw + 4.0)).sqrt();
    let jstar = 1.7 * j / (1.0 + 0.007 * j);
    let ms = (1.0 + 0.0228 * m).ln() / 0.0228;
    let (sn, cs) = hue.to_radians().sin_cos();
    Cam { hue, chroma, j, q, m, s, jstar, astar: ms * cs, bstar: ms * sn }
}
pub fn cam(a: i64) -> Cam {
    cam_xyz(xyz(a), vc0())
}
/// XYZ of a (J, C, h) appearance under `v`
pub fn xyz_of_jch(j: f64, c: f64, h: f64, v: &Vc) -> [f64; 3] {
    let alpha = if c == 0.0 || j == 0.0 { 0.0 } else { c / (j / 100.0).sqrt() };
    let t = (alpha / (1.64 - 0.29f64.powf(v.n)).powf(0.73)).powf(1.0 / 0.9);
    let hr = h.to_radians();
    let et = 0.25 * ((hr + 2.0).cos() + 3.8);
    let p1 = et * 50000.0 / 13.0 * v.nc * v.nbb;
    let p2 = v.aw * (j / 100.0).powf(1.0 / v.c / v.z) / v.nbb;
    let (sn, cs) = hr.sin_cos();
    let g = 23.0 * (p2 + 0.305) * t / (23.0 * p1 + 11.0 * t * cs + 108.0 * t * sn);
    let (a, b) = (g * cs, g * sn);
    let ad = [
        (460.0 * p2 + 451.0 * a + 288.0 * b) / 1403.0,
        (460.0 * p2 - 891.0 * a - 261.0 * b) / 1403.0,
        (460.0 * p2 - 220.0 * a - 6300.0 * b) / 1403.0,
    ];
    let mut r = [0.0; 3];
    for i in 0..3 {
        r[i] = unadapt(ad[i]) * 100.0 / v.fl / v.d[i];
    }
    // the published (8 digit) inverse of M16
    mul(
        &[
            [1.86206786, -1.01125463, 0.14918677],
            [0.38752654, 0.62144744, -0.00897398],
            [-0.01584150, -0.03412294, 1.04996444],
        ],
        r,
    )
}
pub fn jch_of_ucs(js: f64, a: f64, b: f64, v: &Vc) -> (f64, f64, f64) {
    let m = ((a.hypot(b) * 0.0228).exp() - 1.0) / 0.0228;
    let c = m / v.fl.powf(0.25);
    let mut h = b.atan2(a).to_degrees();
    if h < 0.0 {
        h += 360.0;
    }
    (js / (1.0 - (js - 100.0) * 0.007), c, h)
}
pub fn ucs_dist(a: &Cam, b: &Cam) -> f64 {
    let d = ((a.jstar - b.jstar).powi(2) + (a.astar - b.astar).powi(2) + (a.bstar - b.bstar).powi(2)).sqrt();
    1.41 * d.powf(0.63)
}

// ---------------------------------------------------------------- HCT
#[derive(Clone, Debug, PartialEq)]
pub struct H {
    pub hue: f64,
    pub chroma: f64,
    pub tone: f64,
    pub argb: i64,
}
pub fn hct(a: i64) -> H {
    let c = cam(a);
    H { hue: c.hue, chroma: c.chroma, tone: tone(a), argb: a }
}
/// linear RGB (0..100) -> scaled, discounted cone responses, default viewing conditions
fn m_scaled() -> &'static ([[f64; 3]; 3], [[f64; 3]; 3]) {
    static M: OnceLock<([[f64; 3]; 3], [[f64; 3]; 3])> = OnceLock::new();
    M.get_or_init(|| {
        let v = vc0();
        let mut m = [[0.0; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                let s: f64 = (0..3).map(|k| M16[i][k] * M_XYZ[k][j]).sum();
                m[i][j] = s * v.fl * v.d[i] / 100.0;
            }
        }
        let inv = inv3(&m);
        (m, inv)
    })
}
pub fn hue_of_lin(l: [f64; 3]) -> f64 {
    let r = mul(&m_scaled().0, l);
    let a = [adapt(r[0]), adapt(r[1]), adapt(r[2])];
    let ca = (11.0 * a[0] - 12.0 * a[1] + a[2]) / 11.0;
    let cb = (a[0] + a[1] - 2.0 * a[2]) / 9.0;
    cb.atan2(ca)
}
fn cyc(a: f64, b: f64, c: f64) -> bool {
    // b lies in [a, c) going round; the angles themselves are compared, so ties are consistent
    let s = |x: f64| if x < 0.0 { x + 2.0 * PI } else { x };
    let (a, b, c) = (s(a), s(b), s(c));
    if a <= c { a <= b && b < c } else { a <= b || b < c }
}
const KY: [f64; 3] = [0.2126, 0.7152, 0.0722];

/// Newton search for an in-gamut colour; None when out of gamut.
pub fn solve_exact(hr: f64, chroma: f64, y: f64) -> Option<[f64; 3]> {
    let v = vc0();
    let mut j = y.sqrt() * 11.0;
    let tc = 1.0 / (1.64 - 0.29f64.powf(v.n)).powf(0.73);
    let p1 = 0.25 * ((hr + 2.0).cos() + 3.8) * (50000.0 / 13.0) * v.nc * v.nbb;
    let (sn, cs) = hr.sin_cos();
    for round in 0..5 {
        let jn = j / 100.0;
        let alpha = if chroma == 0.0 || j == 0.0 { 0.0 } else { chroma / jn.sqrt() };
        let t = (alpha * tc).powf(1.0 / 0.9);
        let p2 = v.aw * jn.powf(1.0 / v.c / v.z) / v.nbb;
        let g = 23.0 * (p2 + 0.305) * t / (23.0 * p1 + 11.0 * t * cs + 108.0 * t * sn);
        let (a, b) = (g * cs, g * sn);
        let r = [
            unadapt((460.0 * p2 + 451.0 * a + 288.0 * b) / 1403.0),
            unadapt((460.0 * p2 - 891.0 * a - 261.0 * b) / 1403.0),
            unadapt((460.0 * p2 - 220.0 * a - 6300.0 * b) / 1403.0),
        ];
        let l = mul(&m_scaled().1, r);
        if l.iter().any(|x| *x < 0.0) {
            return None;
        }
        let f = KY[0] * l[0] + KY[1] * l[1] + KY[2] * l[2];
        if f <= 0.0 {
            return None;
        }
        if round == 4 || (f - y).abs() < 0.002 {
            if l.iter().any(|x| *x > 100.01) {
                return None;
            }
            return Some(l);
        }
        j -= (f - y) * j / (2.0 * f);
    }
    None
}
/// The point of the sRGB cube's surface with luminance y and hue hr (maximal chroma).
pub fn solve_limit(y: f64, hr: f64) -> [f64; 3] {
    // vertices of the polygon {Y = y} inside the RGB cube: intersect its 12 edges
    let mut verts: Vec<[f64; 3]> = Vec::new();
    for free in 0..3usize {
        let o = [(free + 1) % 3, (free + 2) % 3];
        for k in 0..4 {
            let mut p = [0.0; 3];
            p[o[0]] = if k < 2 { 0.0 } else { 100.0 };
            p[o[1]] = if k % 2 == 0 { 0.0 } else { 100.0 };
            p[free] = (y - p[o[0]] * KY[o[0]] - p[o[1]] * KY[o[1]]) / KY[free];
            if (0.0..=100.0).contains(&p[free]) {
                verts.push(p);
            }
        }
    }
    let (mut l, mut r) = ([-1.0; 3], [-1.0; 3]);
    let (mut lh, mut rh) = (0.0, 0.0);
    for (i, m) in verts.iter().enumerate() {
        let mh = hue_of_lin(*m);
        if i == 0 {
            l = *m;
            r = *m;
            lh = mh;
            rh = mh;
            continue;
        }
        if i == 1 || cyc(lh, mh, rh) {
            if cyc(lh, hr, mh) {
                r = *m;
                rh = mh;
            } else {
                l = *m;
                lh = mh;
            }
        }
    }
    let mut lh = hue_of_lin(l);
    for ax in 0..3 {
        if l[ax] == r[ax] {
            continue;
        }
        let below = |x: f64| (oetf(x) - 0.5).floor() as i64;
        let above = |x: f64| (oetf(x) - 0.5).ceil() as i64;
        let (mut lp, mut rp) =
            if l[ax] < r[ax] { (below(l[ax]), above(r[ax])) } else { (above(l[ax]), below(r[ax])) };
        for _ in 0..8 {
            if (rp - lp).abs() <= 1 {
                break;
            }
            let mp = (lp + rp).div_euclid(2);
            let coord = eotf(mp as f64 + 0.5);
            let t = (coord - l[ax]) / (r[ax] - l[ax]);
            let m = [l[0] + (r[0] - l[0]) * t, l[1] + (r[1] - l[1]) * t, l[2] + (r[2] - l[2]) * t];
            let mh = hue_of_lin(m);
            if cyc(lh, hr, mh) {
                r = m;
                rp = mp;
            } else {
                l = m;
                lh = mh;
                lp = mp;
            }
        }
    }
    [(l[0] + r[0]) / 2.0, (l[1] + r[1]) / 2.0, (l[2] + r[2]) / 2.0]
}
pub fn from_lin(l: [f64; 3]) -> i64 {
    argb([quant8(oetf(l[0])), quant8(oetf(l[1])), quant8(oetf(l[2]))])
}
/// Reference HCT -> ARGB
pub fn solve(h: f64, c: f64, t: f64) -> i64 {
    if c < 0.0001 || t < 0.0001 || t > 99.9999 {
        return grey(t);
    }
    let hr = wrap(h) / 180.0 * PI;
    let y = y_of(t);
    match solve_exact(hr, c, y) {
        Some(l) => from_lin(l),
        None => from_lin(solve_limit(y, hr)),
    }
}
/// `got` is what the reference answers for this request or for one indistinguishable from it
/// (inputs moved by a relative 1e-8): tolerates rounding ties, nothing else.
pub fn solve_matches(h: f64, c: f64, t: f64, got: i64) -> bool {
    if solve(h, c, t) == got {
        return true;
    }
    for e in [1e-12, 1e-10, 1e-8] {
        for k in 1..27 {
            let f = |i: i64| (i - 1) as f64;
            let (dh, dc, dt) = (f(k % 3), f(k / 3 % 3), f(k / 9 % 3));
            if solve(h + dh * e * 360.0, c + dc * e * c.abs().max(1.0), t + dt * e * 100.0) == got {
                return true;
            }
        }
    }
    // a mixture of ties on individual channels: compare channelwise with the unrounded answer
    let hr = wrap(h) / 180.0 * PI;
    let y = y_of(t);
    let l = if c < 0.0001 || t < 0.0001 || t > 99.9999 {
        return chans_ok([oetf(y); 3], got, 1e-7);
    } else {
        match solve_exact(hr, c, y) {
            Some(l) => l,
            None => solve_limit(y, hr),
        }
    };
    chans_ok([oetf(l[0]), oetf(l[1]), oetf(l[2])], got, 1e-6)
}
pub fn hct_from(h: f64, c: f64, t: f64) -> H {
    hct(solve(h, c, t))
}

// ---------------------------------------------------------------- contrast
pub fn ratio_y(a: f64, b: f64) -> f64 {
    let (hi, lo) = if a > b { (a, b) } else { (b, a) };
    (hi + 5.0) / (lo + 5.0)
}
pub fn ratio(a: f64, b: f64) -> f64 {
    ratio_y(y_of(a.clamp(0.0, 100.0)), y_of(b.clamp(0.0, 100.0)))
}
/// WCAG contrast of two colours, from their luminances
pub fn ratio_argb(a: i64, b: i64) -> f64 {
    ratio_y(xyz(a)[1], xyz(b)[1])
}
pub fn lighter(t: f64, r: f64) -> f64 {
    if !(0.0..=100.0).contains(&t) {
        return -1.0;
    }
    let d = y_of(t);
    let l = r * (d + 5.0) - 5.0;
    let v = l_of(l) + 0.4;
    if !(0.0..=100.0).contains(&v) { -1.0 } else { v }
}
pub fn darker(t: f64, r: f64) -> f64 {
    if !(0.0..=100.0).contains(&t) {
        return -1.0;
    }
    let l = y_of(t);
    let d = (l + 5.0) / r - 5.0;
    let v = l_of(d) - 0.4;
    if !(0.0..=100.0).contains(&v) { -1.0 } else { v }
}
pub fn lighter_u(t: f64, r: f64) -> f64 {
    let v = lighter(t, r);
    if v < 0.0 { 100.0 } else { v }
}
pub fn darker_u(t: f64, r: f64) -> f64 {
    let v = darker(t, r);
    if v < 0.0 { 0.0 } else { v }
}
pub fn foreground(bg: f64, r: f64) -> f64 {
    let (l, d) = (lighter_u(bg, r), darker_u(bg, r));
    let (lr, dr) = (ratio(l, bg), ratio(d, bg));
    if bg.round() < 60.0 {
        let negligible = (lr - dr).abs() < 0.1 && lr < r && dr < r;
        if lr >= r || lr >= dr || negligible { l } else { d }
    } else if dr >= r || dr >= lr {
        d
    } else {
        l
    }
}
pub fn curve(c: [f64; 4], level: f64) -> f64 {
    let seg = |a: f64, b: f64, t: f64| (1.0 - t) * a + t * b;
    if level <= -1.0 {
        c[0]
    } else if level < 0.0 {
        seg(c[0], c[1], level + 1.0)
    } else if level < 0.5 {
        seg(c[1], c[2], level / 0.5)
    } else if level < 1.0 {
        seg(c[2], c[3], (level - 0.5) / 0.5)
    } else {
        c[3]
    }
}

// ---------------------------------------------------------------- dislike / key colour / temperature
pub fn disliked(h: &H) -> bool {
    (90.0..=111.0).contains(&h.hue.round()) && h.chroma.round() > 16.0 && h.tone.round() < 65.0
}
pub fn fix_disliked(h: &H) -> H {
    if disliked(h) { hct_from(h.hue, h.chroma, 70.0) } else { h.clone() }
}
pub fn key_color(hue: f64, chroma: f64) -> H {
    let mut best = hct_from(hue, chroma, 50.0);
    let mut err = (best.chroma - chroma).abs();
    for d in 1..50 {
        if best.chroma.round() == chroma.round() {
            return best;
        }
        for t in [50.0 + d as f64, 50.0 - d as f64] {
            let h = hct_from(hue, chroma, t);
            let e = (h.chroma - chroma).abs();
            if e < err {
                err = e;
                best = h;
            }
        }
    }
    best
}
pub fn raw_temp(a: i64) -> f64 {
    let l = lab(a);
    let hue = wrap(l[2].atan2(l[1]).to_degrees());
    -0.5 + 0.02 * l[1].hypot(l[2]).powf(1.07) * wrap(hue - 50.0).to_radians().cos()
}
