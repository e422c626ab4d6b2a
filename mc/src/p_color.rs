//! Colour core: HCT, CAM16, sRGB/XYZ/Lab, tones, degrees, hex, viewing conditions.
use crate::engine::*;
use crate::ensure;
use crate::refm as r;
use material_color_utilities_rs::hct::cam16::Cam16;
use material_color_utilities_rs::hct::hct::Hct;
use material_color_utilities_rs::hct::src::hct_solver::HctSolver;
use material_color_utilities_rs::hct::viewing_conditions::ViewingConditions;
use material_color_utilities_rs::utils::color_utils::ColorUtils;
use material_color_utilities_rs::utils::math_utils::MathUtils;
use material_color_utilities_rs::utils::string_utils::StringUtils;

pub fn run(id: &str, cx: &mut Ctx) -> bool {
    match id {
        "C01" => c01(cx),
        "C02" => c02(cx),
        "C03" => c03(cx),
        "C04" => c04(cx),
        "C05" => c05(cx),
        "C06" => c06(cx),
        "C07" => c07(cx),
        "C08" => c08(cx),
        "C09" => c09(cx),
        "C10" => c10(cx),
        _ => return false,
    }
    true
}

pub fn opaque(i: u64) -> i64 {
    0xff000000 | i as i64
}
/// n-level lattice of the RGB cube (0 and 255 always included)
pub fn lattice(i: u64, n: u64) -> i64 {
    let d = digits(i, &[n, n, n]);
    let f = |k: u64| (k * 255 / (n - 1)) as i64;
    0xff000000 | f(d[0]) << 16 | f(d[1]) << 8 | f(d[2])
}
pub fn hctc(t: &mut T, h: &Hct, a: i64, what: &str) -> Res {
    let m = r::hct(a);
    let hue_tol = if m.chroma < 1e-6 { 360.0 } else { 1e-6 + 1e-5 / m.chroma };
    ensure!(t, h.to_int() == a, "{}: argb {:08x} expected {:08x}", what, h.to_int(), a);
    ensure!(t, h.get_hue() >= 0.0 && h.get_hue() < 360.0, "{}: hue {} out of [0,360)", what, h.get_hue());
    ensure!(t, r::hue_dist(h.get_hue(), m.hue) <= hue_tol, "{}: {:08x} hue {} expected {}", what, a, h.get_hue(), m.hue);
    ensure!(t, r::close(h.get_chroma(), m.chroma, 1e-7), "{}: {:08x} chroma {} expected {}", what, a, h.get_chroma(), m.chroma);
    ensure!(t, r::close(h.get_tone(), m.tone, 1e-9), "{}: {:08x} tone {} expected {}", what, a, h.get_tone(), m.tone);
    Ok(())
}

// ------------------------------------------------------------------ C01
fn c01(cx: &mut Ctx) {
    cx.space("all-colours", "every opaque 24-bit colour: decompose, compare with CAM16/L* model, recompose", 1 << 24, |i, t| {
        let a = opaque(i);
        let h = Hct::from_int(a);
        t.ops(2);
        hctc(t, &h, a, "from_int")?;
        ensure!(t, h.get_chroma() >= 0.0 && h.get_chroma() < 200.0, "chroma {} out of range", h.get_chroma());
        ensure!(t, h.get_tone() > -1e-9 && h.get_tone() < 100.0 + 1e-9, "tone {} out of range", h.get_tone());
        let b = Hct::from(h.get_hue(), h.get_chroma(), h.get_tone());
        ensure!(t, b.to_int() == a, "{:08x} -> H{} C{} T{} -> {:08x}", a, h.get_hue(), h.get_chroma(), h.get_tone(), b.to_int());
        t.out_f(h.get_hue());
        t.note(|| format!("{:08x} = H{:.3} C{:.3} T{:.3}", a, h.get_hue(), h.get_chroma(), h.get_tone()));
        Ok(())
    });
    cx.space("alpha", "256 alpha values x 9^3 colours: alpha is kept and ignored by hue/chroma/tone", 256 * 729, |i, t| {
        let a = lattice(i / 256, 9);
        let b = (a & 0xffffff) | ((i % 256) as i64) << 24;
        let h = Hct::from_int(b);
        let g = Hct::new(b);
        t.ops(2);
        hctc(t, &h, b, "from_int")?;
        hctc(t, &g, b, "new")?;
        let k = Hct::from(h.get_hue(), h.get_chroma(), h.get_tone());
        ensure!(t, k.to_int() == a, "{:08x} recomposed to {:08x}", b, k.to_int());
        Ok(())
    });
}

// ------------------------------------------------------------------ C02
fn honoured(t: &mut T, h: f64, c: f64, tn: f64) -> Res {
    let x = Hct::from(h, c, tn);
    t.ops(1);
    let a = x.to_int();
    ensure!(t, r::solve_matches(h, c, tn, a), "H{} C{} T{}: got {:08x}, model {:08x}", h, c, tn, a, r::solve(h, c, tn));
    let m = r::hct(a);
    ensure!(t, (m.tone - tn).abs() <= 0.3, "H{} C{} T{}: tone {} is not the requested one", h, c, tn, m.tone);
    if (8.0..=97.0).contains(&tn) {
        ensure!(t, m.chroma <= c + 3.0, "H{} C{} T{}: chroma {} exceeds the request", h, c, tn, m.chroma);
        let e = r::hue_dist(m.hue, h);
        ensure!(t, m.chroma < 8.0 || e < if m.chroma > 30.0 { 4.0 } else { 14.0 }, "H{} C{} T{}: hue {} is not the requested one", h, c, tn, m.hue);
    }
    t.out(a as u64);
    Ok(())
}
fn c02(cx: &mut Ctx) {
    const CH: [f64; 28] = [
        0.00005, 0.0002, 0.01, 0.5, 1.0, 2.0, 4.0, 6.0, 8.0, 10.0, 12.0, 16.0, 20.0, 24.0, 30.0, 36.0, 40.0, 48.0, 56.0, 64.0, 72.0,
        84.0, 96.0, 110.0, 120.0, 150.0, 200.0, 1000.0,
    ];
    let nh = cx.pick(1080, 7200);
    let nt = cx.pick(201, 801);
    cx.space("grid", "hues x 28 chromas x tones 0..100", nh * 28 * nt, |i, t| {
        let d = digits(i, &[nh, 28, nt]);
        let h = d[0] as f64 * 360.0 / nh as f64 + 0.013 * (d[1] % 3) as f64;
        let tn = d[2] as f64 * 100.0 / (nt - 1) as f64;
        let c = CH[d[1] as usize];
        honoured(t, h, c, tn)?;
        t.note(|| format!("H{:.3} C{} T{:.3} -> {:08x}", h, c, tn, Hct::from(h, c, tn).to_int()));
        Ok(())
    });
    const EDGE_T: [f64; 24] = [
        0.0, 1e-9, 5e-5, 9.9e-5, 1.01e-4, 2e-4, 0.001, 0.01, 0.1, 0.25, 0.5, 0.9, 1.1, 2.5, 7.9999, 8.0, 8.0001, 98.5, 99.0, 99.5, 99.9,
        99.99, 99.9998, 99.99995,
    ];
    cx.space("edge-tones", "720 hues x 28 chromas x 24 tones near black, white and the L* knee", 720 * 28 * 24, |i, t| {
        let d = digits(i, &[720, 28, 24]);
        honoured(t, d[0] as f64 * 0.5, CH[d[1] as usize], EDGE_T[d[2] as usize])
    });
    const UP: [f64; 8] = [1e-6, 0.05, 0.3, 1.0, 2.0, 10.0, 50.0, 1000.0];
    cx.space("edge-colours", "all colours on the 12 edges of the sRGB cube, asked for at their own hue and tone with more chroma than sRGB has: the colour itself comes back", 12 * 256 * 8, |i, t| {
        let d = digits(i, &[8, 256, 3, 2, 2]);
        let mut c = [0i64; 3];
        let ax = d[2] as usize;
        c[ax] = d[1] as i64;
        c[(ax + 1) % 3] = 255 * d[3] as i64;
        c[(ax + 2) % 3] = 255 * d[4] as i64;
        let x = Hct::from_int(r::argb(c));
        let (h, ch, tn) = (x.get_hue(), x.get_chroma(), x.get_tone());
        honoured(t, h, ch + UP[d[0] as usize], tn)?;
        let y = Hct::from(h, ch + UP[d[0] as usize], tn);
        // above tone 97 the hue may be the last one that exists: a tie, settled by `honoured`
        if tn < 97.0 && ch > 10.0 {
            let far = r::rgb(y.to_int()).iter().zip(c).map(|(a, b)| (a - b).abs()).max().unwrap();
            ensure!(t, far <= 3, "{:08x} asked for more chroma becomes {:08x}", x.to_int(), y.to_int());
        }
        Ok(())
    });
    let nf = cx.pick(72000, 3600000);
    cx.space("fine-hues", "fine hue sweep, chroma 200 (gamut boundary), 25 tones", nf * 25, |i, t| {
        let d = digits(i, &[nf, 25]);
        honoured(t, d[0] as f64 * 360.0 / nf as f64, 200.0, 2.0 + 4.0 * d[1] as f64)
    });
}

// ------------------------------------------------------------------ C03
fn c03(cx: &mut Ctx) {
    const HUE: [f64; 26] = [
        0.0, -0.0, 359.999999, 360.0, 360.0000001, 361.0, 540.0, 720.0, 3600.5, 1e6, 1e9, 1e15, -1e-17, -1e-300, -1e-9, -1.0, -90.0,
        -179.5, -359.9, -360.0, -361.0, -720.25, -1e6, -1e9, 119.5, 280.0,
    ];
    const CHR: [f64; 18] = [
        0.0, -0.0, -1e-9, -1.0, -50.0, -1e12, -1e300, f64::NEG_INFINITY, 1e-5, 30.0, 120.0, 1e4, 1e7, 1e100, 1e250, 1e300, f64::MAX, f64::INFINITY,
    ];
    const TON: [f64; 20] = [
        0.0, -0.0, -1e-9, -1.0, -16.0, -16.5, -100.0, -1e12, -1e300, 50.0, 30.5, 87.25, 100.0, 100.0000001, 100.5, 101.0, 116.0, 1e4, 1e300, 5e-5,
    ];
    cx.space("invalid", "26 hues x 18 chromas x 20 tones including every kind of out-of-range value", 26 * 18 * 20, |i, t| {
        let d = digits(i, &[26, 18, 20]);
        let (h, c, tn) = (HUE[d[0] as usize], CHR[d[1] as usize], TON[d[2] as usize]);
        let x = Hct::from(h, c, tn);
        let a = x.to_int();
        t.ops(2);
        hctc(t, &x, a, "from")?;
        ensure!(t, a >= 0xff000000 && a <= 0xffffffff, "not an opaque colour: {:x}", a);
        let (hh, cc, tt) = (r::wrap(h), c.clamp(0.0, 1e5), tn.clamp(0.0, 100.0));
        ensure!(t, r::solve_matches(hh, cc, tt, a), "from({}, {}, {}) = {:08x}, corrected request gives {:08x}", h, c, tn, a, r::solve(hh, cc, tt));
        let s = HctSolver::solve_to_int(h, c, tn);
        ensure!(t, s == a, "solver {:08x} differs from Hct {:08x}", s, a);
        let sc = HctSolver::solve_to_cam(h, c, tn);
        ensure!(t, r::close(sc.chroma, x.get_chroma(), 1e-9) && r::close(sc.hue, x.get_hue(), 1e-9), "solve_to_cam disagrees");
        t.out(a as u64);
        t.note(|| format!("from({}, {}, {}) = {:08x}", h, c, tn, a));
        Ok(())
    });
    let (nw, nh) = (cx.pick(101, 721), cx.pick(72, 360));
    cx.space("wrap", "every hue of the grid shifted by every number of full turns -50..50 (thorough -360..360), five chromas, seven tones: same colour as the unshifted hue", nw * nh * 35, |i, t| {
        let d = digits(i, &[nw, nh, 5, 7]);
        let h0 = 360.0 * d[1] as f64 / nh as f64 + [0.0, 0.25, 0.5][d[0] as usize % 3];
        let h = h0 + 360.0 * (d[0] as f64 - (nw / 2) as f64);
        let (c, tn) = ([0.0, 3.0, 20.0, 60.0, 150.0][d[2] as usize], [3.0, 12.5, 30.0, 50.0, 72.25, 90.0, 99.0][d[3] as usize]);
        let a = Hct::from(h, c, tn).to_int();
        t.ops(1);
        ensure!(t, r::solve_matches(h0, c, tn, a), "from({}, {}, {}) = {:08x}, from({}, ..) would be {:08x}", h, c, tn, a, h0, r::solve(h0, c, tn));
        t.out(a as u64);
        Ok(())
    });
    let nb = cx.pick(2000, 60000);
    cx.space("beyond", "tones and chromas beyond their range, on a fine grid: tones -50..0 and 100..150 give black and white, chromas -100..0 give grey, chromas up to 100000 the most colourful", nb * 4 * 12, |i, t| {
        let d = digits(i, &[nb, 4, 12]);
        let f = (d[0] + 1) as f64 / nb as f64;
        let h = 30.0 * d[2] as f64 + 7.5;
        let (c, tn, cc, tt) = match d[1] {
            0 => (40.0, -50.0 * f, 40.0, 0.0),
            1 => (40.0, 100.0 + 50.0 * f, 40.0, 100.0),
            2 => (-100.0 * f, 45.0, 0.0, 45.0),
            _ => (200.0 + (1e5 - 200.0) * f * f * f, 45.0, 200.0, 45.0),
        };
        let a = Hct::from(h, c, tn).to_int();
        let mut x = Hct::from(h, 40.0, 45.0);
        if d[1] < 2 {
            x.set_tone(tn);
        } else {
            x.set_chroma(c);
        }
        t.ops(2);
        ensure!(t, r::solve_matches(h, cc, tt, a), "from({}, {}, {}) = {:08x}, corrected request gives {:08x}", h, c, tn, a, r::solve(h, cc, tt));
        let h1 = Hct::from(h, 40.0, 45.0);
        let set = x.to_int();
        ensure!(t, r::solve_matches(h1.get_hue(), if d[1] < 2 { h1.get_chroma() } else { cc }, if d[1] < 2 { tt } else { h1.get_tone() }, set), "setting ({}, {}) beyond its range gives {:08x}", c, tn, set);
        t.out(a as u64);
        Ok(())
    });
    let nf = cx.pick(500, 4000);
    cx.space("far-hues", "hues of either sign and every magnitude from 1e-18 to 1e15, a fine grid of leading digits: the same colour as the hue taken modulo 360", nf * 34 * 2 * 6, |i, t| {
        let d = digits(i, &[nf, 34, 2, 6]);
        let h = (1.0 + 9.0 * d[0] as f64 / nf as f64) * 10f64.powi(d[1] as i32 - 18) * [1.0, -1.0][d[2] as usize];
        let (c, tn) = [(20.0, 40.0), (55.0, 62.0), (200.0, 30.0), (110.0, 80.0), (8.0, 95.0), (48.0, 10.0)][d[3] as usize];
        let mut x = Hct::from(h, c, tn);
        let a = x.to_int();
        t.ops(2);
        ensure!(t, r::solve_matches(r::wrap(h), c, tn, a), "from({}, {}, {}) = {:08x}, hue modulo 360 gives {:08x}", h, c, tn, a, r::solve(r::wrap(h), c, tn));
        x.set_hue(h + 0.0);
        let k = Hct::from_int(a);
        ensure!(t, r::solve_matches(r::wrap(h), k.get_chroma(), k.get_tone(), x.to_int()), "set_hue({}) on {:08x} = {:08x}", h, a, x.to_int());
        t.out(a as u64);
        Ok(())
    });
    let ns = cx.pick(7, 24);
    cx.space("setters", "the same invalid values through the three setters, every lattice start colour", ns * ns * ns * (26 + 18 + 20), |i, t| {
        let a0 = lattice(i / 64, ns);
        let k = (i % 64) as usize;
        let m0 = r::hct(a0);
        let mut x = Hct::from_int(a0);
        t.ops(1);
        let want = if k < 26 {
            x.set_hue(HUE[k]);
            (r::wrap(HUE[k]), m0.chroma, m0.tone)
        } else if k < 44 {
            x.set_chroma(CHR[k - 26]);
            (m0.hue, CHR[k - 26].clamp(0.0, 1e5), m0.tone)
        } else {
            x.set_tone(TON[k - 44]);
            (m0.hue, m0.chroma, TON[k - 44].clamp(0.0, 100.0))
        };
        let a = x.to_int();
        ensure!(t, r::solve_matches(want.0, want.1, want.2, a), "{:08x} set -> {:08x}, expected {:08x}", a0, a, r::solve(want.0, want.1, want.2));
        hctc(t, &x, a, "after set")
    });
}

// ------------------------------------------------------------------ C04
fn c04(cx: &mut Ctx) {
    const OPS: [(u8, f64); 18] = [
        (0, 0.0), (0, 25.0), (0, 111.5), (0, 209.0), (0, 282.0), (0, -30.0),
        (1, 0.0), (1, 4.0), (1, 16.0), (1, 48.0), (1, 120.0), (1, 200.0),
        (2, 0.0), (2, 10.0), (2, 40.0), (2, 65.5), (2, 90.0), (2, 100.0),
    ];
    let n = cx.pick(5, 9);
    let depth = cx.pick(4, 5) as u32;
    let init: Vec<i64> = (0..n * n * n).map(|i| lattice(i, n)).collect();
    cx.bfs("set-histories", "all histories of set_hue/set_chroma/set_tone over 18 operations; state = colour", init, 18, depth, 400_000, |s, op, t| {
        let (k, v) = OPS[op as usize];
        // the real object, reached by any path, is represented by its colour: check that this is sound
        let mut x = Hct::from_int(*s);
        let keep = x.clone();
        let m = r::hct(*s);
        t.ops(1);
        let want = match k {
            0 => { x.set_hue(v); (v, m.chroma, m.tone) }
            1 => { x.set_chroma(v); (m.hue, v, m.tone) }
            _ => { x.set_tone(v); (m.hue, m.chroma, v) }
        };
        let a = x.to_int();
        ensure!(t, r::solve_matches(want.0, want.1, want.2, a), "{:08x} after op {}({}): {:08x}, model {:08x}", s, k, v, a, r::solve(want.0, want.1, want.2));
        hctc(t, &x, a, "after set")?;
        hctc(t, &keep, *s, "clone taken before the set")?;
        t.note(|| format!("{:08x} op{}({}) -> {:08x}", s, k, v, a));
        Ok(Some(a))
    });
    const STEP: [f64; 21] = [0.0, 1e-9, -1e-9, 1e-3, -1e-3, 0.004, -0.004, 0.01, -0.01, 0.02, -0.02, 0.05, -0.05, 0.1, -0.1, 0.3, -0.3, 0.6, -0.9, 1.5, -2.5];
    let ng = cx.pick(24, 64);
    cx.space("small-steps", "every colour of the grid, each coordinate set to its current value or a hair to either side", ng * ng * ng * 63, |i, t| {
        let a0 = lattice(i / 63, ng);
        let (k, dv) = (i % 63 / 21, STEP[(i % 21) as usize]);
        let mut x = Hct::from_int(a0);
        let (h, c, tn) = (x.get_hue(), x.get_chroma(), x.get_tone());
        t.ops(1);
        let want = match k {
            0 => { x.set_hue(h + dv); (r::wrap(h + dv), c, tn) }
            1 => { x.set_chroma(c + dv); (h, (c + dv).max(0.0), tn) }
            _ => { x.set_tone(tn + dv); (h, c, (tn + dv).clamp(0.0, 100.0)) }
        };
        let a = x.to_int();
        ensure!(t, r::solve_matches(want.0, want.1, want.2, a), "{:08x} coordinate {} moved by {}: {:08x}, expected {:08x}", a0, k, dv, a, r::solve(want.0, want.1, want.2));
        hctc(t, &x, a, "after a small step")?;
        t.out(a as u64);
        Ok(())
    });
    // the same operations applied to ONE object without re-creating it
    let d = cx.pick(4, 5) as u32;
    let starts = cx.pick(8, 27);
    let per = seq_count(18, d);
    cx.space("live-histories", "every operation sequence on one live object", starts * per, |i, t| {
        let mut a = lattice(i / per, if starts == 8 { 2 } else { 3 });
        let seq = seq_decode(i % per, 18, d);
        let mut x = Hct::from_int(a);
        for op in &seq {
            let (k, v) = OPS[*op as usize];
            let mut f = Hct::from_int(a);
            t.ops(2);
            match k {
                0 => { x.set_hue(v); f.set_hue(v) }
                1 => { x.set_chroma(v); f.set_chroma(v) }
                _ => { x.set_tone(v); f.set_tone(v) }
            }
            a = f.to_int();
            ensure!(t, x.to_int() == a, "live object {:08x}, fresh object {:08x} after {:?}", x.to_int(), a, seq);
        }
        let f = Hct::from_int(a);
        ensure!(t, x.get_hue() == f.get_hue() && x.get_chroma() == f.get_chroma() && x.get_tone() == f.get_tone(), "stale components after {:?}", seq);
        ensure!(t, x == f, "equal colours compare unequal");
        t.note(|| format!("{:?} -> {:08x}", seq, a));
        Ok(())
    });
    let walk = crate::p_pal::pair_walk(18);
    let wr = &walk;
    let nw = cx.pick(9, 20);
    cx.space("long-life", "one object per lattice colour taken through a walk over every ordered pair of operations (over 300 sets): always what a fresh object gives", nw * nw * nw, |i, t| {
        let mut a = lattice(i, nw);
        let mut x = Hct::from_int(a);
        for (s, op) in wr.iter().enumerate() {
            let (k, v) = OPS[*op as usize];
            let mut f = Hct::from_int(a);
            t.ops(2);
            match k {
                0 => { x.set_hue(v); f.set_hue(v) }
                1 => { x.set_chroma(v); f.set_chroma(v) }
                _ => { x.set_tone(v); f.set_tone(v) }
            }
            a = f.to_int();
            ensure!(t, x.to_int() == a && x.get_hue() == f.get_hue() && x.get_chroma() == f.get_chroma() && x.get_tone() == f.get_tone(), "live object {:08x}, fresh object {:08x} after {} sets from {:08x}", x.to_int(), a, s + 1, lattice(i, nw));
        }
        t.out(a as u64);
        Ok(())
    });
}

// ------------------------------------------------------------------ C05 CAM16
fn cam_eq(t: &mut T, c: &Cam16, m: &r::Cam, what: &str) -> Res {
    let e = 2e-7;
    ensure!(t, c.hue >= 0.0 && c.hue <= 360.0, "{}: hue {} is outside the circle's range", what, c.hue);
    let hue_ok = m.chroma < 1e-6 || r::hue_dist(c.hue, m.hue) < 1e-6 + 1e-5 / m.chroma;
    ensure!(t, hue_ok, "{}: hue {} expected {}", what, c.hue, m.hue);
    ensure!(t, r::close(c.chroma, m.chroma, e), "{}: chroma {} expected {}", what, c.chroma, m.chroma);
    ensure!(t, r::close(c.j, m.j, e), "{}: j {} expected {}", what, c.j, m.j);
    ensure!(t, r::close(c.q, m.q, e), "{}: q {} expected {}", what, c.q, m.q);
    ensure!(t, r::close(c.m, m.m, e), "{}: m {} expected {}", what, c.m, m.m);
    ensure!(t, r::close(c.s, m.s, e) || m.j == 0.0, "{}: s {} expected {}", what, c.s, m.s);
    ensure!(t, r::close(c.jstar, m.jstar, e), "{}: jstar {} expected {}", what, c.jstar, m.jstar);
    ensure!(t, r::close(c.astar, m.astar, e), "{}: astar {} expected {}", what, c.astar, m.astar);
    ensure!(t, r::close(c.bstar, m.bstar, e), "{}: bstar {} expected {}", what, c.bstar, m.bstar);
    Ok(())
}
pub fn vcs() -> Vec<(Vec<f64>, f64, f64, f64, bool)> {
    let mut v = Vec::new();
    for w in [[95.047, 100.0, 108.883], [109.85, 100.0, 35.585], [76.0, 80.0, 87.0]] {
        for la in [4.0, 11.725677948856951, 64.0, 1000.0] {
            for bg in [0.0, 5.0, 50.0, 100.0] {
                for su in [0.0, 0.5, 1.0, 1.6, 2.0] {
                    for di in [false, true] {
                        v.push((w.to_vec(), la, bg, su, di));
                    }
                }
            }
        }
    }
    v
}
pub fn mk(v: &(Vec<f64>, f64, f64, f64, bool)) -> (ViewingConditions, r::Vc) {
    (
        ViewingConditions::make(Some(v.0.clone()), Some(v.1), Some(v.2), Some(v.3), Some(v.4)),
        r::vc([v.0[0], v.0[1], v.0[2]], v.1, v.2, v.3, v.4),
    )
}
fn c05(cx: &mut Ctx) {
    cx.space("all-colours", "every opaque colour: nine CAM16 attributes against the model, and back to ARGB", 1 << 24, |i, t| {
        let a = opaque(i);
        let c = Cam16::from_int(a);
        t.ops(2);
        cam_eq(t, &c, &r::cam(a), "from_int")?;
        ensure!(t, c.hue >= 0.0 && c.hue < 360.0, "hue {}", c.hue);
        ensure!(t, c.to_int() == a, "{:08x} came back as {:08x}", a, c.to_int());
        t.note(|| format!("{:08x}: J{:.4} C{:.4} h{:.4}", a, c.j, c.chroma, c.hue));
        Ok(())
    });
    let n = cx.pick(128, 256);
    cx.space("jch-ucs", "lattice colours rebuilt from J,C,h and from J*,a*,b*", n * n * n, |i, t| {
        let a = lattice(i, n);
        let c = Cam16::from_int(a);
        let m = r::cam(a);
        t.ops(4);
        let k = Cam16::from_jch(c.j, c.chroma, c.hue);
        cam_eq(t, &k, &m, "from_jch")?;
        ensure!(t, k.to_int() == a, "from_jch: {:08x} came back as {:08x}", a, k.to_int());
        let u = Cam16::from_ucs(c.jstar, c.astar, c.bstar);
        cam_eq(t, &u, &m, "from_ucs")?;
        ensure!(t, u.to_int() == a, "from_ucs: {:08x} came back as {:08x}", a, u.to_int());
        Ok(())
    });
    // free J,C,h / UCS coordinates, in and out of gamut
    let (nj, nc, nh) = (cx.pick(51, 101), 25, cx.pick(360, 1440));
    cx.space("free-jch", "grid of J x C x h (also outside sRGB): attributes and clipped ARGB", nj * nc * nh, |i, t| {
        let d = digits(i, &[nj, nc, nh]);
        let (j, c, h) = (0.5 + 99.5 * d[0] as f64 / (nj - 1) as f64, 6.0 * d[1] as f64, d[2] as f64 * 360.0 / nh as f64);
        let k = Cam16::from_jch(j, c, h);
        t.ops(3);
        ensure!(t, r::close(k.j, j, 1e-12) && r::close(k.chroma, c, 1e-12) && r::close(k.hue, h, 1e-12), "J,C,h not kept");
        let p = r::xyz_of_jch(j, c, h, r::vc0());
        let x = k.xyz_in_viewing_conditions(&ViewingConditions::standard(), None);
        for q in 0..3 {
            ensure!(t, x[q].is_nan() && p[q].is_nan() || r::close(x[q], p[q], 1e-7), "XYZ of J{} C{} h{}: {:?} expected {:?}", j, c, h, x, p);
        }
        if p.iter().all(|v| v.is_finite() && v.abs() < 1e6) {
            let got = k.to_int();
            ensure!(t, r::chans_ok(r::chans_from_xyz(p), got, 1e-5), "J{} C{} h{} -> {:08x}, model {:?}", j, c, h, got, r::chans_from_xyz(p));
            let u = Cam16::from_ucs(k.jstar, k.astar, k.bstar);
            ensure!(t, r::close(u.j, j, 1e-9) && r::close(u.chroma, c, 1e-9), "UCS does not invert: J{} C{} vs J{} C{}", u.j, u.chroma, j, c);
            ensure!(t, c < 1e-6 || r::hue_dist(u.hue, h) < 1e-7, "UCS hue {} vs {}", u.hue, h);
            ensure!(t, u.hue >= 0.0 && u.hue <= 360.0, "UCS hue {} is outside the circle's range", u.hue);
        }
        Ok(())
    });
    cx.space("black", "lightness zero with any chroma and hue, in every condition: black, with XYZ zero", 64 * 90 * 2, |i, t| {
        let d = digits(i, &[64, 90, 2]);
        let (c, h) = (if d[0] < 32 { d[0] as f64 * 3.0 } else { 10f64.powi(32 - d[0] as i32) }, d[1] as f64 * 4.0);
        let vc = if d[2] == 0 { ViewingConditions::standard() } else { ViewingConditions::make(None, Some(200.0), Some(20.0), Some(1.0), None) };
        let k = Cam16::from_jch_in_viewing_conditions(0.0, c, h, &vc);
        let x = k.xyz_in_viewing_conditions(&vc, None);
        t.ops(2);
        ensure!(t, x.iter().all(|v| v.abs() < 1e-9), "J0 C{} h{}: XYZ {:?}", c, h, x);
        ensure!(t, k.viewed(&vc) == 0xff000000 && k.to_int() == 0xff000000, "J0 C{} h{}: {:08x}", c, h, k.to_int());
        Ok(())
    });
    let vs = vcs();
    let nv = vs.len() as u64;
    let m = cx.pick(17, 33);
    cx.space("other-conditions", "viewing conditions x lattice colours: model agreement and inverse", nv * m * m * m, |i, t| {
        let v = &vs[(i % nv) as usize];
        let a = lattice(i / nv, m);
        let (w, rv) = mk(v);
        let c = Cam16::from_int_in_viewing_conditions(a, &w);
        let mc = r::cam_xyz(r::xyz(a), &rv);
        t.ops(3);
        cam_eq(t, &c, &mc, "from_int_in_viewing_conditions")?;
        let back = c.viewed(&w);
        ensure!(t, back == a, "{:?}: {:08x} came back as {:08x}", v, a, back);
        let k = Cam16::from_jch_in_viewing_conditions(c.j, c.chroma, c.hue, &w);
        cam_eq(t, &k, &mc, "from_jch_in_viewing_conditions")?;
        let u = Cam16::from_ucs_in_viewing_conditions(c.jstar, c.astar, c.bstar, &w);
        cam_eq(t, &u, &mc, "from_ucs_in_viewing_conditions")?;
        Ok(())
    });
    let g = cx.pick(15, 35);
    cx.space("free-xyz", "viewing conditions x grid of XYZ (also colours outside sRGB): model agreement and inverse", nv * g * g * g, |i, t| {
        let v = &vs[(i % nv) as usize];
        let d = digits(i / nv, &[g, g, g]);
        // 0 and a little included: there the cone responses become negative
        let x = [0, 1, 2].map(|k| match d[k] {
            0 => 0.0,
            1 => 0.05,
            j => 0.5 + 119.0 * (j - 2) as f64 / (g - 3) as f64,
        });
        let (w, rv) = mk(v);
        let c = Cam16::from_xyz_in_viewing_conditions(x[0], x[1], x[2], &w);
        let mc = r::cam_xyz(x, &rv);
        t.ops(2);
        if !(mc.j.is_finite() && mc.chroma.is_finite()) {
            return Ok(());
        }
        cam_eq(t, &c, &mc, "from_xyz_in_viewing_conditions")?;
        let back = c.xyz_in_viewing_conditions(&w, None);
        for k in 0..3 {
            ensure!(t, r::close(back[k], x[k], 1e-6), "{:?}: XYZ {:?} came back as {:?}", v, x, back);
        }
        Ok(())
    });
    let (sj, sc) = (cx.pick(40, 200), cx.pick(20, 60));
    cx.space("hue-seam", "XYZ stepped double by double across the direction of hue 0/360, found by bisection for every condition x lightness x chroma: every colour is accepted and has a hue below 360", nv * sj * sc, |i, t| {
        let d = digits(i, &[nv, sj, sc]);
        let (w, rv) = mk(&vs[d[0] as usize]);
        let (j, c) = (5.0 + 90.0 * d[1] as f64 / sj as f64, 2.0 + 58.0 * d[2] as f64 / sc as f64);
        let (p, q) = (r::xyz_of_jch(j, c, 359.0, &rv), r::xyz_of_jch(j, c, 1.0, &rv));
        let at = |l: f64| [0, 1, 2].map(|k| p[k] + (q[k] - p[k]) * l);
        let (mut lo, mut hi) = (0.0, 1.0);
        for _ in 0..52 {
            let mid = (lo + hi) / 2.0;
            let m = r::cam_xyz(at(mid), &rv);
            if m.hue > 180.0 { lo = mid } else { hi = mid }
        }
        let x0 = at(lo);
        if !(x0.iter().all(|v| v.is_finite() && *v > 0.0)) {
            return t.vacuous();
        }
        for k in -24i64..=24 {
            let x = [f64::from_bits((x0[0].to_bits() as i64 + k) as u64), x0[1], x0[2]];
            let cam = Cam16::from_xyz_in_viewing_conditions(x[0], x[1], x[2], &w);
            t.ops(1);
            ensure!(t, (0.0..360.0).contains(&cam.hue), "XYZ {:?}: hue {}", x, cam.hue);
            cam_eq(t, &cam, &r::cam_xyz(x, &rv), "next to hue 0")?;
            let u = Cam16::from_ucs_in_viewing_conditions(cam.jstar, cam.astar, cam.bstar, &w);
            ensure!(t, (0.0..360.0).contains(&u.hue) && r::hue_dist(u.hue, cam.hue) < 1e-6, "UCS ({}, {}, {}): hue {}", cam.jstar, cam.astar, cam.bstar, u.hue);
        }
        Ok(())
    });
    cx.space("ucs-seam", "UCS coordinates with b* a hair below zero (1e-1 to 1e-300): a hue below 360, the same colour", 300 * 40, |i, t| {
        let (b, a) = (-(10f64).powi(-1 - (i % 300) as i32), 0.5 + (i / 300) as f64);
        let u = Cam16::from_ucs(50.0, a, b);
        t.ops(1);
        ensure!(t, (0.0..360.0).contains(&u.hue), "UCS (50, {}, {}): hue {}", a, b, u.hue);
        let (j, c, h) = r::jch_of_ucs(50.0, a, b, r::vc0());
        ensure!(t, r::close(u.j, j, 1e-9) && r::close(u.chroma, c, 1e-7) && r::hue_dist(u.hue, h) < 1e-6, "UCS (50, {}, {})", a, b);
        Ok(())
    });
    let p = cx.pick(11, 15);
    let pn = p * p * p;
    cx.space("distance", "all ordered pairs of lattice colours: CAM16-UCS distance", pn * pn, |i, t| {
        let (a, b) = (lattice(i / pn, p), lattice(i % pn, p));
        let (ca, cb) = (Cam16::from_int(a), Cam16::from_int(b));
        let (d, e) = (ca.distance(&cb), cb.distance(&ca));
        t.ops(4);
        ensure!(t, d == e, "distance is not symmetric");
        ensure!(t, (a == b) == (d == 0.0) && d >= 0.0, "distance {:08x} {:08x} = {}", a, b, d);
        ensure!(t, r::close(d, r::ucs_dist(&r::cam(a), &r::cam(b)), 1e-6), "distance {} expected {}", d, r::ucs_dist(&r::cam(a), &r::cam(b)));
        Ok(())
    });
}

// ------------------------------------------------------------------ C06 sRGB / XYZ / Lab
fn c06(cx: &mut Ctx) {
    cx.space("all-colours", "every opaque colour: channels, linear RGB, XYZ, Lab, L*; and back", 1 << 24, |i, t| {
        let a = opaque(i);
        let c = r::rgb(a);
        t.ops(9);
        ensure!(t, ColorUtils::red_from_argb(a) == c[0] && ColorUtils::green_from_argb(a) == c[1] && ColorUtils::blue_from_argb(a) == c[2], "channels of {:08x}", a);
        ensure!(t, ColorUtils::argb_from_rgb(c[0], c[1], c[2]) == a, "argb_from_rgb {:?}", c);
        let x = ColorUtils::xyz_from_argb(a);
        let mx = r::xyz(a);
        ensure!(t, (0..3).all(|k| r::close(x[k], mx[k], 1e-9)), "XYZ of {:08x}: {:?} expected {:?}", a, x, mx);
        ensure!(t, ColorUtils::argb_from_xyz(x[0], x[1], x[2]) == a, "{:08x} -> XYZ -> {:08x}", a, ColorUtils::argb_from_xyz(x[0], x[1], x[2]));
        let l = ColorUtils::lab_from_argb(a);
        let ml = r::lab(a);
        ensure!(t, (0..3).all(|k| (l[k] - ml[k]).abs() < 1e-7), "Lab of {:08x}: {:?} expected {:?}", a, l, ml);
        ensure!(t, ColorUtils::argb_from_lab(l[0], l[1], l[2]) == a, "{:08x} -> Lab -> {:08x}", a, ColorUtils::argb_from_lab(l[0], l[1], l[2]));
        let ls = ColorUtils::lstar_from_argb(a);
        ensure!(t, (ls - ml[0]).abs() < 1e-9, "L* of {:08x}: {} expected {}", a, ls, ml[0]);
        t.note(|| format!("{:08x} XYZ {:?} Lab {:?}", a, mx, ml));
        Ok(())
    });
    cx.space("white", "the white point is the XYZ of white, D65", 1, |_, t| {
        let (w, m) = (ColorUtils::white_point_d65(), r::xyz(0xffffffff));
        t.ops(1);
        ensure!(t, w.len() == 3 && (0..3).all(|k| r::close(w[k], m[k], 1e-2) && r::close(w[k], [95.047, 100.0, 108.883][k], 1e-9)), "white point {:?}", w);
        Ok(())
    });
    cx.space("alpha", "256 alphas x 17^3 colours", 256 * 4913, |i, t| {
        let o = lattice(i / 256, 17);
        let al = (i % 256) as i64;
        let a = (o & 0xffffff) | al << 24;
        t.ops(7);
        ensure!(t, ColorUtils::alpha_from_argb(a) == al, "alpha of {:08x}", a);
        ensure!(t, ColorUtils::is_opaque(a) == (al == 255), "is_opaque {:08x}", a);
        ensure!(t, ColorUtils::red_from_argb(a) == (o >> 16 & 255) && ColorUtils::green_from_argb(a) == (o >> 8 & 255) && ColorUtils::blue_from_argb(a) == (o & 255), "channels");
        ensure!(t, ColorUtils::lab_from_argb(a) == ColorUtils::lab_from_argb(o), "alpha changes Lab");
        ensure!(t, ColorUtils::xyz_from_argb(a) == ColorUtils::xyz_from_argb(o), "alpha changes XYZ");
        Ok(())
    });
    let n = cx.pick(4_000_001, 400_000_001);
    cx.space("transfer", "delinearized over a fine grid -20..120 (clamped), against the sRGB transfer function", n, |i, t| {
        let v = -20.0 + 140.0 * i as f64 / (n - 1) as f64;
        let g = ColorUtils::delinearized(v);
        t.ops(2);
        ensure!(t, r::rounds_to(r::oetf(v), g, 1e-7), "delinearized({}) = {}, expected {}", v, g, r::oetf(v));
        let c = ColorUtils::argb_from_linrgb(vec![v, 50.0, 100.0 - v]);
        ensure!(t, r::chans_ok([r::oetf(v), r::oetf(50.0), r::oetf(100.0 - v)], c, 1e-7), "argb_from_linrgb");
        Ok(())
    });
    cx.space("linear-levels", "all 256 channel levels", 256, |i, t| {
        let l = ColorUtils::linearized(i as i64);
        t.ops(2);
        ensure!(t, r::close(l, r::eotf(i as f64), 1e-12) && (0.0..=100.0).contains(&l), "linearized({}) = {}", i, l);
        ensure!(t, i == 0 || l > ColorUtils::linearized(i as i64 - 1), "not increasing at {}", i);
        ensure!(t, ColorUtils::delinearized(l) == i as i64, "delinearized(linearized({})) = {}", i, ColorUtils::delinearized(l));
        t.note(|| format!("{} -> {}", i, l));
        Ok(())
    });
    let g = cx.pick(81, 401);
    cx.space("free-xyz", "grid of XYZ in and out of gamut: clipped ARGB", g * g * g, |i, t| {
        let d = digits(i, &[g, g, g]);
        let f = |k: u64| -20.0 + 150.0 * k as f64 / (g - 1) as f64;
        let p = [f(d[0]), f(d[1]), f(d[2])];
        let a = ColorUtils::argb_from_xyz(p[0], p[1], p[2]);
        t.ops(1);
        t.out(a as u64);
        ensure!(t, r::chans_ok(r::chans_from_xyz(p), a, 1e-5), "argb_from_xyz({:?}) = {:08x}, expected {:?}", p, a, r::chans_from_xyz(p));
        Ok(())
    });
    cx.space("free-lab", "grid of L*a*b* in and out of gamut: clipped ARGB", g * g * g, |i, t| {
        let d = digits(i, &[g, g, g]);
        let p = [-5.0 + 110.0 * d[0] as f64 / (g - 1) as f64, -130.0 + 260.0 * d[1] as f64 / (g - 1) as f64, -130.0 + 260.0 * d[2] as f64 / (g - 1) as f64];
        let a = ColorUtils::argb_from_lab(p[0], p[1], p[2]);
        t.ops(1);
        t.out(a as u64);
        ensure!(t, r::chans_ok(r::chans_from_lab(p), a, 1e-5), "argb_from_lab({:?}) = {:08x}, expected {:?}", p, a, r::chans_from_lab(p));
        Ok(())
    });
}

// ------------------------------------------------------------------ C07 tone scale
fn c07(cx: &mut Ctx) {
    let n = cx.pick(8_000_001, 400_000_001);
    cx.space("lstar", "tones 0..100: L*->Y->L* inverse, increasing, equal to CIE", n, |i, t| {
        let l = 100.0 * i as f64 / (n - 1) as f64;
        let y = ColorUtils::y_from_lstar(l);
        t.ops(4);
        ensure!(t, r::close(y, r::y_of(l), 1e-10), "Y({}) = {} expected {}", l, y, r::y_of(l));
        let b = ColorUtils::lstar_from_y(y);
        ensure!(t, (b - l).abs() < 1e-9, "L*(Y({})) = {}", l, b);
        if i > 0 {
            let p = 100.0 * (i - 1) as f64 / (n - 1) as f64;
            ensure!(t, y > ColorUtils::y_from_lstar(p), "Y not increasing at {}", l);
        }
        let g = ColorUtils::argb_from_lstar(l);
        let c = r::rgb(g);
        ensure!(t, g >> 24 == 255 && c[0] == c[1] && c[1] == c[2], "argb_from_lstar({}) = {:08x} is not an opaque grey", l, g);
        ensure!(t, r::rounds_to(r::oetf(r::y_of(l)), c[0], 1e-7), "argb_from_lstar({}) = {:08x}", l, g);
        ensure!(t, (r::tone(g) - l).abs() < 0.27, "grey of tone {} has tone {}", l, r::tone(g));
        t.note(|| format!("L*{} Y{} {:08x}", l, y, g));
        Ok(())
    });
    cx.space("luminance", "Y 0..100: Y->L*->Y inverse and range", n, |i, t| {
        let y = 100.0 * i as f64 / (n - 1) as f64;
        let l = ColorUtils::lstar_from_y(y);
        t.ops(2);
        ensure!(t, (l - r::l_of(y)).abs() < 1e-9 && (-1e-9..=100.0 + 1e-9).contains(&l), "L*({}) = {}", y, l);
        ensure!(t, r::close(ColorUtils::y_from_lstar(l), y, 1e-9), "Y(L*({})) = {}", y, ColorUtils::y_from_lstar(l));
        Ok(())
    });
    cx.space("beyond", "tones outside 0..100 give black or white; all 256 greys keep their tone", 4000 + 256, |i, t| {
        t.ops(1);
        if i < 4000 {
            let l = if i < 2000 { -(i as f64) * 0.37 - 0.0001 } else { 100.0 + (i - 2000) as f64 * 0.37 + 0.0001 };
            let g = ColorUtils::argb_from_lstar(l);
            let want = if l < 0.0 { 0xff000000 } else { 0xffffffff };
            ensure!(t, g == want, "argb_from_lstar({}) = {:08x}", l, g);
        } else {
            let v = (i - 4000) as i64;
            let a = r::argb([v, v, v]);
            ensure!(t, ColorUtils::argb_from_lstar(ColorUtils::lstar_from_argb(a)) == a, "grey {} does not survive", v);
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C08 numeric helpers
fn c08(cx: &mut Ctx) {
    let n = cx.pick(4_000_001, 400_000_001);
    cx.space("degrees-int", "integers -100000..100000 and extremes", n + 8, |i, t| {
        let v = if i < n { i as i64 - (n / 2) as i64 } else { [i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i64::MAX / 2, 1 << 40, -(1 << 40), 360 * 1_000_003][(i - n) as usize] };
        let s = MathUtils::sanitize_degrees_int(v);
        t.ops(1);
        ensure!(t, s == v.rem_euclid(360), "sanitize_degrees_int({}) = {}", v, s);
        Ok(())
    });
    let tiny: Vec<f64> = {
        let mut v = vec![0.0, -0.0, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 1e15, 1e300, f64::MAX, 359.99999999999994, 360.0, 360.00000000000006, 719.9999999999999, 720.0];
        for k in 1..324 {
            v.push(10f64.powi(-k));
        }
        let neg: Vec<f64> = v.iter().map(|x| -x).collect();
        v.extend(neg);
        v
    };
    let nt = tiny.len() as u64;
    cx.space("degrees-double", "doubles -1000..1000 plus signed zeros, denormals, powers of ten and huge values", n + nt, |i, t| {
        let v = if i < n { -1000.0 + 2000.0 * i as f64 / (n - 1) as f64 } else { tiny[(i - n) as usize] };
        let s = MathUtils::sanitize_degrees_double(v);
        t.ops(1);
        ensure!(t, s >= 0.0 && s < 360.0, "sanitize_degrees_double({:e}) = {} is outside [0,360)", v, s);
        ensure!(t, r::hue_dist(s, v % 360.0) < 1e-9, "sanitize_degrees_double({}) = {} is another angle", v, s);
        t.note(|| format!("{} -> {}", v, s));
        Ok(())
    });
    let m = cx.pick(2881, 28801);
    cx.space("rotation", "all ordered pairs of angles 0..360: difference and direction", m * m, |i, t| {
        let (a, b) = ((i % m) as f64 * 360.0 / (m - 1) as f64, (i / m) as f64 * 360.0 / (m - 1) as f64);
        let d = MathUtils::difference_degrees(a, b);
        let dir = MathUtils::rotation_direction(a, b);
        t.ops(3);
        ensure!(t, (d - r::hue_dist(a, b)).abs() < 1e-9 && d == MathUtils::difference_degrees(b, a), "difference_degrees({}, {}) = {}", a, b, d);
        ensure!(t, dir == 1.0 || dir == -1.0, "direction {}", dir);
        let tie = (d - 180.0).abs() < 1e-6 || d < 1e-6;
        if tie {
            ensure!(t, dir == 1.0 || (d - 180.0).abs() > 0.0 || d > 0.0 && d < 1e-6, "tie must rotate forward: {} {}", a, b);
        }
        ensure!(t, tie && dir == 1.0 || r::hue_dist(a + dir * d, b) < 1e-6, "rotation_direction({}, {}) = {} does not lead there", a, b, dir);
        Ok(())
    });
    const V: [f64; 15] = [-1e9, -360.0, -100.5, -1.0, -1e-9, -0.0, 0.0, 1e-9, 0.25, 0.5, 1.0, 3.0, 50.0, 100.0, 1e9];
    cx.space("clamp-lerp", "clamp_int, clamp_double, lerp, signum over all triples of 15 values", 15 * 15 * 15, |i, t| {
        let d = digits(i, &[15, 15, 15]);
        let (a, b, x) = (V[d[0] as usize], V[d[1] as usize], V[d[2] as usize]);
        t.ops(4);
        if a <= b {
            let c = MathUtils::clamp_double(a, b, x);
            ensure!(t, c >= a && c <= b && (c == x || c == a || c == b) && (!(x >= a && x <= b) || c == x) && (x >= a || c == a) && (x <= b || c == b), "clamp_double({}, {}, {}) = {}", a, b, x, c);
            let (p, q, y) = (a as i64, b as i64, x as i64);
            ensure!(t, MathUtils::clamp_int(p, q, y) == y.clamp(p, q), "clamp_int({}, {}, {})", p, q, y);
        }
        let s = MathUtils::signum(x);
        ensure!(t, s == if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 }, "signum({}) = {}", x, s);
        let e = 1e-12 * (a.abs() + b.abs());
        ensure!(t, (MathUtils::lerp(a, b, 0.0) - a).abs() <= e && (MathUtils::lerp(a, b, 1.0) - b).abs() <= e, "lerp endpoints {} {}", a, b);
        let l = MathUtils::lerp(a, b, x);
        ensure!(t, (l - (a + (b - a) * x)).abs() <= 1e-9 * (1.0 + (a.abs() + b.abs()) * (1.0 + x.abs())), "lerp({}, {}, {}) = {}", a, b, x, l);
        Ok(())
    });
    cx.space("matrix", "row vector times matrix: every entry position, basis and mixed vectors", 27 * 27, |i, t| {
        let mut m = vec![vec![0.0; 3]; 3];
        for k in 0..9u64 {
            m[(k / 3) as usize][(k % 3) as usize] = ((i * 7 + k * k * 3) % 11) as f64 - 5.0;
        }
        let v = [(i % 3) as f64 - 1.0, (i / 3 % 3) as f64 * 2.0 - 1.5, (i / 9 % 3) as f64 + 0.25];
        let p = MathUtils::matrix_multiply(v.to_vec(), m.clone());
        t.ops(1);
        for k in 0..3 {
            let w = v[0] * m[k][0] + v[1] * m[k][1] + v[2] * m[k][2];
            ensure!(t, (p[k] - w).abs() < 1e-12, "matrix_multiply row {}", k);
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C09 hex
fn c09(cx: &mut Ctx) {
    cx.space("all-colours", "every colour: hex text is # + 6 upper case digits and parses back", 1 << 24, |i, t| {
        let a = opaque(i);
        let s = StringUtils::hex_from_argb(a, None);
        t.ops(2);
        let want = format!("#{:06X}", i);
        ensure!(t, s == want, "{:08x} -> {}", a, s);
        let p = StringUtils::argb_from_hex(s.clone());
        ensure!(t, p.map(|v| v & 0xffffff) == Some(i as i64), "{} parses as {:?}", s, p);
        t.note(|| format!("{:08x} {}", a, s));
        Ok(())
    });
    cx.space("flags", "hash flag x alpha x lattice colours, both cases when parsing", 3 * 256 * 729, |i, t| {
        let d = digits(i, &[3, 256, 729]);
        let a = (lattice(d[2], 9) & 0xffffff) | (d[1] as i64) << 24;
        let f = [None, Some(true), Some(false)][d[0] as usize];
        let s = StringUtils::hex_from_argb(a, f);
        let want = format!("{}{:06X}", if f == Some(false) { "" } else { "#" }, a & 0xffffff);
        t.ops(3);
        ensure!(t, s == want, "{:08x} {:?} -> {}", a, f, s);
        for q in [s.clone(), s.to_lowercase()] {
            let p = StringUtils::argb_from_hex(q.clone());
            ensure!(t, p.map(|v| v & 0xffffff) == Some(a & 0xffffff), "{} parses as {:?}", q, p);
        }
        let full = format!("#{:08x}", a);
        ensure!(t, StringUtils::argb_from_hex(full.clone()) == Some(a), "{} loses alpha", full);
        Ok(())
    });
    const AL: [char; 12] = ['0', '7', 'a', 'F', 'g', 'G', ' ', '.', 'x', '\u{e9}', '-', '+'];
    let depth = cx.pick(6, 8) as u32;
    cx.space("strings", "all strings over a 12 character alphabet (digits, other letters, signs, blanks, a multibyte character), with and without #: parsed exactly when hexadecimal", 2 * seq_count(12, depth), |i, t| {
        let body: String = seq_decode(i / 2, 12, depth).iter().map(|k| AL[*k as usize]).collect();
        let s = if i % 2 == 0 { body.clone() } else { format!("#{}", body) };
        let p = StringUtils::argb_from_hex(s.clone());
        t.ops(1);
        let want = if !body.is_empty() && body.chars().all(|c| c.is_ascii_hexdigit()) { i64::from_str_radix(&body, 16).ok() } else { None };
        ensure!(t, p == want || p.map(|v| v & 0xffffff) == want.map(|v| v & 0xffffff) && want.is_some() && p.is_some(), "{:?} parsed as {:?}, expected {:?}", s, p, want);
        Ok(())
    });
    const ODD: [char; 10] = ['g', '-', '+', ' ', '#', '_', '\u{e9}', '\u{4e2d}', '\u{ff11}', '\n'];
    cx.space("long-strings", "texts of 1..40 digits, plain or with one odd character at any position: odd ones are unparsable, short ones give their value, none panics", 41 * 41 * 11 * 2, |i, t| {
        let d = digits(i, &[2, 11, 41, 41]);
        let (n, pos) = (d[3] as usize, d[2] as usize);
        if pos > n || n == 0 {
            return t.vacuous();
        }
        let mut body: Vec<char> = (0..n).map(|k| "0f1E2d3C".as_bytes()[(k * 5 + n) % 8] as char).collect();
        if d[1] > 0 {
            body.insert(pos, ODD[d[1] as usize - 1]);
        }
        let body: String = body.into_iter().collect();
        let s = if d[0] == 0 { body.clone() } else { format!("#{}", body) };
        let p = StringUtils::argb_from_hex(s.clone());
        t.ops(1);
        if d[1] > 0 && !body.starts_with('#') {
            ensure!(t, p.is_none(), "{:?} parsed as {:?}", s, p);
        } else if d[1] == 0 && n <= 8 {
            ensure!(t, p == i64::from_str_radix(&body, 16).ok(), "{:?} parsed as {:?}", s, p);
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C10 viewing conditions
fn c10(cx: &mut Ctx) {
    let las = [0.1, 1.0, 4.0, 11.725677948856951, 20.0, 40.0, 64.0, 100.0, 200.0, 318.0, 1000.0, 10000.0];
    let bgs = [-5.0, 0.0, 0.05, 0.1, 0.2, 1.0, 8.0, 10.0, 25.0, 50.0, 75.0, 99.0, 100.0];
    let nsu = cx.pick(401, 4001);
    let whites = [[95.047, 100.0, 108.883], [109.85, 100.0, 35.585], [96.422, 100.0, 82.521], [100.0, 100.0, 100.0], [76.0, 80.0, 87.0], [60.0, 50.0, 20.0]];
    let size = 6 * 12 * 13 * nsu * 2;
    let factors = |t: &mut T, v: &(Vec<f64>, f64, f64, f64, bool)| -> Res {
        let (w, m) = mk(v);
        t.ops(1);
        let e = 1e-9;
        ensure!(t, r::close(w.background_y_to_white_point_y, m.n, e), "{:?}: n {} expected {}", v, w.background_y_to_white_point_y, m.n);
        ensure!(t, r::close(w.aw, m.aw, e), "{:?}: aw {} expected {}", v, w.aw, m.aw);
        ensure!(t, r::close(w.nbb, m.nbb, e) && r::close(w.ncb, m.nbb, e), "{:?}: nbb {} expected {}", v, w.nbb, m.nbb);
        ensure!(t, r::close(w.c, m.c, e), "{:?}: c {} expected {}", v, w.c, m.c);
        ensure!(t, r::close(w.n_c, m.nc, e), "{:?}: nc {} expected {}", v, w.n_c, m.nc);
        ensure!(t, r::close(w.fl, m.fl, e) && r::close(w.f_lroot, m.fl.powf(0.25), e), "{:?}: fl {} expected {}", v, w.fl, m.fl);
        ensure!(t, r::close(w.z, m.z, e), "{:?}: z {} expected {}", v, w.z, m.z);
        ensure!(t, (0..3).all(|k| r::close(w.rgb_d[k], m.d[k], e)), "{:?}: rgb_d {:?} expected {:?}", v, w.rgb_d, m.d);
        ensure!(t, w.white_point == v.0 && w.adapting_luminance == v.1 && w.surround == v.3 && w.discounting_illuminant == v.4, "{:?}: parameters not kept", v);
        Ok(())
    };
    let factors = &factors;
    cx.space("factors", "white points x luminances x backgrounds x surrounds x discounting: derived factors equal the CAM16 definition", size, |i, t| {
        let d = digits(i, &[6, 12, 13, nsu, 2]);
        let v = (whites[d[0] as usize].to_vec(), las[d[1] as usize], bgs[d[2] as usize], 2.0 * d[3] as f64 / (nsu - 1) as f64, d[4] == 1);
        factors(t, &v)?;
        t.note(|| format!("{:?}", v));
        Ok(())
    });
    // one parameter finely stepped, the others on a few values
    let nl = cx.pick(6001, 60001);
    cx.space("sweeps", "luminance 1e-9..1e6, background -20..120 finely stepped x four values of the others x discounting: derived factors equal the CAM16 definition", 2 * nl * 4 * 2, |i, t| {
        let d = digits(i, &[2, 4, 2, nl]);
        let x = d[3] as f64 / (nl - 1) as f64;
        let k = d[1] as usize;
        let (la, bg) = if d[0] == 0 { (10f64.powf(-9.0 + 15.0 * x), [50.0, 5.0, 20.0, 95.0][k]) } else { ([11.7, 0.01, 64.0, 900.0][k], -20.0 + 140.0 * x) };
        factors(t, &(whites[(k + d[0] as usize) % 6].to_vec(), la, bg, [2.0, 0.0, 1.0, 1.51][k], d[2] == 1))
    });
    cx.space("defaults", "omitted parameters and non-positive luminance mean the sRGB defaults", 64, |i, t| {
        let o = |k: u64| i >> k & 1 == 1;
        let w = ViewingConditions::make(
            o(0).then(|| r::D65.to_vec()),
            if o(5) { Some([-1.0, 0.0][(i & 1) as usize]) } else { o(1).then(r::default_la) },
            o(2).then_some(50.0),
            o(3).then_some(2.0),
            o(4).then_some(false),
        );
        let m = r::vc0();
        t.ops(1);
        ensure!(t, r::close(w.aw, m.aw, 1e-12) && r::close(w.fl, m.fl, 1e-12) && r::close(w.n_c, m.nc, 1e-12) && r::close(w.z, m.z, 1e-12), "defaults differ for mask {:b}", i);
        for s in [ViewingConditions::standard(), ViewingConditions::s_rgb()] {
            ensure!(t, r::close(s.aw, m.aw, 1e-12) && r::close(s.fl, m.fl, 1e-12) && r::close(s.rgb_d[2], m.d[2], 1e-12), "standard conditions differ");
        }
        Ok(())
    });
    let vs = vcs();
    let nv = vs.len() as u64;
    let vr = &vs;
    cx.space("omitted", "conditions x every subset of omitted parameters: the omitted ones, and only those, take their default", nv * 32, |i, t| {
        let (v, o) = (&vr[(i / 32) as usize], |k: u64| i >> k & 1 == 1);
        let w = ViewingConditions::make((!o(0)).then(|| v.0.clone()), (!o(1)).then_some(v.1), (!o(2)).then_some(v.2), (!o(3)).then_some(v.3), (!o(4)).then_some(v.4));
        let white = if o(0) { r::D65.to_vec() } else { v.0.clone() };
        let m = r::vc([white[0], white[1], white[2]], if o(1) { r::default_la() } else { v.1 }, if o(2) { 50.0 } else { v.2 }, if o(3) { 2.0 } else { v.3 }, !o(4) && v.4);
        t.ops(1);
        let e = 1e-9;
        let ok = r::close(w.background_y_to_white_point_y, m.n, e) && r::close(w.aw, m.aw, e) && r::close(w.nbb, m.nbb, e) && r::close(w.ncb, m.nbb, e) && r::close(w.c, m.c, e) && r::close(w.n_c, m.nc, e) && r::close(w.fl, m.fl, e) && r::close(w.z, m.z, e) && (0..3).all(|k| r::close(w.rgb_d[k], m.d[k], e));
        ensure!(t, ok, "{:?} with parameters {:05b} omitted", v, i % 32);
        Ok(())
    });
    let n = cx.pick(13, 33);
    cx.space("relativity", "conditions x lattice colours: translated colour equals the model", nv * n * n * n, |i, t| {
        let v = &vs[(i % nv) as usize];
        let a = lattice(i / nv, n);
        let (w, m) = mk(v);
        let x = Hct::from_int(a);
        let y = x.in_viewing_conditions(&w);
        t.ops(2);
        let c = r::cam(a);
        let p = r::xyz_of_jch(c.j, c.chroma, c.hue, &m);
        let q = r::cam_xyz(p, r::vc0());
        let tone = r::l_of(p[1]);
        hctc(t, &y, y.to_int(), "translated")?;
        if p.iter().all(|z| z.is_finite()) && q.hue.is_finite() && q.chroma.is_finite() {
            ensure!(t, r::solve_matches(q.hue, q.chroma, tone, y.to_int()) , "{:?} {:08x}: {:08x} expected {:08x}", v, a, y.to_int(), r::solve(q.hue, q.chroma, tone));
        } else {
            return t.vacuous();
        }
        t.out(y.to_int() as u64);
        Ok(())
    });
    let k = cx.pick(128, 256);
    cx.space("identity", "default conditions leave every lattice colour unchanged", k * k * k, |i, t| {
        let a = lattice(i, k);
        let y = Hct::from_int(a).in_viewing_conditions(&ViewingConditions::standard()).to_int();
        t.ops(1);
        let (x, z) = (r::rgb(a), r::rgb(y));
        ensure!(t, (0..3).all(|q| (x[q] - z[q]).abs() <= 1), "{:08x} became {:08x}", a, y);
        Ok(())
    });
}
