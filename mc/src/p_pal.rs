//! Palettes, legacy schemes, temperature, dislike, blending.
use crate::engine::*;
use crate::ensure;
use crate::p_color::{hctc, lattice, opaque};
use crate::p_dyn::{pal_is, sources, special_sources};
use crate::refm as r;
use crate::rolem as m;
use material_color_utilities_rs::blend::blend::Blend;
use material_color_utilities_rs::dislike::dislike_analyzer::DislikeAnalyzer;
use material_color_utilities_rs::hct::hct::Hct;
use material_color_utilities_rs::palettes::core_palette::CorePalette;
use material_color_utilities_rs::palettes::tonal_palette::TonalPalette;
#[allow(deprecated)]
use material_color_utilities_rs::scheme::scheme::Scheme;
use material_color_utilities_rs::temperature::temperature_cache::TemperatureCache;

pub fn run(id: &str, cx: &mut Ctx) -> bool {
    match id {
        "C18" => c18(cx),
        "C19" => c19(cx),
        "C20" => c20(cx),
        "C21" => c21(cx),
        "C22" => c22(cx),
        "C23" => c23(cx),
        "C24" => c24(cx),
        _ => return false,
    }
    true
}

// ------------------------------------------------------------------ C18
const CHROMAS: [f64; 14] = [0.0, 0.5, 2.0, 4.0, 8.0, 15.5, 16.0, 24.0, 32.0, 36.0, 48.0, 84.0, 120.0, 200.0];
const COMMON: [i64; 13] = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100];
/// hue/chroma/tone of a palette answer against the request
fn at(t: &mut T, hue: f64, chroma: f64, tone: f64, a: i64, what: &str) -> Res {
    ensure!(t, r::solve_matches(hue, chroma, tone, a), "{}: H{} C{} at tone {} is {:08x}, expected {:08x}", what, hue, chroma, tone, a, r::solve(hue, chroma, tone));
    let got = r::tone(a);
    ensure!(t, (got - tone.clamp(0.0, 100.0)).abs() < 0.3, "{}: H{} C{} asked for tone {} and got {}", what, hue, chroma, tone, got);
    Ok(())
}
fn key_ok(hue: f64, chroma: f64, got: i64) -> bool {
    if r::key_color(hue, chroma).argb == got {
        return true;
    }
    [1e-9, -1e-9].iter().any(|e| r::key_color(hue, chroma + e * 200.0).argb == got || r::key_color(hue + e * 360.0, chroma).argb == got)
}
fn c18(cx: &mut Ctx) {
    let nh = cx.pick(721, 3601);
    let tones = 101;
    let nc = CHROMAS.len() as u64;
    cx.space("tones", "palettes of every hue x chroma on the grid: every whole tone 0..100, as ARGB and as HCT", nh * nc, |i, t| {
        let hue = 360.0 * (i / nc) as f64 / (nh - 1) as f64;
        let chroma = CHROMAS[(i % nc) as usize];
        let mut p = TonalPalette::of(hue, chroma);
        t.ops(1);
        ensure!(t, p.hue == hue && p.chroma == chroma, "of({},{}) has hue {} chroma {}", hue, chroma, p.hue, p.chroma);
        let k = p.key_color.to_int();
        ensure!(t, key_ok(hue, chroma, k), "of({},{}): key colour {:08x}, expected {:08x}", hue, chroma, k, r::key_color(hue, chroma).argb);
        let fresh = p.clone();
        for tone in 0..tones {
            let h = fresh.get_hct(tone as f64);
            let a = p.get(tone);
            let h2 = p.get_hct(tone as f64);
            t.ops(3);
            at(t, hue, chroma, tone as f64, a, "get")?;
            ensure!(t, h.to_int() == a && h2.to_int() == a, "of({},{}) tone {}: get {:08x}, get_hct {:08x} before and {:08x} after", hue, chroma, tone, a, h.to_int(), h2.to_int());
            t.out(a as u64);
        }
        t.note(|| format!("H{} C{} key {:08x}", hue, chroma, k));
        Ok(())
    });
    // every chroma, not only those a scheme uses; hues given in any number of turns
    let (mc, mh) = (cx.pick(1201, 12001), cx.pick(24, 72));
    cx.space("chroma-sweep", "palettes of finely stepped chroma 0..150 x hues (a different one at each chroma, given with -2..2 extra turns): tones 0..100 in steps of 4", mc * mh, |i, t| {
        let (ci, hi) = (i / mh, i % mh);
        let chroma = 150.0 * ci as f64 / (mc - 1) as f64;
        let hue = 360.0 / mh as f64 * (hi as f64 + (ci as f64 * 0.618033988749895).fract());
        let turns = if ci % 4 == 3 { (hi % 5) as f64 - 2.0 } else { 0.0 };
        let mut p = TonalPalette::of(hue + 360.0 * turns, chroma);
        t.ops(1);
        for k in 0..26 {
            let tone = (4 * k + ci as i64 % 4).min(100);
            let a = p.get(tone);
            t.ops(1);
            at(t, hue, chroma, tone as f64, a, "get")?;
        }
        Ok(())
    });
    let nh = cx.pick(181, 721);
    cx.space("fractional", "get_hct at fractional and out-of-range tones, on a fresh palette and on one that has answered every whole tone", nh * nc, |i, t| {
        let hue = 360.0 * (i / nc) as f64 / (nh - 1) as f64;
        let chroma = CHROMAS[(i % nc) as usize];
        let fresh = TonalPalette::of(hue, chroma);
        let mut used = fresh.clone();
        for k in 0..=100 {
            used.get(k);
        }
        t.ops(101);
        for k in -8..=408 {
            let tone = k as f64 * 0.25 + 0.001 * (k % 3) as f64;
            for p in [&fresh, &used] {
                let a = p.get_hct(tone).to_int();
                t.ops(1);
                at(t, hue, chroma, tone, a, "get_hct")?;
            }
        }
        Ok(())
    });
    let n = cx.pick(65, 256);
    cx.space("from-colour", "palettes made from a colour keep that colour's hue and chroma, and give it back at its own tone", n * n * n, |i, t| {
        let a = lattice(i, n);
        let h = Hct::from_int(a);
        let p = TonalPalette::from_hct(&h);
        t.ops(2);
        ensure!(t, p.hue == h.get_hue() && p.chroma == h.get_chroma(), "{:08x}: palette H{} C{}", a, p.hue, p.chroma);
        ensure!(t, p.key_color.to_int() == a, "{:08x}: key colour {:08x}", a, p.key_color.to_int());
        let b = p.get_hct(h.get_tone()).to_int();
        ensure!(t, b == a, "{:08x}: palette answers {:08x} at its own tone {}", a, b, h.get_tone());
        t.out(a as u64);
        Ok(())
    });
    let nh = cx.pick(721, 7201);
    cx.space("key-colour", "key colours: nearest achievable chroma for every hue x chroma", nh * 101, |i, t| {
        let hue = 360.0 * (i / 101) as f64 / (nh - 1) as f64;
        let chroma = (i % 101) as f64 * 1.5;
        let k = TonalPalette::create_key_color(hue, chroma);
        t.ops(1);
        ensure!(t, key_ok(hue, chroma, k.to_int()), "key colour of H{} C{}: {:08x}, expected {:08x}", hue, chroma, k.to_int(), r::key_color(hue, chroma).argb);
        ensure!(t, k.get_chroma() < chroma + 3.0, "key colour of H{} C{} has chroma {}", hue, chroma, k.get_chroma());
        t.out(k.to_int() as u64);
        Ok(())
    });
}

// ------------------------------------------------------------------ C19
#[derive(Clone, Copy, Debug)]
enum Op { Get(i64), Hct(f64), List, Str, Eq, Clone }
fn pal_kinds() -> Vec<(String, TonalPalette, Option<Vec<i64>>)> {
    let mut v = Vec::new();
    v.push(("of(270,36)".to_string(), TonalPalette::of(270.0, 36.0), None));
    v.push(("of(120,200)".to_string(), TonalPalette::of(120.0, 200.0), None));
    v.push(("from_hct".to_string(), TonalPalette::from_hct(&Hct::from_int(0xff8a5021)), None));
    let l = TonalPalette::of(200.0, 40.0).get_as_list();
    v.push(("from_list(own)".to_string(), TonalPalette::from_list(&l), Some(l.clone())));
    // a list no palette produces: reversed and recoloured
    let mut w: Vec<i64> = l.iter().rev().cloned().collect();
    w[5] = 0xffff0000;
    v.push(("from_list(foreign)".to_string(), TonalPalette::from_list(&w), Some(w)));
    v.push(("from_list(greys)".to_string(), TonalPalette::from_list(&vec![0xff808080; 13]), Some(vec![0xff808080; 13])));
    v
}
fn c19(cx: &mut Ctx) {
    let kinds = pal_kinds();
    let mut ops: Vec<Op> = vec![Op::List, Op::Str, Op::Eq, Op::Clone];
    ops.extend([0, 49, 50, 51, 99, 100, 101, -1].map(Op::Get));
    ops.extend([0.0, 0.4, -0.4, 49.0, 49.7, 50.0, 50.3, 50.9999, 99.0, 99.5, 100.0, 100.5].map(Op::Hct));
    if !cx.quick() {
        ops.extend([10, 40, 60, 95].map(Op::Get));
        ops.extend([10.0, 10.5, 51.0, 95.2].map(Op::Hct));
    }
    // answers of a palette nobody has used before
    let answer = |p: &mut TonalPalette, orig: &TonalPalette, op: Op| -> Vec<i64> {
        match op {
            Op::Get(k) => vec![p.get(k)],
            Op::Hct(x) => vec![p.get_hct(x).to_int()],
            Op::List => p.get_as_list(),
            Op::Str => p.to_string().bytes().map(|b| b as i64).collect(),
            Op::Eq => vec![(p == orig) as i64, (orig == p) as i64, (hash_of(p) == hash_of(orig)) as i64],
            Op::Clone => {
                let c = p.clone();
                *p = c;
                vec![]
            }
        }
    };
    let fresh: Vec<Vec<Vec<i64>>> = kinds.iter().map(|k| ops.iter().map(|o| answer(&mut k.1.clone(), &k.1, *o)).collect()).collect();
    let d = cx.pick(4, 4) as usize;
    let (nk, no) = (kinds.len() as u64, ops.len() as u64);
    let (kr, opr, fr) = (&kinds, &ops, &fresh);
    cx.space("histories", "every sequence of palette operations: each answer is what an unused palette answers; equality and hash never change", nk * no.pow(d as u32), |i, t| {
        let k = (i % nk) as usize;
        let seq = digits(i / nk, &vec![no; d]);
        let mut p = kr[k].1.clone();
        for (s, o) in seq.iter().enumerate() {
            let a = answer(&mut p, &kr[k].1, opr[*o as usize]);
            t.ops(1);
            ensure!(t, a == fr[k][*o as usize], "{} after {:?}: {:?} gives {:x?}, an unused palette gives {:x?}", kr[k].0, seq[..s].iter().map(|x| opr[*x as usize]).collect::<Vec<_>>(), opr[*o as usize], a, fr[k][*o as usize]);
        }
        t.note(|| format!("{} {:?}", kr[k].0, seq.iter().map(|x| opr[*x as usize]).collect::<Vec<_>>()));
        Ok(())
    });
    // any two tones: whatever was asked first, the second answer is its own (no two tones share an answer slot)
    let mut tones: Vec<i64> = (-(cx.pick(300, 600) as i64)..=cx.pick(600, 1200) as i64).collect();
    for b in [8u32, 9, 10, 15, 16, 31, 32, 33, 48, 62] {
        for o in [-1i64, 0, 1, 50, 100] {
            tones.extend([(1i64 << b) + o, -(1i64 << b) + o]);
        }
    }
    tones.extend([i64::MAX, i64::MIN]);
    tones.sort_unstable();
    tones.dedup();
    let nt = tones.len() as u64;
    let two: Vec<TonalPalette> = vec![TonalPalette::of(270.0, 40.0), kinds.iter().find(|k| k.2.is_some()).unwrap().1.clone()];
    let single: Vec<Vec<i64>> = two.iter().map(|p| tones.iter().map(|t| p.clone().get(*t)).collect()).collect();
    let (tr, twr, sr) = (&tones, &two, &single);
    cx.space("tone-pairs", "every ordered pair of whole tones, in and out of range: the second answer does not depend on the first, in ARGB and in HCT", nt * nt * 2, |i, t| {
        let d = digits(i, &[2, nt, nt]);
        let (k, a, b) = (d[0] as usize, d[1] as usize, d[2] as usize);
        let mut p = twr[k].clone();
        let x = p.get(tr[a]);
        let y = p.get(tr[b]);
        t.ops(2);
        ensure!(t, x == sr[k][a], "palette {}: tone {} gives {:08x}, then {:08x}", k, tr[a], sr[k][a], x);
        ensure!(t, y == sr[k][b], "palette {}: tone {} gives {:08x}, but {:08x} after tone {}", k, tr[b], sr[k][b], y, tr[a]);
        if a % 37 == b % 37 {
            let z = p.get_hct(tr[b] as f64).to_int();
            ensure!(t, z == y, "palette {}: tone {} get {:08x}, get_hct {:08x}", k, tr[b], y, z);
        }
        t.out(y as u64);
        Ok(())
    });
    // long lives: many different tones through one object
    let span = cx.pick(700, 6000) as i64;
    const STRIDE: [i64; 8] = [1, 3, 7, 11, -1, 37, 101, 229];
    cx.space("long-life", "every palette kind x order of asking x probed tone: one object asked for hundreds of different tones still answers the probed tone as it did when unused", nk * 8 * 121, |i, t| {
        let d = digits(i, &[nk, 8, 121]);
        let p0 = &kr[d[0] as usize].1;
        let probe = d[2] as i64 - 10;
        let want = p0.clone().get(probe);
        let mut p = p0.clone();
        for s in 0..span {
            p.get((s * STRIDE[d[1] as usize]).rem_euclid(span) - span / 3);
            if s % 16 == 15 || s + 1 == span {
                let (a, h) = (p.get(probe), p.get_hct(probe as f64).to_int());
                t.ops(18);
                ensure!(t, a == want && h == want, "{}: tone {} gives {:08x} when unused, but {:08x} / {:08x} after {} other tones (stride {})", kr[d[0] as usize].0, probe, want, a, h, s + 1, STRIDE[d[1] as usize]);
            }
        }
        t.out(want as u64);
        Ok(())
    });
    const OFF: [f64; 14] = [1e-9, -1e-9, 1e-4, -1e-4, 0.003, -0.003, 0.02, -0.02, 0.04, -0.04, 0.1, -0.1, 0.24, -0.24];
    cx.space("fraction-after-whole", "every palette kind x whole tone x offset: a tone next to a whole tone that has been asked for (or all common ones) is answered as by an unused palette", nk * 101 * 14, |i, t| {
        let d = digits(i, &[nk, 101, 14]);
        let p0 = &kr[d[0] as usize].1;
        let x = d[1] as f64 + OFF[d[2] as usize];
        let want = p0.clone().get_hct(x).to_int();
        let mut p = p0.clone();
        p.get(d[1] as i64);
        let a = p.get_hct(x).to_int();
        p.get_as_list();
        let b = p.get_hct(x).to_int();
        t.ops(5);
        ensure!(t, a == want && b == want, "{}: tone {} gives {:08x}, but {:08x} after tone {} and {:08x} after its list", kr[d[0] as usize].0, x, want, a, d[1], b);
        t.out(want as u64);
        Ok(())
    });
    // fresh answers themselves
    cx.space("answers", "first answers: given colours at the common tones of a list palette, the deduced hue/chroma elsewhere", nk * 141, |i, t| {
        let k = (i % nk) as usize;
        let tone = (i / nk) as i64 - 20;
        let (name, p0, list) = &kr[k];
        let mut p = p0.clone();
        let (a, h) = (p.get(tone), p0.get_hct(tone as f64));
        t.ops(2);
        ensure!(t, h.to_int() == a, "{} tone {}: get {:08x} get_hct {:08x}", name, tone, a, h.to_int());
        match (list, COMMON.iter().position(|c| *c == tone)) {
            (Some(l), Some(ix)) => ensure!(t, a == l[ix], "{} tone {}: {:08x}, given {:08x}", name, tone, a, l[ix]),
            _ => ensure!(t, r::solve_matches(p0.hue, p0.chroma, tone as f64, a), "{} tone {}: {:08x}", name, tone, a),
        }
        let f = p0.get_hct(tone as f64 + 0.5);
        ensure!(t, r::solve_matches(p0.hue, p0.chroma, tone as f64 + 0.5, f.to_int()), "{} tone {}.5: {:08x}", name, tone, f.to_int());
        t.out(a as u64);
        Ok(())
    });
    let n = cx.pick(181, 1441);
    cx.space("list-round-trip", "of -> list -> from_list -> list is the identity; the deduced hue and chroma are those of the most colourful entry; equality and hash survive", n * 14, |i, t| {
        let hue = 360.0 * (i / 14) as f64 / (n - 1) as f64;
        let chroma = CHROMAS[(i % 14) as usize];
        let mut p = TonalPalette::of(hue, chroma);
        let l = p.get_as_list();
        let mut q = TonalPalette::from_list(&l);
        t.ops(3);
        ensure!(t, l.len() == 13, "list of {} colours", l.len());
        for (k, tone) in COMMON.iter().enumerate() {
            ensure!(t, r::solve_matches(hue, chroma, *tone as f64, l[k]), "of({},{}) list entry {} is {:08x}", hue, chroma, k, l[k]);
        }
        ensure!(t, q.get_as_list() == l, "of({},{}): list changed on the round trip", hue, chroma);
        let mut best: Option<r::H> = None;
        for a in &l {
            let h = r::hct(*a);
            if h.tone <= 98.0 && best.as_ref().map_or(h.chroma > 0.0, |b| h.chroma > b.chroma) {
                best = Some(h);
            }
        }
        let b = best.unwrap();
        pal_is(t, &q, b.hue, b.chroma, &format!("from_list of of({},{})", hue, chroma))?;
        ensure!(t, p == q && q == p, "of({},{}) differs from its own list", hue, chroma);
        let q2 = TonalPalette::from_list(&l);
        ensure!(t, q == q2 && hash_of(&q) == hash_of(&q2), "equal list palettes differ");
        let p2 = TonalPalette::of(hue, chroma);
        ensure!(t, p == p2 && hash_of(&p) == hash_of(&p2), "equal palettes differ after use");
        let mut l2 = l.clone();
        l2[(i % 13) as usize] ^= 1;
        let q3 = TonalPalette::from_list(&l2);
        ensure!(t, q != q3, "palettes with different colours compare equal");
        ensure!(t, p.to_string().starts_with("TonalPalette.of(") && q.to_string().starts_with("TonalPalette.fromList(["), "to_string: {} / {}", p.to_string(), q.to_string());
        for c in &l {
            ensure!(t, q.to_string().contains(&c.to_string()), "to_string omits {}", c);
        }
        t.out_f(q.hue);
        Ok(())
    });
    // the given colours come back as given, whatever their alpha
    const ALPHA: [i64; 12] = [0, 1, 15, 16, 100, 127, 128, 129, 200, 240, 254, 255];
    let lc = cx.pick(5, 9);
    cx.space("given-alpha", "lists with a colour of any alpha at any position (the others opaque or of that alpha too): every given colour comes back unchanged, in ARGB, in the list and in the text", 13 * 12 * 2 * lc * lc * lc, |i, t| {
        let d = digits(i, &[13, 12, 2, lc * lc * lc]);
        let al = ALPHA[d[1] as usize];
        let odd = al << 24 | (lattice(d[3], lc) & 0xffffff);
        let mut l: Vec<i64> = (0..13i64).map(|k| (if d[2] == 1 { al << 24 } else { 0xff000000 }) | (k * 20) << 16 | (200 - k * 9) << 8 | (k * k)).collect();
        l[d[0] as usize] = odd;
        let mut p = TonalPalette::from_list(&l);
        t.ops(2);
        for (k, tone) in COMMON.iter().enumerate() {
            let (a, h) = (p.get(*tone), p.get_hct(*tone as f64).to_int());
            ensure!(t, a == l[k], "list {:x?}: tone {} gives {:08x}", l, tone, a);
            ensure!(t, h == l[k], "list {:x?}: tone {} in HCT gives {:08x}", l, tone, h);
        }
        ensure!(t, p.get_as_list() == l, "list {:x?}: comes back as {:x?}", l, p.get_as_list());
        ensure!(t, p == TonalPalette::from_list(&l), "list {:x?}: differs from itself", l);
        t.out(odd as u64);
        Ok(())
    });
    // entries next to white are ignored when the hue and chroma are deduced
    cx.space("near-white", "lists holding one colour of tone 96..100 (all such colours of a grid) and one dull colour: only an entry of tone at most 98 decides the deduced hue and chroma", 40 * 40 * 64 * 2, |i, t| {
        let d = digits(i, &[2, 40, 40, 64]);
        let a = 0xff000000 | (216 + d[1] as i64) << 16 | (216 + d[2] as i64) << 8 | (d[3] as i64 * 4 + 3);
        let h = r::hct(a);
        if !(96.0..=100.0).contains(&h.tone) || (h.tone - 98.0).abs() < 1e-6 {
            return t.vacuous();
        }
        let dull = 0xff4a4a4e;
        let mut l = vec![0xff000000i64; 13];
        let at = (i % 13) as usize;
        l[at] = a;
        if d[0] == 1 {
            l[(at + 5) % 13] = dull;
        }
        let q = TonalPalette::from_list(&l);
        t.ops(1);
        let mut best = (0.0, 0.0);
        for c in [dull, a] {
            let g = r::hct(c);
            if (c != dull || d[0] == 1) && g.tone <= 98.0 && g.chroma > best.1 {
                best = (g.hue, g.chroma);
            }
        }
        pal_is(t, &q, best.0, best.1, &format!("list with {:08x} (tone {}) at {}", a, h.tone, at))?;
        t.out_f(q.hue);
        Ok(())
    });
    // equality and hash as relations
    let mut pals: Vec<(Option<(f64, f64)>, TonalPalette)> = Vec::new();
    for (h, c) in [(0.0, 0.0), (-0.0, 0.0), (0.0, -0.0), (0.0, 1.0), (1.0, 0.0), (270.0, 36.0), (36.0, 270.0), (270.0, 36.5), (270.5, 36.0), (269.9999999, 36.0), (270.0, 36.0000001), (360.0, 16.0), (0.0, 16.0), (120.0, 200.0), (120.0, 201.0)] {
        pals.push((Some((h, c)), TonalPalette::of(h, c)));
        pals.push((None, TonalPalette::from_list(&TonalPalette::of(h, c).get_as_list())));
    }
    for a in [0xff8a5021i64, 0xff8a5022, 0xff000000, 0xffffffff, 0xff0000ff] {
        let h = Hct::from_int(a);
        pals.push((Some((h.get_hue(), h.get_chroma())), TonalPalette::from_hct(&h)));
        pals.push((Some((h.get_hue(), h.get_chroma())), TonalPalette::of(h.get_hue(), h.get_chroma())));
    }
    let base = TonalPalette::of(200.0, 40.0).get_as_list();
    for k in 0..13 {
        for x in [1, 0x100, 0x10000, 0x1000000] {
            let mut l = base.clone();
            l[k] ^= x;
            pals.push((None, TonalPalette::from_list(&l)));
        }
        let mut l = base.clone();
        l.swap(k, (k + 1) % 13);
        pals.push((None, TonalPalette::from_list(&l)));
        l.reverse();
        pals.push((None, TonalPalette::from_list(&l)));
    }
    let np = pals.len() as u64;
    let pr = &pals;
    cx.space("equality", "every ordered pair of a collection of palettes of every kind, unused and used: equal exactly when the two agree in hue and chroma, or, if either was given as a list, in the 13 common colours; equal palettes hash alike", np * np * 4, |i, t| {
        let d = digits(i, &[2, 2, np, np]);
        let (x, y) = (&pr[d[2] as usize], &pr[d[3] as usize]);
        let (mut p, mut q) = (x.1.clone(), y.1.clone());
        for (u, z) in [(d[0], &mut p), (d[1], &mut q)] {
            if u == 1 {
                z.get(7);
                z.get(50);
            }
        }
        let want = match (x.0, y.0) {
            (Some(a), Some(b)) => a == b,
            _ => x.1.clone().get_as_list() == y.1.clone().get_as_list(),
        };
        t.ops(2);
        ensure!(t, (p == q) == want, "{} == {} is {}", p.to_string(), q.to_string(), p == q);
        if want && x.0.is_some() == y.0.is_some() {
            ensure!(t, hash_of(&p) == hash_of(&q), "{} and {} are equal and hash differently", p.to_string(), q.to_string());
        }
        t.out(want as u64);
        Ok(())
    });
}
pub fn hash_of<X: std::hash::Hash>(x: &X) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------ C20
#[allow(deprecated)]
fn c20(cx: &mut Ctx) {
    let n = cx.pick(48, 128);
    cx.space("core-palettes", "core palettes (default and content) of every source colour: hue and chroma of all six palettes", n * n * n * 2, |i, t| {
        let a = lattice(i / 2, n);
        let h = r::hct(a);
        let (p, want) = if i % 2 == 0 {
            (CorePalette::of(a), [(0.0, h.chroma.max(48.0)), (0.0, 16.0), (60.0, 24.0), (0.0, 4.0), (0.0, 8.0)])
        } else {
            (CorePalette::content_of(a), [(0.0, h.chroma), (0.0, h.chroma / 3.0), (60.0, h.chroma / 2.0), (0.0, (h.chroma / 12.0).min(4.0)), (0.0, (h.chroma / 6.0).min(8.0))])
        };
        t.ops(1);
        for (k, q) in [&p.primary, &p.secondary, &p.tertiary, &p.neutral, &p.neutral_variant].iter().enumerate() {
            pal_is(t, q, h.hue + want[k].0, want[k].1, &format!("{:08x} palette {}", a, k))?;
            t.out_f(q.chroma);
        }
        pal_is(t, &p.error, 25.0, 84.0, "error palette")?;
        Ok(())
    });
    let n = cx.pick(9, 17);
    cx.space("core-lists", "core palette -> list -> core palette: same colours, palettes in order, equal value and hash", n * n * n * 2, |i, t| {
        let a = lattice(i / 2, n);
        let mk = || if i % 2 == 0 { CorePalette::of(a) } else { CorePalette::content_of(a) };
        let mut p = mk();
        let l = p.as_list();
        t.ops(2);
        ensure!(t, l.len() == 65, "list of {} colours", l.len());
        let q = mk();
        for (k, x) in [&q.primary, &q.secondary, &q.tertiary, &q.neutral, &q.neutral_variant].iter().enumerate() {
            for (j, tone) in COMMON.iter().enumerate() {
                ensure!(t, r::solve_matches(x.hue, x.chroma, *tone as f64, l[13 * k + j]), "{:08x}: list entry {} is {:08x}", a, 13 * k + j, l[13 * k + j]);
            }
        }
        let mut b = CorePalette::from_list(&l);
        ensure!(t, b.as_list() == l, "{:08x}: list changed on the round trip", a);
        ensure!(t, b == CorePalette::from_list(&l) && hash_of(&b) == hash_of(&CorePalette::from_list(&l)), "equal core palettes differ");
        ensure!(t, p == q && hash_of(&p) == hash_of(&q), "{:08x}: core palette changed by use", a);
        ensure!(t, b.to_string().matches("TonalPalette.").count() == 6, "to_string {}", b.to_string());
        let mut l2 = l.clone();
        let k = (i % 65) as usize;
        l2[k] ^= 3;
        ensure!(t, CorePalette::from_list(&l2) != b, "core palettes with different colours compare equal (entry {})", k);
        ensure!(t, CorePalette::from_list(&l2).as_list() == l2, "list entry {} lost", k);
        Ok(())
    });
    let src = sources(cx.pick(20, 48));
    const S: [(&str, usize, i64, i64); 29] = [
        ("primary", 0, 40, 80), ("on_primary", 0, 100, 20), ("primary_container", 0, 90, 30), ("on_primary_container", 0, 10, 90),
        ("secondary", 1, 40, 80), ("on_secondary", 1, 100, 20), ("secondary_container", 1, 90, 30), ("on_secondary_container", 1, 10, 90),
        ("tertiary", 2, 40, 80), ("on_tertiary", 2, 100, 20), ("tertiary_container", 2, 90, 30), ("on_tertiary_container", 2, 10, 90),
        ("error", 5, 40, 80), ("on_error", 5, 100, 20), ("error_container", 5, 90, 30), ("on_error_container", 5, 10, 80),
        ("background", 3, 99, 10), ("on_background", 3, 10, 90), ("surface", 3, 99, 10), ("on_surface", 3, 10, 90),
        ("surface_variant", 4, 90, 30), ("on_surface_variant", 4, 30, 80), ("outline", 4, 50, 60), ("outline_variant", 4, 80, 30),
        ("shadow", 3, 0, 0), ("scrim", 3, 0, 0), ("inverse_surface", 3, 20, 90), ("inverse_on_surface", 3, 95, 20), ("inverse_primary", 0, 80, 40),
    ];
    cx.space("legacy-schemes", "light/dark x default/content legacy schemes of every source colour: each of the 29 colours is the specified tone of the specified palette", src.len() as u64 * 4, |i, t| {
        let a = src[(i / 4) as usize];
        let (dark, content) = (i % 2 == 1, i % 4 >= 2);
        let s = match (dark, content) {
            (false, false) => Scheme::light(a),
            (true, false) => Scheme::dark(a),
            (false, true) => Scheme::light_content(a),
            (true, true) => Scheme::dark_content(a),
        };
        let h = r::hct(a);
        let c = h.chroma;
        let pal = if content {
            [(h.hue, c), (h.hue, c / 3.0), (h.hue + 60.0, c / 2.0), (h.hue, (c / 12.0).min(4.0)), (h.hue, (c / 6.0).min(8.0)), (25.0, 84.0)]
        } else {
            [(h.hue, c.max(48.0)), (h.hue, 16.0), (h.hue + 60.0, 24.0), (h.hue, 4.0), (h.hue, 8.0), (25.0, 84.0)]
        };
        let got = scheme_list(&s);
        t.ops(1);
        for (k, (name, p, light, drk)) in S.iter().enumerate() {
            let tone = if dark { *drk } else { *light };
            let (ph, pc) = pal[*p];
            ensure!(t, r::solve_matches(ph, pc, tone as f64, got[k]), "{:08x} dark={} content={}: {} = {:08x}, expected tone {} of H{} C{}", a, dark, content, name, got[k], tone, ph, pc);
            t.out(got[k] as u64);
        }
        Ok(())
    });
    // a core palette given as a list: the scheme shows exactly the given colours
    let src = sources(cx.pick(7, 16));
    cx.space("given-palettes", "legacy schemes of core palettes put together from lists that no single source colour produces: each colour is the given one at the specified common tone", src.len() as u64 * 10, |i, t| {
        let a = src[(i / 10) as usize];
        let (dark, k) = (i % 2 == 1, (i / 2 % 5) as usize);
        let other = src[((i / 10) as usize * 7 + 3) % src.len()];
        let (l1, l2) = (CorePalette::of(a).as_list(), CorePalette::content_of(other).as_list());
        let mut l = l1.clone();
        // one palette from elsewhere, two exchanged, and one colour nobody would expect
        l[13 * k..13 * k + 13].copy_from_slice(&l2[13 * ((k + 2) % 5)..13 * ((k + 2) % 5) + 13]);
        for j in 0..13 {
            l.swap(13 * ((k + 1) % 5) + j, 13 * ((k + 3) % 5) + j);
        }
        l[(i % 65) as usize] ^= 0x00335577;
        let p = CorePalette::from_list(&l);
        let s = if dark { Scheme::dark_from_core_palette(p) } else { Scheme::light_from_core_palette(p) };
        t.ops(1);
        for (n, (name, pal, light, drk)) in S.iter().enumerate() {
            let tone = if dark { *drk } else { *light };
            let got = scheme_list(&s)[n];
            if *pal == 5 {
                ensure!(t, r::solve_matches(25.0, 84.0, tone as f64, got), "{} = {:08x}", name, got);
            } else {
                let want = l[13 * pal + COMMON.iter().position(|c| *c == tone).unwrap()];
                ensure!(t, got == want, "case {} dark={}: {} = {:08x}, given {:08x}", i, dark, name, got, want);
            }
            t.out(got as u64);
        }
        Ok(())
    });
}
#[allow(deprecated)]
fn scheme_list(s: &Scheme) -> [i64; 29] {
    [
        s.primary, s.on_primary, s.primary_container, s.on_primary_container, s.secondary, s.on_secondary, s.secondary_container, s.on_secondary_container,
        s.tertiary, s.on_tertiary, s.tertiary_container, s.on_tertiary_container, s.error, s.on_error, s.error_container, s.on_error_container,
        s.background, s.on_background, s.surface, s.on_surface, s.surface_variant, s.on_surface_variant, s.outline, s.outline_variant,
        s.shadow, s.scrim, s.inverse_surface, s.inverse_on_surface, s.inverse_primary,
    ]
}

// ------------------------------------------------------------------ C21
fn c21(cx: &mut Ctx) {
    let n = cx.pick(256, 256);
    cx.space("raw", "raw temperature of every colour of the grid (thorough: every colour)", n * n * n, |i, t| {
        let a = if n == 256 { opaque(i) } else { lattice(i, n) };
        let h = Hct::from_int(a);
        let x = TemperatureCache::raw_temperature(&h);
        t.ops(1);
        ensure!(t, r::close(x, r::raw_temp(a), 1e-7), "{:08x}: temperature {} expected {}", a, x, r::raw_temp(a));
        ensure!(t, x > -9.66 && x < 8.61, "{:08x}: temperature {} out of the documented range", a, x);
        t.out_f(x);
        Ok(())
    });
    let src = sources(cx.pick(9, 30));
    cx.space("wheel", "temperature wheel of every source: extremes, relative temperatures, complement, all analogous counts/divisions", src.len() as u64, |i, t| {
        let a = src[i as usize];
        let mut tc = TemperatureCache::new(Hct::from_int(a));
        let tm = m::Temp::new(r::hct(a));
        let (c, w) = (tc.get_coldest(), tc.get_warmest());
        t.ops(3);
        let (rc, rw) = (r::raw_temp(c.to_int()), r::raw_temp(w.to_int()));
        ensure!(t, r::close(rc, tm.cold.0, 1e-7) && r::close(rw, tm.warm.0, 1e-7), "{:08x}: coldest {:08x} ({}) warmest {:08x} ({}), expected {} and {}", a, c.to_int(), rc, w.to_int(), rw, tm.cold.0, tm.warm.0);
        let x = tc.get_input_relative_temperature();
        ensure!(t, (0.0..=1.0).contains(&x), "{:08x}: input relative temperature {}", a, x);
        let amb = tm.warm.0 - tm.cold.0 < 1e-7;
        ensure!(t, amb || r::close(x, tm.rel(tm.tin), 1e-6), "{:08x}: input relative temperature {} expected {}", a, x, tm.rel(tm.tin));
        let by_hue = tc.get_hcts_by_hue();
        ensure!(t, by_hue.len() >= 360, "{} hues", by_hue.len());
        for (k, h) in by_hue.iter().enumerate().take(361) {
            ensure!(t, r::solve_matches(k as f64, tm.input.chroma, tm.input.tone, h.to_int()), "{:08x}: hue {} is {:08x}", a, k, h.to_int());
            if k % 15 == 0 || k == 359 {
                let x = tc.relative_temperature(h);
                t.ops(1);
                ensure!(t, (0.0..=1.0).contains(&x), "{:08x}: relative temperature {}", a, x);
                ensure!(t, amb || r::close(x, tm.rel(r::raw_temp(h.to_int())), 1e-6), "{:08x}: relative temperature of hue {} = {}", a, k, x);
            }
        }
        if by_hue.iter().all(|h| h.to_int() == a) {
            // a circle of a single colour has no warm and no cold side
            let y = tc.relative_temperature(&Hct::from_int(a));
            t.ops(1);
            ensure!(t, r::close(x, 0.5, 1e-9) && r::close(y, 0.5, 1e-9), "{:08x}: relative temperatures {} and {} on a circle of one colour", a, x, y);
        }
        let (rlc, rlw) = (tc.relative_temperature(&c), tc.relative_temperature(&w));
        ensure!(t, amb || (rlc.abs() < 1e-9 && (rlw - 1.0).abs() < 1e-9), "{:08x}: extremes have relative temperatures {} and {}", a, rlc, rlw);
        let by_temp = tc.get_hcts_by_temp();
        ensure!(t, by_temp.len() == by_hue.len() + 1, "{} colours by temperature, {} by hue", by_temp.len(), by_hue.len());
        for p in by_temp.windows(2) {
            ensure!(t, r::raw_temp(p[0].to_int()) <= r::raw_temp(p[1].to_int()) + 1e-7, "{:08x}: not sorted by temperature", a);
        }
        let comp = tc.get_complement();
        t.ops(3);
        ensure!(t, tm.complement().iter().any(|q| q.argb == comp.to_int()), "{:08x}: complement {:08x}, expected {:08x}", a, comp.to_int(), tm.complement()[0].argb);
        t.out(comp.to_int() as u64);
        for (cnt, div) in [(5, 12), (3, 6), (1, 1), (2, 3), (4, 6), (6, 6), (7, 3), (5, 1), (9, 24), (12, 12), (5, 48), (3, 60), (21, 100), (5, 180), (4, 359), (5, 360)] {
            let an = tc.analogous(Some(cnt), Some(div));
            t.ops(1);
            ensure!(t, an.len() == cnt as usize, "{:08x}: {} analogous colours instead of {}", a, an.len(), cnt);
            let got: Vec<i64> = an.iter().map(|h| h.to_int()).collect();
            ensure!(t, got[((cnt - 1) / 2) as usize] == a, "{:08x}: the input is not in the middle of {:08x?}", a, got);
            let want = tm.analogous(cnt as usize, div as usize);
            ensure!(t, want.iter().any(|w| w.iter().map(|h| h.argb).eq(got.iter().cloned())), "{:08x}: analogous({},{}) = {:08x?}, expected {:08x?}", a, cnt, div, got, want[0].iter().map(|h| h.argb).collect::<Vec<_>>());
        }
        let def: Vec<i64> = tc.analogous(None, None).iter().map(|h| h.to_int()).collect();
        let d2: Vec<i64> = tc.analogous(Some(5), Some(12)).iter().map(|h| h.to_int()).collect();
        ensure!(t, def == d2, "{:08x}: defaults are not 5 of 12", a);
        t.note(|| format!("{:08x}: complement {:08x}", a, comp.to_int()));
        Ok(())
    });
    cx.space("between", "is_between on every triple of angles of a 15-degree grid", 25 * 25 * 25, |i, t| {
        let d = digits(i, &[25, 25, 25]);
        let (x, a, b) = (d[0] as f64 * 15.0, d[1] as f64 * 15.0, d[2] as f64 * 15.0);
        let got = TemperatureCache::is_between(x, a, b);
        t.ops(1);
        // walking clockwise from a to b passes x
        let want = if a < b { x >= a && x <= b } else { x >= a || x <= b };
        ensure!(t, got == want, "is_between({},{},{})={}", x, a, b, got);
        Ok(())
    });
}

// ------------------------------------------------------------------ C22
/// A sequence over 0..n that contains every ordered pair (equal ones included) of neighbours exactly once.
pub fn pair_walk(n: u64) -> Vec<u64> {
    let mut next = vec![0u64; n as usize];
    let (mut stack, mut out) = (vec![0u64], Vec::new());
    while let Some(&v) = stack.last() {
        if next[v as usize] < n {
            stack.push(next[v as usize]);
            next[v as usize] += 1;
        } else {
            out.push(v);
            stack.pop();
        }
    }
    out.reverse();
    out
}
fn c22(cx: &mut Ctx) {
    let mut src = special_sources();
    src.truncate(if cx.quick() { 24 } else { 60 });
    if cx.quick() {
        src.retain(|a| [0xff000000, 0xff808080, 0xff4285f4, 0xff606000].contains(a) || r::hct(*a).hue >= 359.5);
        src.truncate(6);
    }
    const N: u64 = 10;
    let run = |tc: &mut TemperatureCache, o: u64| -> Vec<u64> {
        let h = |x: &Hct| x.to_int() as u64;
        match o {
            0 => vec![h(&tc.get_coldest())],
            1 => vec![h(&tc.get_warmest())],
            2 => vec![h(&tc.get_complement())],
            3 => tc.analogous(None, None).iter().map(h).collect(),
            4 => tc.analogous(Some(3), Some(6)).iter().map(h).collect(),
            5 => vec![tc.get_input_relative_temperature().to_bits()],
            6 => tc.get_hcts_by_hue().iter().map(h).collect(),
            7 => tc.get_hcts_by_temp().iter().map(h).collect(),
            8 => {
                let m = tc.get_temps_by_hct();
                let mut v: Vec<u64> = m.iter().map(|(k, v)| h(k).wrapping_mul(0x9e3779b97f4a7c15) ^ v.to_bits()).collect();
                v.sort();
                v
            }
            _ => {
                let i = tc.input.clone();
                vec![tc.relative_temperature(&i).to_bits()]
            }
        }
    };
    let fresh: Vec<Vec<Vec<u64>>> = src.iter().map(|a| (0..N).map(|o| run(&mut TemperatureCache::new(Hct::from_int(*a)), o)).collect()).collect();
    let d = cx.pick(3, 4) as u32;
    let n = N.pow(d);
    cx.space("histories", "every sequence of temperature queries on one object: each answer equals a fresh object's", src.len() as u64 * n, |i, t| {
        let k = (i / n) as usize;
        let seq = digits(i % n, &vec![N; d as usize]);
        let mut tc = TemperatureCache::new(Hct::from_int(src[k]));
        for (s, o) in seq.iter().enumerate() {
            let a = run(&mut tc, *o);
            t.ops(1);
            ensure!(t, a == fresh[k][*o as usize], "{:08x} after queries {:?}: query {} gives {:x?} instead of {:x?}", src[k], &seq[..s], o, a, fresh[k][*o as usize]);
        }
        ensure!(t, tc.input.to_int() == src[k], "input changed");
        t.note(|| format!("{:08x} {:?}", src[k], seq));
        Ok(())
    });
    // many sources, each with one walk that takes every ordered pair of queries on one object
    let walk = pair_walk(N);
    let q = cx.pick(7, 13);
    cx.space("query-pairs", "lattice colours: a walk over every ordered pair of temperature queries on one object", q * q * q, |i, t| {
        let a = lattice(i, q);
        let fresh: Vec<Vec<u64>> = (0..N).map(|o| run(&mut TemperatureCache::new(Hct::from_int(a)), o)).collect();
        let mut tc = TemperatureCache::new(Hct::from_int(a));
        for (s, o) in walk.iter().enumerate() {
            let g = run(&mut tc, *o);
            t.ops(1);
            ensure!(t, g == fresh[*o as usize], "{:08x}: query {} after {:?} gives {:x?} instead of {:x?}", a, o, &walk[..s], g, fresh[*o as usize]);
        }
        Ok(())
    });
    // the answers exist for every hue, in particular next to 360
    let step = cx.pick(4, 1) as i64;
    let m = 256 / step;
    cx.space("totality", "reds and pinks whose hue rounds to 0 or 360, and all greys: every query answers", (m * m) as u64 + 256, |i, t| {
        let a = if i < (m * m) as u64 {
            let (x, y) = (i as i64 % m * step, i as i64 / m * step);
            // solve for a colour with hue 359.7 at this chroma and tone
            r::solve(359.7, x as f64 / 2.2, y as f64 / 2.56)
        } else {
            let g = i as i64 - m * m;
            0xff000000 | g << 16 | g << 8 | g
        };
        if i < (m * m) as u64 && (r::hct(a).hue - 359.75).abs() > 1.0 {
            return t.vacuous();
        }
        let mut tc = TemperatureCache::new(Hct::from_int(a));
        let c = tc.get_complement();
        let an = tc.analogous(Some(3), Some(6));
        t.ops(2);
        let tm = m::Temp::new(r::hct(a));
        ensure!(t, an.len() == 3, "{} analogous colours", an.len());
        ensure!(t, tm.complement().iter().any(|q| q.argb == c.to_int()), "{:08x}: complement {:08x}", a, c.to_int());
        t.out(c.to_int() as u64);
        Ok(())
    });
}

// ------------------------------------------------------------------ C23
fn c23(cx: &mut Ctx) {
    cx.space("all-colours", "every opaque 24-bit colour: classification, and a fix that is liked, keeps the hue and leaves liked colours alone", 1 << 24, |i, t| {
        let a = opaque(i);
        let h = Hct::from_int(a);
        let d = DislikeAnalyzer::is_disliked(&h);
        let f = DislikeAnalyzer::fix_if_disliked(&h);
        t.ops(2);
        let q = r::hct(a);
        let want = r::disliked(&q);
        if d != want {
            // only where a coordinate sits on a rounding threshold
            let edge = |x: f64, at: &[f64]| at.iter().any(|p| (x - p).abs() < 1e-6);
            ensure!(t, edge(q.hue, &[89.5, 111.5]) || edge(q.chroma, &[16.5]) || edge(q.tone, &[64.5]), "{:08x} (H{} C{} T{}) disliked={}", a, q.hue, q.chroma, q.tone, d);
        }
        if !d {
            ensure!(t, f.to_int() == a, "{:08x} is liked but became {:08x}", a, f.to_int());
            return Ok(());
        }
        ensure!(t, !DislikeAnalyzer::is_disliked(&f), "{:08x} fixed to {:08x}, still disliked", a, f.to_int());
        ensure!(t, r::solve_matches(q.hue, q.chroma, 70.0, f.to_int()), "{:08x} fixed to {:08x}", a, f.to_int());
        let g = r::hct(f.to_int());
        ensure!(t, (g.tone - 70.0).abs() < 0.3, "{:08x} fixed to tone {}", a, g.tone);
        ensure!(t, r::hue_dist(g.hue, q.hue) < 2.5, "{:08x}: hue {} became {}", a, q.hue, g.hue);
        ensure!(t, DislikeAnalyzer::fix_if_disliked(&f).to_int() == f.to_int(), "{:08x}: fixing twice differs", a);
        t.out(f.to_int() as u64);
        t.note(|| format!("{:08x} -> {:08x}", a, f.to_int()));
        Ok(())
    });
}

// ------------------------------------------------------------------ C24
fn blend_ok(t: &mut T, a: i64, b: i64, w: f64) -> Result<(i64, i64), String> {
    let u = Blend::cam16_ucs(a, b, w);
    let h = Blend::hct_hue(a, b, w);
    t.ops(2);
    let (p, q) = (r::cam(a), r::cam(b));
    let mix = |x: f64, y: f64| x + (y - x) * w;
    let (j, c, hh) = r::jch_of_ucs(mix(p.jstar, q.jstar), mix(p.astar, q.astar), mix(p.bstar, q.bstar), r::vc0());
    let ch = r::chans_from_xyz(r::xyz_of_jch(j, c, hh, r::vc0()));
    ensure!(t, r::chans_ok(ch, u, 1e-5), "cam16_ucs({:08x},{:08x},{})={:08x}, expected {:?}", a, b, w, u, ch);
    if w == 0.0 {
        ensure!(t, u == a, "cam16_ucs({:08x},{:08x},0)={:08x}", a, b, u);
    }
    if w == 1.0 {
        ensure!(t, u == b, "cam16_ucs({:08x},{:08x},1)={:08x}", a, b, u);
    }
    let k = r::cam(u);
    ensure!(t, r::solve_matches(k.hue, p.chroma, r::tone(a), h), "hct_hue({:08x},{:08x},{})={:08x}", a, b, w, h);
    ensure!(t, (r::tone(h) - r::tone(a)).abs() < 0.3, "hct_hue({:08x},{:08x},{}) moved the tone", a, b, w);
    if w == 0.0 {
        ensure!(t, h == a, "hct_hue({:08x},{:08x},0)={:08x}", a, b, h);
    }
    Ok((u, h))
}
fn c24(cx: &mut Ctx) {
    let n = cx.pick(11, 17);
    let nn = n * n * n;
    cx.space("harmonize", "every ordered pair of a colour lattice: hue moves towards the source by half the distance, at most 15 degrees; chroma and tone are the design colour's", nn * nn, |i, t| {
        let (a, b) = (lattice(i / nn, n), lattice(i % nn, n));
        let x = Blend::harmonize(a, b);
        t.ops(1);
        let (p, q) = (r::hct(a), r::hct(b));
        let diff = r::wrap(q.hue - p.hue);
        let dist = diff.min(360.0 - diff);
        let rot = (dist * 0.5).min(15.0);
        let dir = if diff <= 180.0 { 1.0 } else { -1.0 };
        let ok = r::solve_matches(p.hue + dir * rot, p.chroma, p.tone, x) || ((diff - 180.0).abs() < 1e-6 && r::solve_matches(p.hue - dir * rot, p.chroma, p.tone, x));
        ensure!(t, ok, "harmonize({:08x},{:08x})={:08x}, expected {:08x}", a, b, x, r::solve(p.hue + dir * rot, p.chroma, p.tone));
        let g = r::hct(x);
        ensure!(t, (g.tone - p.tone).abs() < 0.3, "harmonize({:08x},{:08x}) moved tone {} to {}", a, b, p.tone, g.tone);
        if g.chroma > 20.0 && p.chroma > 20.0 {
            ensure!(t, r::hue_dist(g.hue, p.hue) < 15.0 + 4.0, "harmonize({:08x},{:08x}) moved the hue by {}", a, b, r::hue_dist(g.hue, p.hue));
        }
        t.out(x as u64);
        t.note(|| format!("harmonize({:08x},{:08x})={:08x}", a, b, x));
        Ok(())
    });
    let n = cx.pick(7, 11);
    let nn = n * n * n;
    let am: Vec<f64> = (0..=10).map(|k| k as f64 / 10.0).collect();
    let na = am.len() as u64;
    cx.space("blend", "every ordered pair of a colour lattice x blend amounts: CAM16-UCS interpolation, endpoints, hue blending keeps chroma and tone", nn * nn * na, |i, t| {
        let w = am[(i % na) as usize];
        let (a, b) = (lattice(i / na / nn, n), lattice(i / na % nn, n));
        let (u, h) = blend_ok(t, a, b, w)?;
        t.out(u as u64);
        t.note(|| format!("{:08x}->{:08x} @{}: {:08x} {:08x}", a, b, w, u, h));
        Ok(())
    });
    // fine steps of the amount, the ends included
    let (n, na) = (cx.pick(4, 6), cx.pick(401, 2001));
    let nn = n * n * n;
    cx.space("blend-fine", "every ordered pair of a coarse colour lattice x finely stepped blend amounts", nn * nn * na, |i, t| {
        let (a, b) = (lattice(i / na / nn, n), lattice(i / na % nn, n));
        blend_ok(t, a, b, (i % na) as f64 / (na - 1) as f64).map(|_| ())
    });
    let n = cx.pick(96, 256);
    cx.space("self", "blending or harmonising any colour with itself changes nothing", n * n * n, |i, t| {
        let a = lattice(i, n);
        let x = [Blend::harmonize(a, a), Blend::cam16_ucs(a, a, 0.5), Blend::hct_hue(a, a, 0.5)];
        t.ops(3);
        ensure!(t, x == [a; 3], "{:08x} with itself: {:08x?}", a, x);
        let h = Hct::from_int(a);
        hctc(t, &h, a, "from_int")
    });
}
