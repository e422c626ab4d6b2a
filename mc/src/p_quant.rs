//! Quantizers, scoring, equality/hash, and the whole image-to-theme pipeline.
use crate::p_color::lattice;
use crate::engine::*;
use crate::ensure;
use crate::p_dyn::{scheme, ROLE_FNS};
use crate::p_pal::hash_of;
use crate::refm as r;
use crate::rolem::V;
use material_color_utilities_rs::hct::hct::Hct;
use material_color_utilities_rs::palettes::core_palette::CorePalette;
use material_color_utilities_rs::palettes::tonal_palette::TonalPalette;
use material_color_utilities_rs::quantize::quantizer::{Quantizer, QuantizerResult};
use material_color_utilities_rs::quantize::quantizer_celebi::QuantizerCelebi;
use material_color_utilities_rs::quantize::quantizer_map::QuantizerMap;
use material_color_utilities_rs::quantize::quantizer_wsmeans::QuantizerWsmeans;
use material_color_utilities_rs::quantize::quantizer_wu::QuantizerWu;
use material_color_utilities_rs::quantize::src::point_provider::PointProvider;
use material_color_utilities_rs::quantize::src::point_provider_lab::PointProviderLab;
use material_color_utilities_rs::score::score::Score;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn run(id: &str, cx: &mut Ctx) -> bool {
    match id {
        "C25" => c25(cx),
        "C26" => c26(cx),
        "C27" => c27(cx),
        "C28" => c28(cx),
        "C29" => c29(cx),
        "C30" => c30(cx),
        _ => return false,
    }
    true
}

fn keys(q: &QuantizerResult) -> BTreeSet<i64> {
    q.color_to_count.keys().cloned().collect()
}
fn counts(q: &QuantizerResult) -> BTreeMap<i64, i64> {
    q.color_to_count.iter().map(|(a, b)| (*a, *b)).collect()
}
fn hist(px: &[i64]) -> BTreeMap<i64, i64> {
    let mut m = BTreeMap::new();
    for p in px {
        *m.entry(*p).or_insert(0) += 1;
    }
    m
}
fn cell(a: i64) -> [i64; 3] {
    r::rgb(a).map(|c| c >> 3)
}
/// Eight colours in distinct histogram cells, without symmetry.
const AL: [i64; 8] = [0xffe01020, 0xff20c040, 0xff3050f0, 0xfff0e010, 0xff101418, 0xfff8f4f0, 0xff808890, 0xff9030a0];
/// Colours that share cells, sit on cell edges, or nearly coincide.
const NEAR: [i64; 8] = [0xff000000, 0xff070707, 0xff080808, 0xff000807, 0xfffffff8, 0xffffffff, 0xfff7ffff, 0xff080700];

// ------------------------------------------------------------------ reference Wu
#[derive(Clone, Debug)]
struct Cell {
    at: [i64; 3],
    n: i128,
    s: [i128; 3],
    sq: i128,
}
type Bx = Vec<Cell>;
fn stats(b: &Bx) -> (i128, [i128; 3], i128) {
    let mut o = (0, [0; 3], 0);
    for c in b {
        o.0 += c.n;
        for k in 0..3 {
            o.1[k] += c.s[k];
        }
        o.2 += c.sq;
    }
    o
}
fn len2(s: [i128; 3]) -> f64 {
    (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]) as f64
}
fn cells(h: &BTreeMap<i64, i64>) -> Bx {
    let mut m: BTreeMap<[i64; 3], Cell> = BTreeMap::new();
    for (a, n) in h {
        let c = r::rgb(*a);
        let e = m.entry(cell(*a)).or_insert(Cell { at: cell(*a), n: 0, s: [0; 3], sq: 0 });
        e.n += *n as i128;
        for k in 0..3 {
            e.s[k] += (*n * c[k]) as i128;
            e.sq += (*n * c[k] * c[k]) as i128;
        }
    }
    m.into_values().collect()
}
/// All ways to cut a box that are best up to rounding.
fn cuts(b: &Bx) -> Vec<(Bx, Bx)> {
    let (n, s, _) = stats(b);
    let mut best = 0.0f64;
    let mut all: Vec<(f64, usize, i64)> = Vec::new();
    for k in 0..3 {
        let mut by: BTreeMap<i64, (i128, [i128; 3])> = BTreeMap::new();
        for c in b {
            let e = by.entry(c.at[k]).or_insert((0, [0; 3]));
            e.0 += c.n;
            for j in 0..3 {
                e.1[j] += c.s[j];
            }
        }
        let mut h = (0i128, [0i128; 3]);
        for (p, v) in by {
            h.0 += v.0;
            for j in 0..3 {
                h.1[j] += v.1[j];
            }
            if h.0 == n {
                break;
            }
            let o = [s[0] - h.1[0], s[1] - h.1[1], s[2] - h.1[2]];
            let v = len2(h.1) / h.0 as f64 + len2(o) / (n - h.0) as f64;
            best = best.max(v);
            all.push((v, k, p));
        }
    }
    let mut out: Vec<(Bx, Bx)> = Vec::new();
    let mut seen: BTreeSet<Vec<[i64; 3]>> = BTreeSet::new();
    for (v, k, p) in all {
        if v >= best * (1.0 - 1e-11) {
            let (lo, hi): (Bx, Bx) = b.iter().cloned().partition(|c| c.at[k] <= p);
            if seen.insert(lo.iter().map(|c| c.at).collect()) {
                out.push((lo, hi));
            }
        }
    }
    out
}
/// Does some run of the reference (ties resolved either way) end in these colours?
/// `budget` bounds the number of runs tried; None = budget exhausted without a match.
fn wu_explains(boxes: Vec<Bx>, k: usize, got: &BTreeSet<i64>, budget: &mut i64) -> Option<bool> {
    let var = |b: &Bx| {
        let (n, s, sq) = stats(b);
        (sq as f64 - len2(s) / n as f64, sq as f64)
    };
    if boxes.len() < k {
        let live: Vec<(usize, f64, f64)> = boxes.iter().enumerate().filter(|(_, b)| b.len() > 1).map(|(i, b)| { let v = var(b); (i, v.0, v.1) }).collect();
        if !live.is_empty() {
            let top = live.iter().fold(f64::MIN, |a, x| a.max(x.1));
            let mut unknown = false;
            for (i, v, sq) in &live {
                // the variance is a difference of large sums: allow for its cancellation error
                if *v < top - 1e-12 * sq.max(1.0) * 8.0 - 1e-12 * top {
                    continue;
                }
                for (a, b) in cuts(&boxes[*i]) {
                    let mut nb: Vec<Bx> = boxes.clone();
                    nb[*i] = a;
                    nb.push(b);
                    match wu_explains(nb, k, got, budget) {
                        Some(true) => return Some(true),
                        None => unknown = true,
                        Some(false) => {}
                    }
                    if *budget <= 0 {
                        return None;
                    }
                }
            }
            return if unknown { None } else { Some(false) };
        }
    }
    *budget -= 1;
    let mut used: BTreeSet<i64> = BTreeSet::new();
    for b in &boxes {
        let (n, s, _) = stats(b);
        if n == 0 {
            continue;
        }
        let hit: Vec<i64> = got.iter().cloned().filter(|g| {
            let c = r::rgb(*g);
            (*g >> 24) == 0xff && (0..3).all(|j| (2 * (c[j] as i128 * n - s[j])).abs() <= n)
        }).collect();
        if hit.is_empty() {
            return Some(false);
        }
        used.extend(hit);
    }
    Some(used.len() == got.len())
}

fn check_wu(t: &mut T, px: &Vec<i64>, k: i64) -> Res {
    let q = QuantizerWu::new().quantize(px, k, None);
    t.ops(1);
    let got = keys(&q);
    let opaque: Vec<i64> = px.iter().cloned().filter(|p| (p >> 24) & 255 == 255).collect();
    let h = hist(&opaque);
    let c = cells(&h);
    let what = || if px.len() <= 16 { format!("{:x?} max {}", px, k) } else { format!("{} pixels, {} colours, max {}", px.len(), h.len(), k) };
    ensure!(t, got.len() as i64 <= k, "{}: {} colours", what(), got.len());
    ensure!(t, got.is_empty() == opaque.is_empty(), "{}: {} colours from {} opaque pixels", what(), got.len(), opaque.len());
    for g in &got {
        ensure!(t, (g >> 24) == 0xff, "{}: {:x} is not opaque", what(), g);
        for j in 0..3 {
            let (lo, hi) = h.keys().fold((255, 0), |a, p| { let v = r::rgb(*p)[j]; (v.min(a.0), v.max(a.1)) });
            let v = r::rgb(*g)[j];
            ensure!(t, lo <= v && v <= hi, "{}: {:x} outside the range of the input colours", what(), g);
        }
    }
    if c.len() == h.len() && h.len() as i64 <= k {
        ensure!(t, got == h.keys().cloned().collect(), "{}: {:x?}, expected exactly the input colours", what(), got);
    }
    if !c.is_empty() {
        let mut budget = 400;
        let e = wu_explains(vec![c], k as usize, &got, &mut budget);
        ensure!(t, e != Some(false), "{}: {:x?} is not what variance-minimising cuts give", what(), got);
        if e.is_none() {
            t.vacuous = true;
        }
    }
    for g in &got {
        t.out(*g as u64);
    }
    t.note(|| format!("{} -> {:x?}", what(), got));
    Ok(())
}
/// A deterministic picture: `n` pixels walking through colour space with stride `s`.
fn picture(n: u64, s: u64) -> Vec<i64> {
    (0..n).map(|i| 0xff000000 | ((i * i * 40503 + i * s + (i >> 3) * 77777) % 0x1000000) as i64).collect()
}

fn c25(cx: &mut Ctx) {
    let syms: [i64; 5] = [0xff112233, 0xff112234, 0x00112233, 0x80112233, 0xfe112233];
    let d = cx.pick(8, 10) as u32;
    cx.space("map", "exact counting: every pixel sequence over opaque and (semi-)transparent pixels", seq_count(5, d), |i, t| {
        let px: Vec<i64> = seq_decode(i, 5, d).iter().map(|x| syms[*x as usize]).collect();
        let q = QuantizerMap {}.quantize(&px, 1 + (i % 3) as i64, if i % 2 == 0 { None } else { Some(true) });
        t.ops(1);
        let want = hist(&px.iter().cloned().filter(|p| p >> 24 == 255).collect::<Vec<_>>());
        ensure!(t, counts(&q) == want, "{:x?}: {:x?}, expected {:x?}", px, counts(&q), want);
        t.out(want.len() as u64);
        Ok(())
    });
    const KS: [i64; 7] = [1, 2, 3, 4, 5, 8, 16];
    cx.space("wu-subsets", "every subset of 8 colours in distinct cells x maximum number of colours", 256 * 7, |i, t| {
        let px: Vec<i64> = (0..8).filter(|b| (i / 7) >> b & 1 == 1).map(|b| AL[b as usize]).collect();
        check_wu(t, &px, KS[(i % 7) as usize])
    });
    let n = cx.pick(5, 6) as u32;
    let mult: [usize; 4] = [0, 1, 3, 20];
    cx.space("wu-weights", "every assignment of multiplicities 0,1,3,20 to the colours x maximum 2..4", 4u64.pow(n) * 3, |i, t| {
        let w = digits(i / 3, &vec![4; n as usize]);
        let px: Vec<i64> = w.iter().enumerate().flat_map(|(j, m)| vec![AL[(j + 2) % 8]; mult[*m as usize]]).collect();
        check_wu(t, &px, 2 + (i % 3) as i64)
    });
    let reps: Vec<usize> = if cx.quick() { vec![1, 2, 100, 256, 1000, 70000] } else { vec![1, 2, 10, 100, 128, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 70000] };
    let nm = reps.len() as u64;
    let trio: [[i64; 3]; 4] = [[0xff2040e0, 0xff2040c0, 0xffe0d010], [0xff101010, 0xfff0f0f0, 0xff808080], [0xffe01020, 0xffd01828, 0xff20c040], [0xffe1e1e1, 0xffe2e2e3, 0xffff00ff]];
    cx.space("multiplicities", "every assignment of multiplicities up to 70000 to two or three colours x maximum: exact counting, and the reduction follows the weights", 4 * nm * nm * (nm + 1) * 3, |i, t| {
        let d = digits(i, &[3, 4, nm, nm, nm + 1]);
        let c = trio[d[1] as usize];
        let mut px: Vec<i64> = Vec::new();
        for (j, x) in [d[2], d[3], d[4]].iter().enumerate() {
            px.extend(vec![c[j]; if *x == nm { 0 } else { reps[*x as usize] }]);
        }
        let q = QuantizerMap {}.quantize(&px, 1, None);
        t.ops(1);
        ensure!(t, counts(&q) == hist(&px), "counts {:x?} for {:x?} x {:?}", counts(&q), c, d);
        check_wu(t, &px, 1 + d[0] as i64)
    });
    cx.space("wu-near", "every subset of 8 colours sharing cells or on cell edges x maximum", 256 * 3, |i, t| {
        let px: Vec<i64> = (0..8).filter(|b| (i / 3) >> b & 1 == 1).map(|b| NEAR[b as usize]).collect();
        check_wu(t, &px, [2, 4, 8][(i % 3) as usize])
    });
    let lv: Vec<i64> = if cx.quick() { vec![0, 7, 8, 128, 255] } else { vec![0, 7, 8, 128, 247, 248, 255] };
    let nl = lv.len() as u64;
    let np = nl.pow(3);
    cx.space("wu-pairs", "every pair of colours with channels at cell edges, maximum 2: both come back exactly unless they share a cell", np * np, |i, t| {
        let (a, b) = (i % np, i / np);
        if a > b {
            return t.vacuous();
        }
        let col = |x: u64| { let d = digits(x, &[nl, nl, nl]); r::argb([lv[d[0] as usize], lv[d[1] as usize], lv[d[2] as usize]]) };
        check_wu(t, &vec![col(a), col(b), col(b)], 2)
    });
    cx.space("wu-transparent", "every subset of 4 opaque and 4 transparent pixels: transparent pixels never contribute", 256, |i, t| {
        let tr = [0x00ff0000, 0x7f00ff00, 0xfe0000ff, 0x01ffffff];
        let px: Vec<i64> = (0..8).filter(|b| i >> b & 1 == 1).map(|b| if b < 4 { AL[b as usize] } else { tr[b as usize - 4] }).collect();
        check_wu(t, &px, 8)
    });
    let sizes: Vec<u64> = if cx.quick() { vec![12, 60, 500, 3000] } else { vec![12, 25, 60, 120, 500, 3000, 20000] };
    let ks: Vec<i64> = if cx.quick() { vec![2, 3, 16, 128] } else { vec![2, 3, 5, 16, 40, 128, 256] };
    let ns = if cx.quick() { 6 } else { 12 };
    cx.space("wu-pictures", "pictures of many colours against the reference reduction", (sizes.len() * ks.len()) as u64 * ns, |i, t| {
        let d = digits(i, &[sizes.len() as u64, ks.len() as u64, ns]);
        let px = picture(sizes[d[0] as usize], 1 + d[2] * 104729);
        check_wu(t, &px, ks[d[1] as usize])
    });
    let (nw, ws) = if cx.quick() { (27, 19) } else { (512, 1) };
    cx.space("wu-many", "images of up to 512 colours (thorough: every number), each in a cell of its own, with room for all, for one more, for many more, and for one less: every colour comes back when there is room", nw * 4, |i, t| {
        let n = (512 - (i / 4) * ws) as i64;
        let px: Vec<i64> = (0..n).map(|k| {
            let c = (k * 73) % 512;
            0xff000000 | (16 + 32 * (c / 64)) << 16 | (16 + 32 * (c / 8 % 8)) << 8 | (16 + 32 * (c % 8))
        }).collect();
        let k = [n, n + 1, n + 300, n - 1][(i % 4) as usize];
        if k < 1 {
            return t.vacuous();
        }
        let got = keys(&QuantizerWu::new().quantize(&px, k, None));
        t.ops(1);
        if k >= n {
            ensure!(t, got == px.iter().cloned().collect(), "{} colours, {} requested: {} came back", n, k, got.len());
        } else {
            ensure!(t, got.len() as i64 <= k && got.len() as i64 >= k / 2, "{} colours, {} requested: {} came back", n, k, got.len());
        }
        t.out(got.len() as u64);
        Ok(())
    });
    cx.space("wu-megapixels", "images of 8 million bright pixels (large moments)", cx.pick(3, 6), |i, t| {
        let base: [i64; 2] = [[0xffffffff, 0xfffefdf0], [0xffff00ff, 0xfff0f0ff], [0xffffffff, 0xff000000], [0xfffffffe, 0xffffff00], [0xffc0ffee, 0xffffffff], [0xffffffff, 0xffffffff]][i as usize];
        let mut px = vec![base[0]; 8_000_000];
        for p in px.iter_mut().step_by([997, 3, 997, 2, 3, 1][i as usize]) {
            *p = base[1];
        }
        check_wu(t, &px, 4)
    });
    cx.assume("at least one colour is requested; channel sums are compared at exact .5 means with either rounding");
}

// ------------------------------------------------------------------ C26
fn d2(a: [f64; 3], b: [f64; 3]) -> f64 {
    (0..3).map(|k| (a[k] - b[k]).powi(2)).sum()
}
/// Invariants of a clustering result; returns its total distortion.
fn clustering(t: &mut T, px: &[i64], k: i64, q: &QuantizerResult, converged: bool, what: &dyn Fn() -> String) -> Result<f64, String> {
    let h = hist(px);
    let c = counts(q);
    ensure!(t, c.values().sum::<i64>() == px.len() as i64, "{}: populations {:x?} do not add up to {} pixels", what(), c, px.len());
    ensure!(t, c.values().all(|v| *v > 0), "{}: an unused colour is reported {:x?}", what(), c);
    ensure!(t, c.len() as i64 <= k, "{}: {} colours", what(), c.len());
    let map: BTreeMap<i64, i64> = q.input_pixel_to_cluster_pixel.iter().map(|(a, b)| (*a, *b)).collect();
    ensure!(t, map.keys().eq(h.keys()), "{}: the mapping covers {:x?}", what(), map.keys());
    let mut per: BTreeMap<i64, (i64, [f64; 3])> = BTreeMap::new();
    for (p, g) in &map {
        ensure!(t, c.contains_key(g), "{}: {:x} maps to {:x}, which is not a reported colour", what(), p, g);
        let e = per.entry(*g).or_insert((0, [0.0; 3]));
        e.0 += h[p];
        let l = r::lab(*p);
        for j in 0..3 {
            e.1[j] += l[j] * h[p] as f64;
        }
    }
    let mut means: BTreeMap<i64, [f64; 3]> = BTreeMap::new();
    for (g, (n, s)) in &per {
        ensure!(t, *n == c[g], "{}: {:x} has population {}, but {} pixels map to it", what(), g, c[g], n);
        let m = s.map(|x| x / *n as f64);
        let ch = r::chans_from_lab(m);
        // two clusters with the same rounded colour are reported as one: allow a hair beyond half a unit
        let ok = (0..3).all(|j| (ch[j].clamp(0.0, 255.0) - r::rgb(*g)[j] as f64).abs() <= 0.52) && g >> 24 == 0xff;
        ensure!(t, ok, "{}: {:x} is not the mean {:?} of its pixels", what(), g, ch);
        means.insert(*g, m);
    }
    let mut cost = 0.0;
    for (p, g) in &map {
        let l = r::lab(*p);
        let d = d2(l, means[g]);
        cost += d * h[p] as f64;
        if converged {
            for (o, m) in &means {
                ensure!(t, d <= d2(l, *m) + 1.0, "{}: {:x} is in the cluster of {:x}, but {:x} is nearer ({} vs {})", what(), p, g, o, d, d2(l, *m));
            }
        }
    }
    for (a, b) in &c {
        t.out((*a * 1000 + *b) as u64);
    }
    Ok(cost)
}
/// No pixel is further from the mean of its own cluster than from that of another.
fn settled(t: &mut T, px: &[i64], q: &QuantizerResult, what: &dyn Fn() -> String) -> Res {
    let h = hist(px);
    let mut per: BTreeMap<i64, (f64, [f64; 3])> = BTreeMap::new();
    for (p, g) in &q.input_pixel_to_cluster_pixel {
        let (l, n) = (r::lab(*p), h[p] as f64);
        let e = per.entry(*g).or_insert((0.0, [0.0; 3]));
        e.0 += n;
        for j in 0..3 {
            e.1[j] += l[j] * n;
        }
    }
    let means: Vec<(i64, [f64; 3])> = per.iter().map(|(g, (n, s))| (*g, s.map(|x| x / n))).collect();
    for (p, g) in &q.input_pixel_to_cluster_pixel {
        let l = r::lab(*p);
        let own = d2(l, means.iter().find(|m| m.0 == *g).unwrap().1).sqrt();
        let best = means.iter().map(|m| d2(l, m.1)).fold(f64::INFINITY, f64::min).sqrt();
        ensure!(t, own <= best + 0.5, "{}: not settled, {:x} is {} from its cluster {:x} and {} from another", what(), p, own, g, best);
    }
    Ok(())
}
/// Mixed alphabet for clustering: close pairs, far colours, greys.
const CL: [i64; 9] = [0xff3050f0, 0xfff0e010, 0xff3250ee, 0xff101418, 0xfff8f4f0, 0xff808890, 0xff20c040, 0xffe01020, 0xff9030a0];

fn c26(cx: &mut Ctx) {
    let d = cx.pick(6, 7) as u32;
    let na = cx.pick(7, 7);
    let pp = PointProviderLab::new();
    let pp = &pp;
    cx.space("kmeans", "every pixel sequence x every number of colours 1..4 x starting clusters none / a prefix of the alphabet / its reverse: populations, mapping, means, improvement with iterations", na.pow(d) * 12, |i, t| {
        let px: Vec<i64> = digits(i / 12, &vec![na; d as usize]).iter().map(|x| CL[*x as usize]).collect();
        let k = 1 + (i % 4) as i64;
        let start: Option<Vec<i64>> = match (i / 4) % 3 {
            0 => None,
            1 => Some(CL[..k as usize].to_vec()),
            _ => Some(CL.iter().rev().take(k as usize).cloned().collect()),
        };
        let mut last = f64::INFINITY;
        for it in [1, 2, 3, 60] {
            let q = QuantizerWsmeans::quantize(&px, k, start.as_ref(), Some(pp), Some(it), Some(true));
            t.ops(1);
            let what = || format!("{:x?} max {} start {:x?} iterations {}", px, k, start, it);
            let cost = clustering(t, &px, k, &q, it == 60, &what)?;
            ensure!(t, cost <= last * (1.0 + 1e-6) + 3.0, "{}: distortion rose from {} to {}", what(), last, cost);
            last = cost;
        }
        t.note(|| format!("{:x?} max {} start {:x?}: distortion {}", px, k, start, last));
        Ok(())
    });
    let nr = cx.pick(24, 96);
    cx.space("exact", "images with no more distinct colours than requested: every subset of 8 colours x pixel order x starting clusters, all colours come back with their exact counts", 256 * nr * 4, |i, t| {
        let d = digits(i, &[4, nr, 256]);
        let mut set: Vec<i64> = (0..8).filter(|b| d[2] >> b & 1 == 1).map(|b| AL[b as usize]).collect();
        let n = set.len();
        if n > 1 {
            set.rotate_left(d[1] as usize % n);
            if (d[1] as usize / n) % 2 == 1 {
                set.swap(0, n / 2);
            }
        }
        let px: Vec<i64> = set.iter().enumerate().flat_map(|(j, c)| vec![*c; 1 + j % 3]).collect();
        let start: Option<Vec<i64>> = match d[0] {
            0 => None,
            1 => { let mut v = set.clone(); v.sort(); Some(v) }
            2 => { let mut v = set.clone(); v.sort(); v.reverse(); Some(v) }
            _ => { let mut v = set.clone(); v.sort_by_key(|c| (c * 31) % 127); Some(v) }
        };
        for it in [None, Some(1), Some(5)] {
            let q = QuantizerWsmeans::quantize(&px, 16, start.as_ref(), None, it, Some(true));
            t.ops(1);
            ensure!(t, counts(&q) == hist(&px), "{:x?} start {:x?} iterations {:?}: {:x?}", px, start, it, counts(&q));
            ensure!(t, q.input_pixel_to_cluster_pixel.iter().all(|(a, b)| a == b), "{:x?} start {:x?}: mapping {:x?}", px, start, q.input_pixel_to_cluster_pixel);
            let q2 = QuantizerWsmeans::quantize(&px, 16, start.as_ref(), None, it, None);
            ensure!(t, counts(&q2) == counts(&q) && q2.input_pixel_to_cluster_pixel.is_empty(), "{:x?}: result depends on whether the mapping is asked for", px);
        }
        t.out(d[2]);
        Ok(())
    });
    let n = cx.pick(64, 256);
    cx.space("points", "the clustering space of every colour of the grid: CIE L*a*b* coordinates, back to the same colour, squared distance to three other colours", n * n * n, |i, t| {
        let a = crate::p_color::lattice(i, n);
        let p = pp.from_int(a);
        t.ops(2);
        let w = r::lab(a);
        ensure!(t, p.len() == 3 && (0..3).all(|k| r::close(p[k], w[k], 1e-7)), "{:08x}: point {:?}, expected {:?}", a, p, w);
        ensure!(t, pp.to_int(&p) == a, "{:08x} comes back as {:08x}", a, pp.to_int(&p));
        for b in [0xff000000i64, 0xff00ff80, 0xffe04060] {
            let q = r::lab(b);
            let d: f64 = (0..3).map(|k| (w[k] - q[k]) * (w[k] - q[k])).sum();
            let g = pp.distance(&p, &pp.from_int(b));
            ensure!(t, r::close(g, d, 1e-6 + 1e-9 * d), "distance {:08x} {:08x} = {}, expected {}", a, b, g, d);
        }
        t.out_f(p[0]);
        Ok(())
    });
    let (nmax, nst) = if cx.quick() { (47, 11) } else { (512, 1) };
    cx.space("many-exact", "images of up to 512 colours (thorough: every number), all distinguishable, with room for all of them: clustering from those colours and the combined quantizer return every colour with its exact count", nmax * 3, |i, t| {
        let n = 512 - ((i / 3) * nst) as i64;
        // one colour per cell of an 8x8x8 grid
        let px: Vec<i64> = (0..n).flat_map(|k| {
            let c = (k * [1, 73, 211][(i % 3) as usize]) % 512;
            vec![0xff000000 | (16 + 32 * (c / 64)) << 16 | (16 + 32 * (c / 8 % 8)) << 8 | (16 + 32 * (c % 8)); 1 + (k % 3) as usize]
        }).collect();
        let h = hist(&px);
        let start: Vec<i64> = h.keys().cloned().collect();
        for room in [0, 1, 40] {
            let q = QuantizerWsmeans::quantize(&px, n + room, Some(&start), Some(pp), None, Some(true));
            t.ops(1);
            ensure!(t, counts(&q) == h, "{} colours, {} requested, clustering from them: {} came back", n, n + room, q.color_to_count.len());
        }
        if n % 4 == 0 {
            let q = QuantizerCelebi {}.quantize(&px, n + 3, Some(true));
            t.ops(1);
            ensure!(t, counts(&q) == h, "{} colours, {} requested, combined: {} came back", n, n + 3, q.color_to_count.len());
        }
        t.out(n as u64);
        Ok(())
    });
    const KS: [i64; 6] = [1, 2, 3, 5, 8, 128];
    cx.space("celebi", "combined quantizer: every subset of 8 colours (with multiplicities) x maximum: populations, mapping, means; exact when the maximum allows", 256 * 6, |i, t| {
        let k = KS[(i % 6) as usize];
        let px: Vec<i64> = (0..8usize).filter(|b| (i / 6) >> b & 1 == 1).flat_map(|b| vec![AL[b]; 1 + (b * 5) % 4]).collect();
        let q = QuantizerCelebi {}.quantize(&px, k, Some(true));
        t.ops(1);
        let what = || format!("{:x?} max {}", px, k);
        clustering(t, &px, k, &q, false, &what)?;
        let h = hist(&px);
        if h.len() as i64 <= k {
            ensure!(t, counts(&q) == h, "{}: {:x?}", what(), counts(&q));
        }
        ensure!(t, q.color_to_count.is_empty() == px.is_empty(), "{}: {} colours", what(), q.color_to_count.len());
        t.note(|| format!("{} -> {:x?}", what(), counts(&q)));
        Ok(())
    });
    cx.space("near", "close colours: clusters may round to the same colour, no pixel is lost", 256 * 8, |i, t| {
        let near: [i64; 8] = [0xff808080, 0xff808081, 0xff808180, 0xff818080, 0xff7f8080, 0xff000001, 0xff000000, 0xff010000];
        let k = 1 + (i % 8) as i64;
        let px: Vec<i64> = (0..8usize).filter(|b| (i / 8) >> b & 1 == 1).flat_map(|b| vec![near[b]; 1 + (b * 3) % 5]).collect();
        for start in [None, Some(vec![0xff808080, 0xff808080, 0xff808080]), Some(near[..k as usize].to_vec())] {
            for it in [1, 2, 5] {
                let q = QuantizerWsmeans::quantize(&px, k, start.as_ref(), None, Some(it), Some(true));
                t.ops(1);
                clustering(t, &px, k, &q, false, &|| format!("{:x?} max {} start {:x?} iterations {}", px, k, start, it))?;
            }
        }
        Ok(())
    });
    let reps: Vec<usize> = if cx.quick() { vec![1, 2, 100, 256, 257, 1000, 70000] } else { vec![1, 2, 10, 100, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 70000] };
    let nm = reps.len() as u64;
    let trio: [[i64; 3]; 4] = [[0xff2040e0, 0xff2040c0, 0xffe0d010], [0xff101010, 0xfff0f0f0, 0xff808080], [0xffe01020, 0xffd01828, 0xff20c040], [0xff00ffff, 0xffff00ff, 0xffffff00]];
    cx.space("multiplicities", "every assignment of multiplicities up to 70000 to two or three colours x number of colours x starting clusters, clustering alone and combined: populations, mapping, means", 4 * nm * nm * (nm + 1) * 3, |i, t| {
        let d = digits(i, &[3, 4, nm, nm, nm + 1]);
        let c = trio[d[1] as usize];
        let mut px: Vec<i64> = Vec::new();
        for (j, x) in [d[2], d[3], d[4]].iter().enumerate() {
            px.extend(vec![c[j]; if *x == nm { 0 } else { reps[*x as usize] }]);
        }
        let k = 1 + d[0] as i64;
        let what = |w: &str| format!("{} of {:x?} x {:?}, max {}", w, c, [d[2], d[3], d[4]].map(|x| reps.get(x as usize)), k);
        for start in [None, Some(c[..k as usize].to_vec())] {
            for it in [1, 5] {
                let q = QuantizerWsmeans::quantize(&px, k, start.as_ref(), Some(pp), Some(it), Some(true));
                t.ops(1);
                clustering(t, &px, k, &q, it == 5, &|| what("clustering"))?;
            }
        }
        let q = QuantizerCelebi {}.quantize(&px, k, Some(true));
        t.ops(1);
        clustering(t, &px, k, &q, false, &|| what("combined"))?;
        t.note(|| what(&format!("{:x?}", counts(&q))));
        Ok(())
    });
    const HUGE: [usize; 5] = [1, 70_000, 140_000, 600_000, 3_000_000];
    cx.space("huge-counts", "two colours with every pair of populations up to three million: exact when there is room, the weighted mean when there is not", 25 * 2 * 2, |i, t| {
        let d = digits(i, &[2, 2, 5, 5]);
        let c = trio[d[1] as usize * 3];
        let mut px = vec![c[0]; HUGE[d[2] as usize]];
        px.extend(vec![c[1]; HUGE[d[3] as usize]]);
        let k = 1 + d[0] as i64;
        let what = || format!("{:x?} x {:?}, max {}", c, [d[2], d[3]].map(|x| HUGE[x as usize]), k);
        let q = QuantizerWsmeans::quantize(&px, k, Some(&c[..k as usize].to_vec()), Some(pp), Some(5), Some(true));
        let e = QuantizerCelebi {}.quantize(&px, k, Some(true));
        t.ops(2);
        clustering(t, &px, k, &q, true, &what)?;
        clustering(t, &px, k, &e, true, &what)?;
        ensure!(t, k == 1 || counts(&q) == hist(&px) && counts(&e) == hist(&px), "{}: {:x?}", what(), counts(&q));
        Ok(())
    });
    let sizes: Vec<u64> = if cx.quick() { vec![40, 150, 400, 2000] } else { vec![40, 150, 400, 2000, 10000] };
    let ks: Vec<i64> = if cx.quick() { vec![2, 4, 8, 24, 64] } else { vec![2, 4, 8, 24, 64, 128] };
    let ns = if cx.quick() { 16 } else { 64 };
    cx.space("pictures", "pictures of many colours through the combined quantizer and through clustering alone", (sizes.len() * ks.len()) as u64 * ns, |i, t| {
        let d = digits(i, &[sizes.len() as u64, ks.len() as u64, ns]);
        let px = picture(sizes[d[0] as usize], 3 + d[2] * 7919);
        let k = ks[d[1] as usize];
        let q = QuantizerCelebi {}.quantize(&px, k, Some(true));
        t.ops(1);
        let what = || format!("picture {:?}", d);
        let c1 = clustering(t, &px, k, &q, false, &what)?;
        let mut last = f64::INFINITY;
        for it in [1, 2, 5, 15] {
            let q = QuantizerWsmeans::quantize(&px, k, None, None, Some(it), Some(true));
            t.ops(1);
            let c = clustering(t, &px, k, &q, false, &what)?;
            ensure!(t, c <= last * (1.0 + 1e-3), "{}: distortion rose from {} to {}", what(), last, c);
            last = c;
        }
        // run to the end: no pixel would move any more (up to the rounding that may merge two clusters)
        for start in [None, Some(px.iter().step_by(1 + px.len() / k as usize).cloned().collect::<Vec<_>>())] {
            let q = QuantizerWsmeans::quantize(&px, k, start.as_ref(), None, Some(1000), Some(true));
            t.ops(1);
            clustering(t, &px, k, &q, false, &what)?;
            settled(t, &px, &q, &what)?;
        }
        t.note(|| format!("{:?}: distortion {:.0} vs {:.0}", d, c1, last));
        Ok(())
    });
    cx.assume("opaque pixels, at least one colour requested, at least one iteration");
}

// ------------------------------------------------------------------ C27
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = Vec::new();
    for p in permutations(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            o.push(q);
        }
    }
    o
}
fn images() -> Vec<Vec<i64>> {
    vec![
        vec![],
        vec![AL[0]],
        vec![AL[1], AL[2], AL[2]],
        AL.to_vec(),
        vec![0x00ff0000, 0x10203040],
        picture(30, 12345),
        vec![0xff808080, 0xff818181, 0xff000000],
    ]
}
fn c27(cx: &mut Ctx) {
    // every iteration order of the caller's map
    let groups: Vec<Vec<(i64, i64)>> = vec![
        vec![(0xffff0000, 5), (0xff00ff00, 5), (0xff0000ff, 5)],
        vec![(0xff804040, 0), (0xff408040, 0), (0xff404080, 0)],
        vec![(0xff804040, 0), (0xff408040, 0), (0xff404080, 0), (0xff806040, 0)],
        vec![(0xff808080, 1), (0xff818181, 1), (0xff7f7f7f, 1), (0xff828282, 1)],
        vec![(0xffb33b15, 10), (0xffb33b16, 10), (0xffb33c15, 10), (0xffb43b15, 10)],
        vec![(0xff000000, 1), (0xffffffff, 1), (0xff0000ff, 1), (0xff00ffff, 1)],
        vec![(0xff7ea16d, 67), (0xffd8ccae, 67), (0xff835c0d, 49), (0xff4285f4, 49)],
    ];
    let gr = &groups;
    let pn = permutations(5).len() as u64;
    cx.space("score-order", "ranking of 3-4 colours (ties, zero populations) under EVERY iteration order of the population map, filtered or not, 1-4 requested", groups.len() as u64 * 8, |i, t| {
        let g = &gr[(i / 8) as usize];
        let (filter, desired) = (i % 2 == 0, 1 + ((i / 2) % 4) as i64);
        let need: usize = (1..=g.len()).product();
        let mut seen: BTreeSet<Vec<i64>> = BTreeSet::new();
        let mut first: Option<Vec<i64>> = None;
        let mut tries = 0;
        while seen.len() < need && tries < 60_000 {
            tries += 1;
            let m: HashMap<i64, i64> = g.iter().cloned().collect();
            let order: Vec<i64> = m.keys().cloned().collect();
            if !seen.insert(order.clone()) {
                continue;
            }
            let got = Score::score(&m, Some(desired), None, Some(filter));
            t.ops(1);
            let f = first.get_or_insert(got.clone());
            ensure!(t, *f == got, "{:x?} desired {} filter {}: {:x?} in one iteration order, {:x?} in another ({:x?})", g, desired, filter, f, got, order);
        }
        t.out(seen.len() as u64);
        t.note(|| format!("{:x?}: {} of {} iteration orders realised", g, seen.len(), need));
        if seen.len() < need {
            t.vacuous = true;
        }
        Ok(())
    });
    let nsz = cx.pick(40, 120);
    let again = cx.pick(24, 100);
    cx.space("score-large", "ranking 2..n colours with groups of exactly equal scores (colours differing only in alpha), fresh hash seeds and insertion orders each time: identical rankings", nsz * 12, |i, t| {
        let d = digits(i, &[nsz, 3, 4]);
        let n = 2 + d[0] as i64;
        let g: Vec<(i64, i64)> = (0..n).map(|k| {
            let rgb = [0x4040a0, 0xc03020, 0x20a040, 0xb0a010, 0x9030a0][(k / 3 % [1, 2, 5][d[1] as usize]) as usize];
            (rgb | ((255 - 2 * k) & 255) << 24, [1, 7][(d[2] & 1) as usize] * (1 + (k / 3) * (d[2] as i64 / 2)))
        }).collect();
        let mut first: Option<Vec<i64>> = None;
        for r in 0..again as usize {
            let mut m: HashMap<i64, i64> = HashMap::new();
            for j in 0..g.len() {
                let (k, v) = g[(j * (2 * r + 1) + r) % g.len()];
                m.insert(k, v);
            }
            for (k, v) in &g {
                m.insert(*k, *v);
            }
            let got: Vec<i64> = Score::score(&m, Some(1 + (d[2] as i64) * 2), None, Some(d[2] % 2 == 0));
            t.ops(1);
            let f = first.get_or_insert(got.clone());
            ensure!(t, *f == got, "{} colours {:x?}: {:x?}, then {:x?}", n, &g[..g.len().min(6)], f, got);
        }
        t.out(first.unwrap()[0] as u64);
        Ok(())
    });
    let reps = cx.pick(12, 60);
    let imgs = images();
    let ir = &imgs;
    let ni = imgs.len() as u64;
    cx.space("repeat", "quantizing the same image again and again (fresh hash seeds each time): identical answers", ni * 3, |i, t| {
        let px = &ir[(i % ni) as usize];
        let k = [2, 5, 16][(i / ni) as usize];
        let mut first = None;
        for n in 0..reps {
            let w = keys(&QuantizerWu::new().quantize(px, k, None));
            let c = QuantizerCelebi {}.quantize(px, k, Some(true));
            let cm: BTreeMap<i64, i64> = c.input_pixel_to_cluster_pixel.iter().map(|(a, b)| (*a, *b)).collect();
            let s = QuantizerWsmeans::quantize(px, k, None, None, None, None);
            let sc = Score::score(&c.color_to_count, None, None, None);
            t.ops(4);
            let all = (w, counts(&c), cm, counts(&s), sc);
            let f = first.get_or_insert(all.clone());
            ensure!(t, *f == all, "image {:x?} max {}: run {} gave {:x?}, the first gave {:x?}", &px[..px.len().min(9)], k, n, all, f);
        }
        t.out(i);
        Ok(())
    });
    // histogram quantizers see a multiset of pixels
    let base: Vec<Vec<i64>> = vec![
        vec![AL[0], AL[1], AL[2], AL[3], AL[4]],
        vec![0xff101010, 0xff111010, 0xff181010, 0xffff1010, 0xff101010],
        vec![AL[5], AL[5], AL[6], AL[7], 0x00ffffff],
    ];
    let br = &base;
    cx.space("pixel-order", "every permutation of 5 pixels x maximum 2,3,5: the histogram quantizers give the same colours", 3 * pn * 3, |i, t| {
        let d = digits(i, &[3, 3, pn]);
        let p = &permutations(5)[d[2] as usize];
        let b = &br[d[0] as usize];
        let k = [2, 3, 5][d[1] as usize];
        let px: Vec<i64> = p.iter().map(|j| b[*j]).collect();
        let (a, c) = (keys(&QuantizerWu::new().quantize(&px, k, None)), keys(&QuantizerWu::new().quantize(b, k, None)));
        let (x, y) = (counts(&QuantizerMap {}.quantize(&px, k, None)), counts(&QuantizerMap {}.quantize(b, k, None)));
        t.ops(4);
        ensure!(t, a == c, "{:x?} max {}: {:x?}, in original order {:x?}", px, k, a, c);
        ensure!(t, x == y, "{:x?}: counts {:x?}, in original order {:x?}", px, x, y);
        t.out(d[2]);
        Ok(())
    });
    // a quantizer object that has been used before
    let kk = [1i64, 3, 8];
    let no = ni * 3;
    let depth = cx.pick(2, 3) as u32;
    let fresh: Vec<(BTreeSet<i64>, BTreeMap<i64, i64>)> = (0..no).map(|o| {
        let (px, k) = (&imgs[(o % ni) as usize], kk[(o / ni) as usize]);
        (keys(&QuantizerWu::new().quantize(px, k, None)), counts(&QuantizerCelebi {}.quantize(px, k, None)))
    }).collect();
    let fr = &fresh;
    cx.space("reuse", "every sequence of images x maxima through ONE quantizer object: each answer is a fresh object's", no.pow(depth), |i, t| {
        let seq = digits(i, &vec![no; depth as usize]);
        let mut wu = QuantizerWu::new();
        let mut ce = QuantizerCelebi {};
        for (s, o) in seq.iter().enumerate() {
            let (px, k) = (&ir[(o % ni) as usize], kk[(o / ni) as usize]);
            let g = keys(&wu.quantize(px, k, None));
            t.ops(1);
            ensure!(t, g == fr[*o as usize].0, "after {:?}, image {} max {}: {:x?}, a fresh object gives {:x?}", &seq[..s], o % ni, k, g, fr[*o as usize].0);
            if s == 1 && i % 7 == 0 {
                let g = counts(&ce.quantize(px, k, None));
                t.ops(1);
                ensure!(t, g == fr[*o as usize].1, "combined quantizer, image {} max {}: {:x?}, fresh {:x?}", o % ni, k, g, fr[*o as usize].1);
            }
        }
        t.out(seq[depth as usize - 1]);
        Ok(())
    });
    let wk = crate::p_pal::pair_walk(no);
    let wkr = &wk;
    cx.space("long-reuse", "one quantizer object taken through a walk over all ordered pairs of image x maximum (hundreds of images): each answer is a fresh object's", 4, |i, t| {
        let mut wu = QuantizerWu::new();
        for (s, o) in wkr.iter().enumerate().skip(wkr.len() / 4 * i as usize).take(wkr.len() / 4 + 40) {
            let g = keys(&wu.quantize(&ir[(o % ni) as usize], kk[(o / ni) as usize], None));
            t.ops(1);
            ensure!(t, g == fr[*o as usize].0, "after {} images, image {} max {}: {:x?}, a fresh object gives {:x?}", s, o % ni, kk[(o / ni) as usize], g, fr[*o as usize].0);
        }
        Ok(())
    });
    let deep = cx.pick(2, 3) as usize;
    let sz = [3u64, 20, 63, 65, 130, 300, 1000, 4000];
    cx.space("reuse-large", "one quantizer object given every ordered pair (thorough: triple) of pictures from 3 to 4000 colours x maximum: each answer is a fresh object's", 8u64.pow(deep as u32) * 3, |i, t| {
        let d = digits(i, &[&[3], &vec![8; deep][..]].concat());
        let k = [2i64, 16, 200][d[0] as usize];
        let mut wu = QuantizerWu::new();
        for s in 1..=deep {
            let px = picture(sz[d[s] as usize], 5 + 31 * s as u64);
            let (g, w) = (keys(&wu.quantize(&px, k, None)), keys(&QuantizerWu::new().quantize(&px, k, None)));
            t.ops(2);
            ensure!(t, g == w, "max {}: picture {} of {} colours after others: {:x?}, a fresh object gives {:x?}", k, s, px.len(), g, w);
        }
        t.out(i);
        Ok(())
    });
    cx.space("repeat-large", "pictures of hundreds or thousands of colours, quantized again (fresh hash seeds, starting clusters given or not): identical answers", 4 * 4 * 2, |i, t| {
        let d = digits(i, &[2, 4, 4]);
        let px = picture([300, 800, 2500, 6000][d[1] as usize], 17 + 977 * d[0]);
        let k = [3, 16, 128, 300][d[2] as usize];
        let mut first = None;
        for n in 0..3 {
            let w = keys(&QuantizerWu::new().quantize(&px, k, None));
            let c = QuantizerCelebi {}.quantize(&px, k, Some(true));
            let s = QuantizerWsmeans::quantize(&px, k, None, None, Some(2), None);
            let p = QuantizerWsmeans::quantize(&px, k, Some(&px[..2].to_vec()), None, Some(2), None);
            let sc = Score::score(&c.color_to_count, Some(8), None, Some(false));
            t.ops(5);
            let all = (w, counts(&c), counts(&s), counts(&p), sc);
            let f = first.get_or_insert(all.clone());
            ensure!(t, *f == all, "picture of {} colours, max {}: run {} differs from the first", px.len(), k, n);
        }
        Ok(())
    });
    cx.assume("iteration orders of std HashMap are realised by rebuilding the map until every order has been seen");
}

// ------------------------------------------------------------------ C28
struct Sc {
    argb: i64,
    hue: f64,
    score: f64,
}
/// Reference ranking.  Err(()) = the case sits on a floating-point knife edge.
fn rank(pop: &[(i64, i64)], desired: i64, fallback: i64, filter: bool, got: &[i64]) -> Result<bool, ()> {
    let total: i64 = pop.iter().map(|p| p.1).sum();
    let h: Vec<(i64, f64, f64, i64)> = pop.iter().map(|(a, n)| { let x = Hct::from_int(*a); (*a, x.get_hue(), x.get_chroma(), *n) }).collect();
    let mut by = [0i64; 360];
    for x in &h {
        by[x.1.floor() as usize % 360] += x.3;
    }
    let mut sc: Vec<Sc> = Vec::new();
    for x in &h {
        let c = (x.1.round() as i64).rem_euclid(360);
        // a bucket p excites the hues p-14 ..= p+15
        let bs: Vec<i64> = (0..360).filter(|p| (c - p + 14).rem_euclid(360) < 30).map(|p| by[p as usize]).collect();
        let ex: i64 = bs.iter().sum();
        if filter {
            if x.2 < 5.0 {
                continue;
            }
            if total > 0 && ex as i128 * 100 == total as i128 && bs.iter().filter(|b| **b > 0).count() > 1 {
                return Err(());
            }
            if total == 0 || ex as i128 * 100 <= total as i128 {
                continue;
            }
        }
        let prop = if total == 0 { 0.0 } else { ex as f64 / total as f64 };
        let w = if x.2 < 48.0 { 0.1 } else { 0.3 };
        sc.push(Sc { argb: x.0, hue: x.1, score: prop * 100.0 * 0.7 + (x.2 - 48.0) * w });
    }
    if sc.is_empty() {
        return Ok(got == [fallback]);
    }
    sc.sort_by(|a, b| b.score.partial_cmp(&a.score).unwrap());
    // groups of equal score may come in any order
    let mut groups: Vec<Vec<usize>> = Vec::new();
    for i in 0..sc.len() {
        if i > 0 && (sc[i - 1].score - sc[i].score).abs() < 1e-9 {
            groups.last_mut().unwrap().push(i);
        } else {
            groups.push(vec![i]);
        }
    }
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for g in groups {
        if g.len() > 4 || orders.len() > 600 {
            return Err(());
        }
        let mut n = Vec::new();
        for o in &orders {
            for p in permutations(g.len()) {
                let mut q = o.clone();
                q.extend(p.iter().map(|j| g[*j]));
                n.push(q);
            }
        }
        orders = n;
    }
    Ok(orders.iter().any(|o| {
        let mut pick: Vec<usize> = Vec::new();
        for d in (15..=90).rev() {
            pick.clear();
            for i in o {
                if pick.iter().all(|p| r::hue_dist(sc[*p].hue, sc[*i].hue) >= d as f64) {
                    pick.push(*i);
                }
                if pick.len() as i64 >= desired {
                    break;
                }
            }
            if pick.len() as i64 >= desired {
                break;
            }
        }
        pick.iter().map(|p| sc[*p].argb).eq(got.iter().cloned())
    }))
}
fn check_score(t: &mut T, pop: &[(i64, i64)], desired: Option<i64>, fallback: Option<i64>, filter: Option<bool>) -> Res {
    let m: HashMap<i64, i64> = pop.iter().cloned().collect();
    let got = Score::score(&m, desired, fallback, filter);
    t.ops(1);
    let (d, fb, fl) = (desired.unwrap_or(4), fallback.unwrap_or(0xff4285f4), filter.unwrap_or(true));
    let what = || format!("{:x?} desired {:?} fallback {:x?} filter {:?}", pop, desired, fallback, filter);
    ensure!(t, !got.is_empty() && got.len() as i64 <= d, "{}: {} colours", what(), got.len());
    let fell = got == [fb] && !m.contains_key(&fb);
    if !fell {
        for (i, g) in got.iter().enumerate() {
            let x = Hct::from_int(*g);
            ensure!(t, m.contains_key(g) || (got.len() == 1 && *g == fb), "{}: {:x} is not an input colour", what(), g);
            ensure!(t, !fl || x.get_chroma() >= 5.0 || *g == fb, "{}: {:x} is too grey for a theme", what(), g);
            for o in &got[..i] {
                let dd = r::hue_dist(x.get_hue(), Hct::from_int(*o).get_hue());
                ensure!(t, dd >= 15.0 - 1e-9, "{}: {:x} and {:x} are only {} degrees apart", what(), o, g, dd);
            }
        }
    }
    match rank(pop, d, fb, fl, &got) {
        Ok(ok) => ensure!(t, ok, "{}: {:x?} is not the documented ranking", what(), got),
        Err(()) => t.vacuous = true,
    }
    for g in &got {
        t.out(*g as u64);
    }
    t.note(|| format!("{} -> {:x?}", what(), got));
    Ok(())
}
fn c28(cx: &mut Ctx) {
    // hues close together, on both sides of 0 degrees, greys, dull and vivid colours
    let al: [i64; 9] = [0xffb33b15, 0xffff0000, 0xffc00050, 0xff3850a0, 0xff4285f4, 0xff00a040, 0xff808080, 0xff8a8580, 0xffe0d000];
    let n = cx.pick(7, 8) as u32;
    let pops: [i64; 4] = [-1, 1, 12, 300];
    let off = if cx.quick() { vec![0usize, 3, 6] } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8] };
    let no = off.len() as u64;
    let offr = &off;
    cx.space("populations", "every assignment of absent/1/12/300 to a set of colours x filter x 1..4 requested: the documented ranking, with ties in any order", no * 4u64.pow(n) * 8, |i, t| {
        let d = digits(i, &[8, no, 4u64.pow(n)]);
        let w = digits(d[2], &vec![4; n as usize]);
        let o = offr[d[1] as usize];
        let pop: Vec<(i64, i64)> = w.iter().enumerate().filter(|(_, p)| **p > 0).map(|(j, p)| (al[(j + o) % 9], pops[*p as usize])).collect();
        check_score(t, &pop, Some(1 + (d[0] / 2) as i64), None, Some(d[0] % 2 == 0))
    });
    const SCALE: [i64; 9] = [1000, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 10_000_000_000, 1 << 40, 1 << 50];
    cx.space("scaled", "every assignment of absent/1/12/300 to five colours x a common factor up to 2^50 x filter: the documented ranking", no * 1024 * 9 * 2, |i, t| {
        let d = digits(i, &[2, 9, no, 1024]);
        let w = digits(d[3], &[4; 5]);
        let o = offr[d[2] as usize];
        let pop: Vec<(i64, i64)> = w.iter().enumerate().filter(|(_, p)| **p > 0).map(|(j, p)| (al[(j + o) % 9], pops[*p as usize] * SCALE[d[1] as usize])).collect();
        check_score(t, &pop, None, None, Some(d[0] == 0))
    });
    let nh = cx.pick(720, 3600);
    let wt: [(i64, i64); 4] = [(1, 1), (1, 99), (1, 120), (50, 3000)];
    cx.space("neighbours", "a minority colour at every hue, a majority colour -50..50 degrees away: the 30-degree neighbourhood and the 1% cut", nh * 101 * 4, |i, t| {
        let d = digits(i, &[4, 101, nh]);
        let h = 360.0 * d[2] as f64 / nh as f64 + 0.37;
        let a = Hct::from(h, 40.0, 50.0).to_int();
        let b = Hct::from((h + d[1] as f64 - 50.0).rem_euclid(360.0), 56.0, 60.0).to_int();
        let (x, y) = wt[d[0] as usize];
        check_score(t, &[(a, x), (b, y)], None, None, Some(i % 3 != 0))
    });
    let np = cx.pick(64, 512);
    cx.space("wheels", "colour wheels of 4..40 hues (many candidates): spacing, ranking, count", np * 37 * 4, |i, t| {
        let d = digits(i, &[4, 37, np]);
        let k = 4 + d[1];
        let pop: Vec<(i64, i64)> = (0..k).map(|j| {
            let h = (j as f64 * 360.0 / k as f64 + d[2] as f64 * 0.77 + (j * j) as f64 * 0.013).rem_euclid(360.0);
            (Hct::from(h, 30.0 + ((j * 7 + d[2]) % 11) as f64 * 2.3, 45.0 + (j % 5) as f64 * 6.0).to_int(), 1 + ((j * 13 + d[2] * 5) % 17) as i64)
        }).collect::<BTreeMap<_, _>>().into_iter().collect();
        check_score(t, &pop, [None, Some(1), Some(7), Some(24)][d[0] as usize], None, Some(d[2] % 2 == 0))
    });
    // where a colour stops being suitable, and what decides between two
    let q = cx.pick(32, 128);
    cx.space("single", "every colour of a lattice alone, filtered or not: itself, or the fallback if it has too little chroma", q * q * q * 2, |i, t| {
        check_score(t, &[(lattice(i / 2, q), 1 + (i % 7) as i64)], None, Some(0xff123456), Some(i % 2 == 0))
    });
    const TWO: [(i64, i64); 6] = [(1, 1), (11, 10), (3, 2), (1, 4), (60, 61), (1, 97)];
    let (q, na) = (cx.pick(13, 25), cx.pick(27, 64));
    let side = if cx.quick() { 3 } else { 4 };
    cx.space("two", "every colour of a lattice against every colour of a coarser one x six shares x one or two requested: the documented order", q * q * q * na * 12, |i, t| {
        let d = digits(i, &[2, 6, na, q * q * q]);
        let (a, b) = (lattice(d[3], q) , lattice(d[2], side) ^ 0x0a0b0c);
        if a == b {
            return Ok(());
        }
        let (x, y) = TWO[d[1] as usize];
        check_score(t, &[(a, x), (b, y)], Some(1 + d[0] as i64), None, Some(i % 5 != 0))
    });
    let ns = cx.pick(400, 4000);
    cx.space("share", "a colour far from the majority with every share from 0.2% to 3% (finely stepped): kept exactly above 1%", ns * 12, |i, t| {
        let share = 0.002 + 0.028 * (i / 12) as f64 / ns as f64;
        let total = [997i64, 10000, 1_000_000][(i % 3) as usize];
        let x = ((total as f64 * share) as i64).max(1);
        let h = 90.0 * (i / 3 % 4) as f64 + 7.0;
        let (a, b) = (Hct::from(h, 30.0, 50.0).to_int(), Hct::from((h + 180.0) % 360.0, 60.0, 50.0).to_int());
        check_score(t, &[(a, x), (b, total - x)], None, None, None)
    });
    cx.space("unsuitable", "sets with nothing suitable (empty, greys, zero or negligible usage): exactly the fallback; large sets of unused colours", 6 * 2 * 3 * 4, |i, t| {
        let d = digits(i, &[6, 2, 3, 4]);
        let pop: Vec<(i64, i64)> = match d[0] {
            0 => vec![],
            1 => vec![(0xff808080, 10), (0xff000000, 5), (0xffffffff, 1)],
            2 => (0..40).map(|j| (Hct::from(9.0 * j as f64 + 1.0, 40.0, 50.0).to_int(), 0)).collect::<BTreeMap<_, _>>().into_iter().collect(),
            3 => vec![(0xffff0000, 0), (0xff00ff00, 0)],
            4 => vec![(0xff808080, 1000), (0xffff0000, 1), (0xff0000ff, 2)],
            _ => picture(300, 31).into_iter().map(|p| (p, 0)).collect::<BTreeMap<_, _>>().into_iter().collect(),
        };
        check_score(t, &pop, [None, Some(1), Some(9)][d[2] as usize], [None, Some(0xff00ff00), Some(0xff123456), Some(0xff808080)][d[3] as usize], Some(d[1] == 0))
    });
    cx.assume("at least one colour requested, populations not negative, opaque colours");
}

// ------------------------------------------------------------------ C29
fn c29(cx: &mut Ctx) {
    let n = cx.pick(60, 200);
    let cols: Vec<i64> = (0..n).map(|i| 0xff000000 | ((i * i * 40503 * 7 + i * 991) % 0x1000000) as i64).collect();
    let mut hs: Vec<(String, Hct)> = Vec::new();
    for c in &cols {
        let h = Hct::from_int(*c);
        hs.push((format!("from_int {:x}", c), h.clone()));
        hs.push((format!("from of {:x}", c), Hct::from(h.get_hue(), h.get_chroma(), h.get_tone())));
        let mut g = Hct::from_int(0xff808080);
        g.set_hue(h.get_hue());
        g.set_chroma(h.get_chroma());
        g.set_tone(h.get_tone());
        hs.push((format!("set of {:x}", c), g));
    }
    for c in cols.iter().take(8) {
        for al in [0u8, 1, 127, 128, 254] {
            let x = (*c & 0xffffff) | (al as i64) << 24;
            hs.push((format!("from_int {:x}", x), Hct::from_int(x)));
        }
        for bit in 0..32 {
            hs.push((format!("from_int {:x}", *c ^ (1 << bit)), Hct::from_int(*c ^ (1 << bit))));
        }
    }
    let (hr, m) = (&hs, hs.len() as u64);
    cx.space("hct", "all pairs of HCT colours made in different ways: equal exactly when they are the same colour, equal colours hash alike", m * m, |i, t| {
        let (a, b) = (&hr[(i % m) as usize], &hr[(i / m) as usize]);
        let same = a.1.to_int() == b.1.to_int();
        t.ops(2);
        ensure!(t, (a.1 == b.1) == same && (b.1 == a.1) == same, "{} and {}: == is {}", a.0, b.0, a.1 == b.1);
        ensure!(t, !same || hash_of(&a.1) == hash_of(&b.1), "{} and {} are equal but hash differently", a.0, b.0);
        t.out(same as u64);
        Ok(())
    });
    let kt = cx.pick(64, 256);
    cx.space("hct-text", "text form is H, C and T rounded to whole numbers (all colours of the lattice)", cx.pick(64, 256).pow(3), |i, t| {
        let k = kt;
        let d = digits(i, &[k, k, k]);
        let a = r::argb([0, 1, 2].map(|j| (d[j] * 255 / (k - 1)) as i64));
        let h = Hct::from_int(a);
        t.ops(1);
        let s = h.to_string();
        let v: Vec<f64> = s.split(' ').zip(["H", "C", "T"]).filter_map(|(w, p)| w.strip_prefix(p).and_then(|x| x.parse().ok())).collect();
        ensure!(t, v.len() == 3 && s.split(' ').count() == 3, "{:x}: text form {:?}", a, s);
        for (x, y) in v.iter().zip([h.get_hue(), h.get_chroma(), h.get_tone()]) {
            ensure!(t, (x - y).abs() <= 0.5 + 1e-9 && x.fract() == 0.0, "{:x}: text form {} for {}", a, s, y);
        }
        t.out_f(v[0] * 1e6 + v[1] * 1e3 + v[2]);
        Ok(())
    });
    // schemes
    let vs = [V::Mono, V::Neutral, V::Tonal, V::Vibrant, V::Expressive, V::Content, V::Fidelity, V::Rainbow, V::Fruit];
    let srcs: Vec<i64> = vec![0xff4285f4, 0xff4285f5, 0xffb33b15];
    let lv = [0.0, -0.0, 0.5, -1.0, 1.0, 0.5 + 1e-9, 0.501, 0.53, 1e-9];
    let nl = lv.len() as u64;
    let per = 9 * srcs.len() as u64 * 2 * nl;
    let mk = |x: u64| { let d = digits(x, &[9, srcs.len() as u64, 2, nl]); (d.clone(), scheme(vs[d[0] as usize], srcs[d[1] as usize], d[2] == 1, lv[d[3] as usize])) };
    let all: Vec<_> = (0..per).map(mk).collect();
    let ar = &all;
    cx.space("schemes", "all pairs of schemes over variant x source x brightness x contrast (0.0 and -0.0 included): equal exactly when every ingredient is equal; equal schemes hash alike; use does not change identity", per * per, |i, t| {
        let ((da, a), (db, b)) = (&ar[(i % per) as usize], &ar[(i / per) as usize]);
        let same = da[0] == db[0] && da[1] == db[1] && da[2] == db[2] && lv[da[3] as usize] == lv[db[3] as usize];
        t.ops(1);
        ensure!(t, (a == b) == same, "{:?} vs {:?}: == is {}", da, db, a == b);
        if same {
            ensure!(t, hash_of(a) == hash_of(b), "{:?} and {:?} are equal but hash differently", da, db);
            let mut used = a.clone();
            for r in ROLE_FNS.iter().step_by(5) {
                (r.2)(&used);
            }
            for k in [0, 40, 100] {
                used.primary_palette.get(k);
                used.neutral_palette.get(k);
            }
            ensure!(t, used == *a && hash_of(&used) == hash_of(a), "{:?}: a scheme that has been used is no longer equal to itself", da);
        }
        t.out(same as u64);
        Ok(())
    });
    // single-ingredient differences between schemes are seen
    let close = crate::p_dyn::close_schemes();
    let cr = &close;
    let nc = close.len() as u64;
    let col: Vec<Vec<i64>> = close.iter().map(|s| ROLE_FNS.iter().map(|r| (r.2)(s)).collect()).collect();
    let colr = &col;
    cx.space("close-schemes", "all pairs of nearly identical schemes (palettes made in different ways included): equal schemes give the same colours and hash alike; a scheme equals its clone", nc * nc, |i, t| {
        let (a, b) = ((i / nc) as usize, (i % nc) as usize);
        let eq = cr[a] == cr[b];
        t.ops(1);
        ensure!(t, eq == (cr[b] == cr[a]), "schemes {} and {}: equality is not symmetric", a, b);
        ensure!(t, !eq || hash_of(&cr[a]) == hash_of(&cr[b]), "schemes {} and {} are equal but hash differently", a, b);
        ensure!(t, !eq || colr[a] == colr[b], "schemes {} and {} are equal but give different colours", a, b);
        ensure!(t, a != b || cr[a] == cr[a].clone(), "scheme {} does not equal its clone", a);
        t.out(eq as u64);
        Ok(())
    });
    cx.space("scheme-fields", "changing one palette (much or by a hair) or one field of a scheme makes it unequal", 9 * 11 * 4, |i, t| {
        let (far, i) = (i / 99, i % 99);
        let a = scheme(vs[(i / 11) as usize], srcs[0], false, 0.0);
        let mut b = a.clone();
        let own = [&a.primary_palette, &a.secondary_palette, &a.tertiary_palette, &a.neutral_palette, &a.neutral_variant_palette, &a.error_palette];
        let own = own[(i as usize % 11).min(5)];
        let odd = match far {
            0 => TonalPalette::of(123.0, 21.5),
            1 => TonalPalette::of(own.hue + 0.4, own.chroma),
            2 => TonalPalette::of(own.hue, own.chroma + 0.45),
            _ => TonalPalette::of(own.hue + 1e-6, own.chroma),
        };
        match i % 11 {
            0 => b.primary_palette = odd,
            1 => b.secondary_palette = odd,
            2 => b.tertiary_palette = odd,
            3 => b.neutral_palette = odd,
            4 => b.neutral_variant_palette = odd,
            5 => b.error_palette = odd,
            6 => b.is_dark = true,
            7 => b.contrast_level = 0.25,
            8 => b.source_color_argb = 0xff00ff00,
            9 => b.source_color_hct = Hct::from_int(0xff00ff00),
            _ => b.variant = crate::p_dyn::variant_enum(vs[(i as usize / 11 + 1) % 9]),
        }
        t.ops(1);
        ensure!(t, a != b && b != a, "variant {} field {}: a changed scheme compares equal", i / 11, i % 11);
        t.out(i % 11);
        Ok(())
    });
    // palettes
    let hues = [0.0, -0.0, 0.25, 120.0, 120.4, 240.0, 359.0, 359.0 + 1e-9];
    let chs = [0.0, -0.0, 8.0, 8.3, 48.0, 48.0 + 1e-9];
    let np = 48;
    let mkp = |x: u64| TonalPalette::of(hues[(x % 8) as usize], chs[(x / 8) as usize]);
    cx.space("palettes", "all pairs of palettes of hue x chroma (both zeros): equal exactly when hue and chroma are; equal palettes hash alike, used or not, with or without their list form", np * np, |i, t| {
        let (x, y) = (i % np, i / np);
        let (mut a, b) = (mkp(x), mkp(y));
        let same = hues[(x % 8) as usize] == hues[(y % 8) as usize] && chs[(x / 8) as usize] == chs[(y / 8) as usize];
        let la = a.get_as_list();
        t.ops(3);
        ensure!(t, (a == b) == same && (b == a) == same, "palettes {} and {}: == is {}", x, y, a == b);
        ensure!(t, !same || hash_of(&a) == hash_of(&b), "palettes {} and {} are equal but hash differently", x, y);
        let (ca, cb) = (TonalPalette::from_list(&la), TonalPalette::from_list(&b.clone().get_as_list()));
        let ls = la == b.clone().get_as_list();
        ensure!(t, (ca == cb) == ls, "list palettes {} and {}: == is {}", x, y, ca == cb);
        ensure!(t, !ls || hash_of(&ca) == hash_of(&cb), "list palettes {} and {} are equal but hash differently", x, y);
        ensure!(t, (ca == b) == ls && (b == ca) == ls, "list palette {} against palette {}: == is {}", x, y, ca == b);
        ensure!(t, !ls || hash_of(&ca) == hash_of(&b), "list palette {} and palette {} are equal but hash differently", x, y);
        t.out(same as u64);
        Ok(())
    });
    let cps: Vec<i64> = vec![0xff4285f4, 0xff4285f4, 0xff00ff00, 0xff000000, 0xffb33b15];
    cx.space("core-palettes", "all pairs of core palettes (plain, content, from list): equality and hash follow their palettes", 15 * 15, |i, t| {
        let mk = |x: u64| {
            let s = cps[(x % 5) as usize];
            match x / 5 {
                0 => CorePalette::of(s),
                1 => CorePalette::content_of(s),
                _ => CorePalette::from_list(&CorePalette::of(s).as_list()),
            }
        };
        let (a, b) = (mk(i % 15), mk(i / 15));
        let eq = a.primary == b.primary && a.secondary == b.secondary && a.tertiary == b.tertiary && a.neutral == b.neutral && a.neutral_variant == b.neutral_variant && a.error == b.error;
        t.ops(2);
        ensure!(t, (a == b) == eq, "core palettes {} and {}: == is {}", i % 15, i / 15, a == b);
        ensure!(t, !eq || hash_of(&a) == hash_of(&b), "core palettes {} and {} are equal but hash differently", i % 15, i / 15);
        if i % 15 / 5 == i / 15 / 5 && cps[(i % 5) as usize] == cps[(i / 15 % 5) as usize] {
            ensure!(t, a == b && hash_of(&a) == hash_of(&b), "core palettes {} and {} are equal by construction", i % 15, i / 15);
        }
        t.out(eq as u64);
        Ok(())
    });
    cx.assume("hash agreement is claimed between palettes made the same way (from values, or from a list)");
}

// ------------------------------------------------------------------ C30
fn c30(cx: &mut Ctx) {
    let n = cx.pick(8, 8) as u32;
    let vs = [V::Mono, V::Neutral, V::Tonal, V::Vibrant, V::Expressive, V::Content, V::Fidelity, V::Rainbow, V::Fruit];
    cx.space("pipeline", "image (every subset of colours) -> quantize -> rank -> theme for every variant and brightness: total, built from a colour of the image or the fallback, every role opaque, same answer on a second run", (1 << n) * 6, |i, t| {
        let px: Vec<i64> = (0..n).filter(|b| (i / 6) >> b & 1 == 1).flat_map(|b| vec![AL[b as usize]; 1 + (b as usize * 5 + 1) % 4]).collect();
        let (dark, level) = (i % 2 == 1, [0.0, -1.0, 1.0][(i as usize / 2) % 3]);
        let run = || {
            let q = QuantizerCelebi {}.quantize(&px, 128, None);
            let s = Score::score(&q.color_to_count, None, None, None);
            (counts(&q), s)
        };
        let (q, s) = run();
        t.ops(2);
        ensure!(t, q == hist(&px), "{:x?}: {:x?}", px, q);
        let src = s[0];
        ensure!(t, px.contains(&src) || (src == 0xff4285f4 && s.len() == 1), "{:x?}: theme colour {:x}", px, src);
        if px.iter().any(|p| { let h = r::hct(*p); h.chroma >= 5.0 && q[p] * 100 > px.len() as i64 }) {
            ensure!(t, px.contains(&src), "{:x?}: fallback although the image has suitable colours", px);
        }
        let v = vs[(i % 9) as usize];
        let a = scheme(v, src, dark, level);
        let b = scheme(v, run().1[0], dark, level);
        let mut first: Vec<i64> = Vec::new();
        for role in ROLE_FNS {
            let x = (role.2)(&a);
            ensure!(t, (x >> 24) == 0xff && x <= 0xffffffff, "{:x?} {}: {:x}", px, role.0, x);
            first.push(x);
            t.out(x as u64);
        }
        // the second run resolves the roles in the opposite order
        let mut second: Vec<i64> = ROLE_FNS.iter().rev().map(|role| (role.2)(&b)).collect();
        second.reverse();
        t.ops(2 * ROLE_FNS.len() as u64);
        ensure!(t, first == second, "{:x?}: the second run gives a different theme", px);
        t.note(|| format!("{:x?} -> {:x?}", px, s));
        Ok(())
    });
    let sizes = [50u64, 300];
    let ns = cx.pick(64, 1024);
    cx.space("pictures", "pictures of many colours through the whole pipeline", 2 * ns, |i, t| {
        let px = picture(sizes[(i % 2) as usize], 17 + i * 15485863);
        let q = QuantizerCelebi {}.quantize(&px, 32, None);
        let s = Score::score(&q.color_to_count, None, None, None);
        t.ops(2);
        ensure!(t, s.iter().all(|c| q.color_to_count.contains_key(c)) || s == [0xff4285f4], "picture {}: {:x?}", i, s);
        let best = q.color_to_count.keys().any(|c| r::hct(*c).chroma >= 5.0);
        ensure!(t, best || s == [0xff4285f4], "picture {}: {:x?}", i, s);
        for v in vs {
            let a = scheme(v, s[0], i % 3 == 0, 0.0);
            for role in ROLE_FNS {
                let x = (role.2)(&a);
                ensure!(t, (x >> 24) == 0xff, "picture {} {}: {:x}", i, role.0, x);
            }
            t.ops(ROLE_FNS.len() as u64);
        }
        t.out(s[0] as u64);
        Ok(())
    });
}
