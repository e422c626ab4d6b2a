//! Reference model of the Material design specification: roles, tones, variants, temperature.
//! Written from the specification; calls nothing of the crate under test.
#![allow(dead_code)]
use crate::refm::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V { Mono, Neutral, Tonal, Vibrant, Expressive, Content, Fidelity, Rainbow, Fruit }
pub const VARIANTS: [V; 9] = [V::Mono, V::Neutral, V::Tonal, V::Vibrant, V::Expressive, V::Content, V::Fidelity, V::Rainbow, V::Fruit];

#[derive(Clone, Debug)]
pub struct Pal { pub hue: f64, pub chroma: f64, pub key: H }
impl Pal {
    pub fn of(hue: f64, chroma: f64) -> Pal { Pal { hue, chroma, key: key_color(hue, chroma) } }
    pub fn from(h: &H) -> Pal { Pal { hue: h.hue, chroma: h.chroma, key: h.clone() } }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P { Pri, Sec, Ter, Neu, NeV, Err }
#[derive(Clone, Debug)]
pub struct Sch { pub v: V, pub dark: bool, pub level: f64, pub src: H, pub pal: [Pal; 6] }
impl Sch {
    pub fn p(&self, p: P) -> &Pal { &self.pal[p as usize] }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pol { Darker, Lighter, Nearer, Farther }
#[derive(Clone, Debug)]
pub struct Role {
    pub name: String,
    pub pal: P,
    pub tone: f64,
    pub is_bg: bool,
    pub bg: Option<Box<Role>>,
    pub bg2: Option<Box<Role>>,
    pub curve: Option<[f64; 4]>,
    pub pair: Option<Pair>,
}
#[derive(Clone, Debug)]
pub struct Side { pub name: String, pub tone: f64, pub curve: [f64; 4] }
#[derive(Clone, Debug)]
pub struct Pair { pub a: Side, pub b: Side, pub delta: f64, pub pol: Pol, pub stay: bool }

pub fn tone_of(r: &Role, dark: bool, level: f64) -> f64 {
    let lowering = level < 0.0;
    if let Some(p) = &r.pair {
        let bg = tone_of(r.bg.as_ref().unwrap(), dark, level);
        let a_near = match p.pol { Pol::Nearer => true, Pol::Lighter => !dark, Pol::Darker => dark, Pol::Farther => false };
        let (n, f) = if a_near { (&p.a, &p.b) } else { (&p.b, &p.a) };
        let dir = if dark { 1.0 } else { -1.0 };
        let solve1 = |s: &Side| {
            let want = curve(s.curve, level);
            if lowering || ratio(bg, s.tone) < want { foreground(bg, want) } else { s.tone }
        };
        let (mut nt, mut ft) = (solve1(n), solve1(f));
        if (ft - nt) * dir < p.delta {
            ft = (nt + p.delta * dir).clamp(0.0, 100.0);
            if (ft - nt) * dir < p.delta {
                nt = (ft - p.delta * dir).clamp(0.0, 100.0);
            }
        }
        let awkward = |x: f64| (50.0..60.0).contains(&x);
        let (edge, far): (f64, fn(f64, f64) -> f64) = if dark { (60.0, f64::max) } else { (49.0, f64::min) };
        if awkward(nt) || (awkward(ft) && p.stay) {
            nt = edge;
            ft = far(ft, nt + p.delta * dir);
        } else if awkward(ft) {
            ft = edge;
        }
        return if r.name == n.name { nt } else { ft };
    }
    let Some(bgr) = &r.bg else { return r.tone };
    let bg = tone_of(bgr, dark, level);
    let want = curve(r.curve.unwrap(), level);
    let mut ans = if lowering || ratio(bg, r.tone) < want { foreground(bg, want) } else { r.tone };
    if r.is_bg && (50.0..60.0).contains(&ans) {
        ans = if ratio(49.0, bg) >= want { 49.0 } else { 60.0 };
    }
    if let Some(b2) = &r.bg2 {
        let bg2 = tone_of(b2, dark, level);
        let (hi, lo) = (bg.max(bg2), bg.min(bg2));
        if ratio(hi, ans) >= want && ratio(lo, ans) >= want {
            return ans;
        }
        let (l, d) = (lighter(hi, want), darker(lo, want));
        if bg.round() < 60.0 || bg2.round() < 60.0 {
            return if l < 0.0 { 100.0 } else { l };
        }
        if l >= 0.0 && d < 0.0 {
            return l;
        }
        return if d < 0.0 { 0.0 } else { d };
    }
    ans
}

pub const ROLES: [&str; 54] = [
    "primary_palette_key_color", "secondary_palette_key_color", "tertiary_palette_key_color", "neutral_palette_key_color",
    "neutral_variant_palette_key_color", "background", "on_background", "surface", "surface_dim", "surface_bright",
    "surface_container_lowest", "surface_container_low", "surface_container", "surface_container_high", "surface_container_highest",
    "on_surface", "surface_variant", "on_surface_variant", "inverse_surface", "inverse_on_surface", "outline", "outline_variant",
    "shadow", "scrim", "surface_tint", "primary", "on_primary", "primary_container", "on_primary_container", "inverse_primary",
    "secondary", "on_secondary", "secondary_container", "on_secondary_container", "tertiary", "on_tertiary", "tertiary_container",
    "on_tertiary_container", "error", "on_error", "error_container", "on_error_container", "primary_fixed", "primary_fixed_dim",
    "on_primary_fixed", "on_primary_fixed_variant", "secondary_fixed", "secondary_fixed_dim", "on_secondary_fixed",
    "on_secondary_fixed_variant", "tertiary_fixed", "tertiary_fixed_dim", "on_tertiary_fixed", "on_tertiary_fixed_variant",
];

fn desired_chroma_tone(hue: f64, chroma: f64, t0: f64, down: bool) -> f64 {
    let mut ans = t0;
    let mut best = hct_from(hue, chroma, t0);
    if best.chroma < chroma {
        let mut peak = best.chroma;
        while best.chroma < chroma {
            ans += if down { -1.0 } else { 1.0 };
            let c = hct_from(hue, chroma, ans);
            if peak > c.chroma || (c.chroma - chroma).abs() < 0.4 {
                break;
            }
            peak = peak.max(c.chroma);
            if (c.chroma - chroma).abs() < (best.chroma - chroma).abs() {
                best = c;
            }
        }
    }
    ans
}

/// Initial tone, palette, background flag, background, second background, curve, pair partner.
pub fn role(name: &str, s: &Sch) -> Role {
    let d = s.dark;
    let dl = |dark: f64, light: f64| if d { dark } else { light };
    let mono = s.v == V::Mono;
    let fid = s.v == V::Fidelity || s.v == V::Content;
    let cv = |c: [f64; 4]| curve(c, s.level);
    let hs = if d { "surface_bright" } else { "surface_dim" };
    const TEXT: [f64; 4] = [4.5, 7.0, 11.0, 21.0];
    const TEXT2: [f64; 4] = [3.0, 4.5, 7.0, 11.0];
    const ACC: [f64; 4] = [3.0, 4.5, 7.0, 7.0];
    const CONT: [f64; 4] = [1.0, 1.0, 3.0, 4.5];
    let on_cont = |c: &str| foreground(tone_of(&role(c, s), d, s.level), 4.5);
    type B = Option<&'static str>;
    let hsb: B = Some(hs);
    let (pal, tone, is_bg, bg, bg2, cur): (P, f64, bool, B, B, Option<[f64; 4]>) = match name {
        "primary_palette_key_color" => (P::Pri, s.p(P::Pri).key.tone, false, None, None, None),
        "secondary_palette_key_color" => (P::Sec, s.p(P::Sec).key.tone, false, None, None, None),
        "tertiary_palette_key_color" => (P::Ter, s.p(P::Ter).key.tone, false, None, None, None),
        "neutral_palette_key_color" => (P::Neu, s.p(P::Neu).key.tone, false, None, None, None),
        "neutral_variant_palette_key_color" => (P::NeV, s.p(P::NeV).key.tone, false, None, None, None),
        "background" | "surface" => (P::Neu, dl(6.0, 98.0), true, None, None, None),
        "on_background" => (P::Neu, dl(90.0, 10.0), false, Some("background"), None, Some([3.0, 3.0, 4.5, 7.0])),
        "surface_dim" => (P::Neu, dl(6.0, cv([87.0, 87.0, 80.0, 75.0])), true, None, None, None),
        "surface_bright" => (P::Neu, dl(cv([24.0, 24.0, 29.0, 34.0]), 98.0), true, None, None, None),
        "surface_container_lowest" => (P::Neu, dl(cv([4.0, 4.0, 2.0, 0.0]), 100.0), true, None, None, None),
        "surface_container_low" => (P::Neu, dl(cv([10.0, 10.0, 11.0, 12.0]), cv([96.0, 96.0, 96.0, 95.0])), true, None, None, None),
        "surface_container" => (P::Neu, dl(cv([12.0, 12.0, 16.0, 20.0]), cv([94.0, 94.0, 92.0, 90.0])), true, None, None, None),
        "surface_container_high" => (P::Neu, dl(cv([17.0, 17.0, 21.0, 25.0]), cv([92.0, 92.0, 88.0, 85.0])), true, None, None, None),
        "surface_container_highest" => (P::Neu, dl(cv([22.0, 22.0, 26.0, 30.0]), cv([90.0, 90.0, 84.0, 80.0])), true, None, None, None),
        "on_surface" => (P::Neu, dl(90.0, 10.0), false, hsb, None, Some(TEXT)),
        "surface_variant" => (P::NeV, dl(30.0, 90.0), true, None, None, None),
        "on_surface_variant" => (P::NeV, dl(80.0, 30.0), false, hsb, None, Some(TEXT2)),
        "inverse_surface" => (P::Neu, dl(90.0, 20.0), false, None, None, None),
        "inverse_on_surface" => (P::Neu, dl(20.0, 95.0), false, Some("inverse_surface"), None, Some(TEXT)),
        "outline" => (P::NeV, dl(60.0, 50.0), false, hsb, None, Some([1.5, 3.0, 4.5, 7.0])),
        "outline_variant" => (P::NeV, dl(30.0, 80.0), false, hsb, None, Some(CONT)),
        "shadow" | "scrim" => (P::Neu, 0.0, false, None, None, None),
        "surface_tint" => (P::Pri, dl(80.0, 40.0), true, None, None, None),
        "primary" => (P::Pri, if mono { dl(100.0, 0.0) } else { dl(80.0, 40.0) }, true, hsb, None, Some(ACC)),
        "on_primary" => (P::Pri, if mono { dl(10.0, 90.0) } else { dl(20.0, 100.0) }, false, Some("primary"), None, Some(TEXT)),
        "primary_container" => (P::Pri, if fid { s.src.tone } else if mono { dl(85.0, 25.0) } else { dl(30.0, 90.0) }, true, hsb, None, Some(CONT)),
        "on_primary_container" => (P::Pri, if fid { on_cont("primary_container") } else if mono { dl(0.0, 100.0) } else { dl(90.0, 10.0) }, false, Some("primary_container"), None, Some(TEXT)),
        "inverse_primary" => (P::Pri, dl(40.0, 80.0), false, Some("inverse_surface"), None, Some(ACC)),
        "secondary" => (P::Sec, dl(80.0, 40.0), true, hsb, None, Some(ACC)),
        "on_secondary" => (P::Sec, if mono { dl(10.0, 100.0) } else { dl(20.0, 100.0) }, false, Some("secondary"), None, Some(TEXT)),
        "secondary_container" => {
            let t0 = dl(30.0, 90.0);
            let tn = if mono { dl(30.0, 85.0) } else if fid { desired_chroma_tone(s.p(P::Sec).hue, s.p(P::Sec).chroma, t0, !d) } else { t0 };
            (P::Sec, tn, true, hsb, None, Some(CONT))
        }
        "on_secondary_container" => (P::Sec, if fid { on_cont("secondary_container") } else { dl(90.0, 10.0) }, false, Some("secondary_container"), None, Some(TEXT)),
        "tertiary" => (P::Ter, if mono { dl(90.0, 25.0) } else { dl(80.0, 40.0) }, true, hsb, None, Some(ACC)),
        "on_tertiary" => (P::Ter, if mono { dl(10.0, 90.0) } else { dl(20.0, 100.0) }, false, Some("tertiary"), None, Some(TEXT)),
        "tertiary_container" => {
            let tn = if mono { dl(60.0, 49.0) } else if fid {
                let t = s.p(P::Ter);
                fix_disliked(&hct_from(t.hue, t.chroma, s.src.tone)).tone
            } else { dl(30.0, 90.0) };
            (P::Ter, tn, true, hsb, None, Some(CONT))
        }
        "on_tertiary_container" => (P::Ter, if mono { dl(0.0, 100.0) } else if fid { on_cont("tertiary_container") } else { dl(90.0, 10.0) }, false, Some("tertiary_container"), None, Some(TEXT)),
        "error" => (P::Err, dl(80.0, 40.0), true, hsb, None, Some(ACC)),
        "on_error" => (P::Err, dl(20.0, 100.0), false, Some("error"), None, Some(TEXT)),
        "error_container" => (P::Err, dl(30.0, 90.0), true, hsb, None, Some(CONT)),
        "on_error_container" => (P::Err, dl(90.0, 10.0), false, Some("error_container"), None, Some(TEXT)),
        "primary_fixed" => (P::Pri, if mono { 40.0 } else { 90.0 }, true, hsb, None, Some(CONT)),
        "primary_fixed_dim" => (P::Pri, if mono { 30.0 } else { 80.0 }, true, hsb, None, Some(CONT)),
        "on_primary_fixed" => (P::Pri, if mono { 100.0 } else { 10.0 }, false, Some("primary_fixed_dim"), Some("primary_fixed"), Some(TEXT)),
        "on_primary_fixed_variant" => (P::Pri, if mono { 90.0 } else { 30.0 }, false, Some("primary_fixed_dim"), Some("primary_fixed"), Some(TEXT2)),
        "secondary_fixed" => (P::Sec, if mono { 80.0 } else { 90.0 }, true, hsb, None, Some(CONT)),
        "secondary_fixed_dim" => (P::Sec, if mono { 70.0 } else { 80.0 }, true, hsb, None, Some(CONT)),
        "on_secondary_fixed" => (P::Sec, 10.0, false, Some("secondary_fixed_dim"), Some("secondary_fixed"), Some(TEXT)),
        "on_secondary_fixed_variant" => (P::Sec, if mono { 25.0 } else { 30.0 }, false, Some("secondary_fixed_dim"), Some("secondary_fixed"), Some(TEXT2)),
        "tertiary_fixed" => (P::Ter, if mono { 40.0 } else { 90.0 }, true, hsb, None, Some(CONT)),
        "tertiary_fixed_dim" => (P::Ter, if mono { 30.0 } else { 80.0 }, true, hsb, None, Some(CONT)),
        "on_tertiary_fixed" => (P::Ter, if mono { 100.0 } else { 10.0 }, false, Some("tertiary_fixed_dim"), Some("tertiary_fixed"), Some(TEXT)),
        "on_tertiary_fixed_variant" => (P::Ter, if mono { 90.0 } else { 30.0 }, false, Some("tertiary_fixed_dim"), Some("tertiary_fixed"), Some(TEXT2)),
        _ => panic!("unknown role {}", name),
    };
    Role {
        name: name.to_string(), pal, tone, is_bg,
        bg: bg.map(|b| Box::new(role(b, s))),
        bg2: bg2.map(|b| Box::new(role(b, s))),
        curve: cur,
        pair: None,
    }
}
/// (A, B, delta, polarity, stay together)
pub fn pair_of(name: &str) -> Option<(&'static str, &'static str, f64, Pol, bool)> {
    Some(match name {
        "primary" | "primary_container" => ("primary_container", "primary", 10.0, Pol::Nearer, false),
        "secondary" | "secondary_container" => ("secondary_container", "secondary", 10.0, Pol::Nearer, false),
        "tertiary" | "tertiary_container" => ("tertiary_container", "tertiary", 10.0, Pol::Nearer, false),
        "error" | "error_container" => ("error_container", "error", 10.0, Pol::Nearer, false),
        "primary_fixed" | "primary_fixed_dim" => ("primary_fixed", "primary_fixed_dim", 10.0, Pol::Lighter, true),
        "secondary_fixed" | "secondary_fixed_dim" => ("secondary_fixed", "secondary_fixed_dim", 10.0, Pol::Lighter, true),
        "tertiary_fixed" | "tertiary_fixed_dim" => ("tertiary_fixed", "tertiary_fixed_dim", 10.0, Pol::Lighter, true),
        _ => return None,
    })
}
fn link(mut r: Role, s: &Sch) -> Role {
    if let Some((a, b, delta, pol, stay)) = pair_of(&r.name) {
        let side = |n: &str| {
            let x = role(n, s);
            Side { name: n.to_string(), tone: x.tone, curve: x.curve.unwrap() }
        };
        r.pair = Some(Pair { a: side(a), b: side(b), delta, pol, stay });
    }
    r.bg = r.bg.map(|b| Box::new(link(*b, s)));
    r.bg2 = r.bg2.map(|b| Box::new(link(*b, s)));
    r
}
pub fn spec(name: &str, s: &Sch) -> Role {
    // initial tones that depend on another role's resolved tone need the linked role
    let mut r = link(role(name, s), s);
    let fid = s.v == V::Fidelity || s.v == V::Content;
    if fid {
        if let Some(base) = match name {
            "on_primary_container" => Some("primary_container"),
            "on_secondary_container" => Some("secondary_container"),
            "on_tertiary_container" => Some("tertiary_container"),
            _ => None,
        } {
            r.tone = foreground(tone_of(&spec(base, s), s.dark, s.level), 4.5);
        }
    }
    r
}
pub fn role_tone(name: &str, s: &Sch) -> f64 {
    tone_of(&spec(name, s), s.dark, s.level)
}

// ---------------------------------------------------------------- temperature
pub struct Temp { pub input: H, pub by_hue: Vec<H>, pub temps: Vec<f64>, pub tin: f64, pub cold: (f64, H), pub warm: (f64, H) }
impl Temp {
    pub fn new(input: H) -> Temp {
        let by_hue: Vec<H> = (0..=360).map(|h| hct_from(h as f64, input.chroma, input.tone)).collect();
        let temps: Vec<f64> = by_hue.iter().map(|h| raw_temp(h.argb)).collect();
        let tin = raw_temp(input.argb);
        let (mut cold, mut warm) = ((tin, input.clone()), (tin, input.clone()));
        for (h, t) in by_hue.iter().zip(&temps) {
            if *t < cold.0 { cold = (*t, h.clone()); }
            if *t > warm.0 { warm = (*t, h.clone()); }
        }
        Temp { input, by_hue, temps, tin, cold, warm }
    }
    fn rel_of(&self, i: usize) -> f64 { self.rel(self.temps[i]) }
    /// Analogous colours; several answers when a temperature threshold is hit within rounding.
    pub fn analogous(&self, count: usize, div: usize) -> Vec<Vec<H>> {
        let mut out: Vec<Vec<H>> = Vec::new();
        for start in self.start_hues() {
            for eps in [0.0, 1e-9, -1e-9] {
                let a = self.analogous_eps(start, count, div, eps);
                if !out.iter().any(|o| o.iter().map(|h| h.argb).eq(a.iter().map(|h| h.argb))) { out.push(a); }
            }
        }
        out
    }
    fn start_hues(&self) -> Vec<usize> {
        let h = self.input.hue;
        let mut v = vec![h.round() as usize];
        for e in [1e-9, -1e-9] {
            let k = (h + e).max(0.0).round() as usize;
            if !v.contains(&k) { v.push(k); }
        }
        v
    }
    fn analogous_eps(&self, start: usize, count: usize, div: usize, eps: f64) -> Vec<H> {
        let at = |k: usize| (start + k) % 360;
        let mut total = 0.0;
        let mut last = self.rel_of(start);
        for k in 0..360 {
            let x = self.rel_of(at(k));
            total += (x - last).abs();
            last = x;
        }
        let step = total / div as f64;
        let mut all = vec![self.by_hue[start].clone()];
        let mut acc = 0.0;
        last = self.rel_of(start);
        let mut k = 1;
        while all.len() < div {
            let h = &self.by_hue[at(k)];
            let x = self.rel_of(at(k));
            acc += (x - last).abs();
            last = x;
            let mut ok = acc + eps >= all.len() as f64 * step;
            let mut extra = 1;
            while ok && all.len() < div {
                all.push(h.clone());
                ok = acc + eps >= (all.len() + extra) as f64 * step;
                extra += 1;
            }
            k += 1;
            if k > 360 {
                while all.len() < div { all.push(h.clone()); }
            }
        }
        let n = all.len() as i64;
        let ccw = (count as i64 - 1) / 2;
        (-ccw..count as i64 - ccw).map(|i| if i == 0 { self.input.clone() } else { all[i.rem_euclid(n) as usize].clone() }).collect()
    }
    /// Every colour that is a complement within rounding.
    pub fn complement(&self) -> Vec<H> {
        let between = |x: f64, a: f64, b: f64, e: f64| if a < b { a - e <= x && x <= b + e } else { a - e <= x || x <= b + e };
        let mut out = Vec::new();
        let (ch, wh) = (self.cold.1.hue, self.warm.1.hue);
        let range = self.warm.0 - self.cold.0;
        if range == 0.0 {
            return self.start_hues().into_iter().map(|k| self.by_hue[k].clone()).collect();
        }
        let goal = 1.0 - self.rel(self.tin);
        let mut dirs = vec![between(self.input.hue, ch, wh, 0.0)];
        for e in [1e-9, -1e-9] {
            let d = between(self.input.hue, ch, wh, e);
            if !dirs.contains(&d) { dirs.push(d); }
        }
        for c2w in dirs {
            let (s, e) = if c2w { (wh, ch) } else { (ch, wh) };
            let mut errs: Vec<(f64, H)> = Vec::new();
            for k in 0..360 {
                let hue = wrap(s + k as f64);
                if !between(hue, s, e, 1e-9) { continue; }
                let i = hue.round() as usize;
                errs.push(((goal - self.rel_of(i)).abs(), self.by_hue[i].clone()));
                for q in [1e-9, -1e-9] {
                    let j = (hue + q).max(0.0).round() as usize;
                    if j != i { errs.push(((goal - self.rel_of(j)).abs(), self.by_hue[j].clone())); }
                }
            }
            let best = errs.iter().map(|x| x.0).fold(1000.0, f64::min);
            out.extend(errs.into_iter().filter(|x| x.0 <= best + 1e-9).map(|x| x.1));
        }
        if out.is_empty() { out = self.start_hues().into_iter().map(|k| self.by_hue[k].clone()).collect(); }
        out
    }
    pub fn rel(&self, t: f64) -> f64 {
        let range = self.warm.0 - self.cold.0;
        if range == 0.0 { 0.5 } else { (t - self.cold.0) / range }
    }
}

// ---------------------------------------------------------------- variants
fn rotate(hue: f64, hues: &[f64], rot: &[f64]) -> f64 {
    for i in 0..hues.len() - 1 {
        if hues[i] < hue && hue < hues[i + 1] {
            return wrap(hue + rot[i]);
        }
    }
    hue
}
/// (hue, chroma) of primary, secondary, tertiary (None: temperature based), neutral, neutral variant
pub fn variant_spec(v: V, src: &H) -> [Option<(f64, f64)>; 5] {
    let (h, c) = (src.hue, src.chroma);
    const EH: [f64; 9] = [0.0, 21.0, 51.0, 121.0, 151.0, 191.0, 271.0, 321.0, 360.0];
    const ES: [f64; 9] = [45.0, 95.0, 45.0, 20.0, 45.0, 90.0, 45.0, 45.0, 45.0];
    const ET: [f64; 9] = [120.0, 120.0, 20.0, 45.0, 20.0, 15.0, 20.0, 120.0, 120.0];
    const VH: [f64; 9] = [0.0, 41.0, 61.0, 101.0, 131.0, 181.0, 251.0, 301.0, 360.0];
    const VS: [f64; 9] = [18.0, 15.0, 10.0, 12.0, 15.0, 18.0, 15.0, 12.0, 12.0];
    const VT: [f64; 9] = [35.0, 30.0, 20.0, 25.0, 30.0, 35.0, 30.0, 25.0, 25.0];
    match v {
        V::Mono => [Some((h, 0.0)); 5],
        V::Neutral => [Some((h, 12.0)), Some((h, 8.0)), Some((h, 16.0)), Some((h, 2.0)), Some((h, 2.0))],
        V::Tonal => [Some((h, 36.0)), Some((h, 16.0)), Some((h + 60.0, 24.0)), Some((h, 6.0)), Some((h, 8.0))],
        V::Vibrant => [Some((h, 200.0)), Some((rotate(h, &VH, &VS), 24.0)), Some((rotate(h, &VH, &VT), 32.0)), Some((h, 10.0)), Some((h, 12.0))],
        V::Expressive => [Some((h + 240.0, 40.0)), Some((rotate(h, &EH, &ES), 24.0)), Some((rotate(h, &EH, &ET), 32.0)), Some((h + 15.0, 8.0)), Some((h + 15.0, 12.0))],
        V::Content | V::Fidelity => [Some((h, c)), Some((h, (c - 32.0).max(c * 0.5))), None, Some((h, c / 8.0)), Some((h, c / 8.0 + 4.0))],
        V::Rainbow => [Some((h, 48.0)), Some((h, 16.0)), Some((h + 60.0, 24.0)), Some((h, 0.0)), Some((h, 0.0))],
        V::Fruit => [Some((h - 50.0, 48.0)), Some((h - 50.0, 36.0)), Some((h, 36.0)), Some((h, 10.0)), Some((h, 16.0))],
    }
}
