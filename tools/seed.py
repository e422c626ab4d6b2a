#!/usr/bin/env python3
"""Plants one bug in a scratch copy of /repo, confirms it (builds, stable tests pass, demo fails with it and
passes without it) and stores it as /verif/seeded/<id>.  usage: seed.py FILE.py [id...]
FILE.py defines SEEDS = [dict(id, property, edits=[(path, old, new)], needs, breaks, demo=<rust main.rs>)]"""
import json, os, shutil, subprocess, sys, importlib.util
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
W = "/tmp/seedw"
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is as promised; nonzero: it is not
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
material-color-utilities-rs = { path = "$PWD" }
[workspace]
T
cp "$PWD/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo run -q --offline --release
'''
PRE = '''#![allow(unused_imports, deprecated)]
use material_color_utilities_rs::{blend::blend::Blend, contrast::contrast::Contrast, dislike::dislike_analyzer::DislikeAnalyzer, hct::{hct::Hct, cam16::Cam16, viewing_conditions::ViewingConditions}, palettes::{tonal_palette::TonalPalette, core_palette::CorePalette}, score::score::Score, temperature::temperature_cache::TemperatureCache, utils::{color_utils::ColorUtils, math_utils::MathUtils, string_utils::StringUtils}};
use material_color_utilities_rs::quantize::{quantizer::Quantizer, quantizer_celebi::QuantizerCelebi, quantizer_map::QuantizerMap, quantizer_wsmeans::QuantizerWsmeans, quantizer_wu::QuantizerWu};
use material_color_utilities_rs::dynamiccolor::{dynamic_color::DynamicColor, dynamic_scheme::DynamicScheme, material_dynamic_colors::MaterialDynamicColors, variant::Variant, src::{contrast_curve::ContrastCurve, tone_delta_pair::{ToneDeltaPair, TonePolarity}}};
use material_color_utilities_rs::scheme::{scheme::Scheme, scheme_content::SchemeContent, scheme_expressive::SchemeExpressive, scheme_fidelity::SchemeFidelity, scheme_fruit_salad::SchemeFruitSalad, scheme_monochrome::SchemeMonochrome, scheme_neutral::SchemeNeutral, scheme_rainbow::SchemeRainbow, scheme_tonal_spot::SchemeTonalSpot, scheme_vibrant::SchemeVibrant};
use std::collections::{HashMap, BTreeSet, BTreeMap};
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
names = {x.split("::",1)[-1] if False else x for x in stable}
def demo(d, cwd):
    return sh(f"bash {d}/demo.sh", cwd=cwd, timeout=300)
for s in mod.SEEDS:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    shutil.rmtree(W, ignore_errors=True)
    sh(f"git -C /repo worktree prune; cp -a /repo {W}")
    ok = True
    for path, old, new in s["edits"]:
        t = open(f"{W}/{path}").read()
        n = t.count(old)
        if n < 1 or (n > 1 and not s.get("first")): print(s["id"], "EDIT matches", n, path); ok = False; break
        open(f"{W}/{path}", "w").write(t.replace(old, new, 1))
    if not ok: continue
    diff = sh("git diff", cwd=W).stdout
    r = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", cwd=W)
    out = r.stdout + r.stderr
    passed = {l.split()[1] for l in out.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")}
    short = {x.split(" ")[-1] for x in stable}
    miss = {x for x in short if not any(x == p or x.endswith("::" + p) or x.endswith(p) for p in passed)}
    failed = [l for l in out.splitlines() if l.startswith("test ") and "FAILED" in l]
    if "error" in out and not passed: print(s["id"], "DOES NOT BUILD", out[-1500:]); continue
    if failed or len(passed) < 128: print(s["id"], "TESTS FAIL", failed[:4], len(passed)); continue
    D = f"/tmp/seedd/{s['id']}"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    open(D + "/demo.sh", "w").write(DEMO_SH); open(D + "/main.rs", "w").write(PRE + s["demo"])
    open(D + "/patch.diff", "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(D + "/meta.json", "w"), indent=1)
    a = demo(D, "/repo"); b = demo(D, W)
    if a.returncode != 0: print(s["id"], "DEMO FAILS ON GOOD", a.stdout[-500:], a.stderr[-1500:]); continue
    if b.returncode == 0: print(s["id"], "DEMO PASSES ON BAD"); continue
    if "error[" in b.stderr or "could not compile" in b.stderr: print(s["id"], "DEMO BUILD ERR", b.stderr[-800:]); continue
    T = f"/verif/seeded/{s['id']}"; shutil.rmtree(T, ignore_errors=True); os.makedirs("/verif/seeded", exist_ok=True); shutil.copytree(D, T)
    print(s["id"], s["property"], "kept:", (b.stderr.strip().splitlines() or ["?"])[0][:150])
shutil.rmtree(W, ignore_errors=True)
