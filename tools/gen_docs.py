#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed)."""
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,note,technique):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,stmt=stmt,over=over,qtext=qtext,why=why,files=files,mech=mech,note=note,technique=technique))
EX="bounded exhaustive enumeration of the input space on the real code, judged case by case against an independent reference model"
HI="exhaustive exploration of all operation sequences up to a depth on the real object (explicit-state search), each step compared with a fresh object and a reference model"
CF="exhaustive enumeration of all configurations of a finite grid on the real code, compared with an independent executable model of the specification (conformance on every state)"

p("C01","Every sRGB color survives the HCT round trip",
 "For every opaque 24-bit color, converting it to hue, chroma and tone yields the CAM16 hue and chroma and the CIE L* tone of that color, and building a color from those three numbers gives back exactly the same color. Alpha never influences hue, chroma or tone.",
 ["inputs"],"all 2^24 opaque colors; all 256 alpha values on a color lattice","tests round-trip a coarse RGB grid (51-step) and a handful of named colors",
 ["src/hct/hct.rs","src/hct/src/hct_solver.rs","src/hct/cam16.rs"],[("Hct::from_int / Hct::from","src/hct/hct.rs"),("HctSolver::solve_to_int","src/hct/src/hct_solver.rs")],
 "complete: the whole 2^24 input space at both tiers",EX)
p("C02","HCT requests are honored as closely as sRGB allows",
 "Asking for any hue, chroma and tone gives an in-gamut color whose tone is the requested tone, whose hue is the requested hue whenever that tone has it and the color is not near-neutral, and whose chroma is the requested chroma or, if sRGB cannot reach it, the largest chroma sRGB has at that hue and tone. A request for chroma zero, or for tone 0 or 100, gives a grey, black or white.",
 ["inputs"],"all hues, chromas and tones on dense grids including the gamut boundary, near-black and near-white","tests sample hues every 15 to 30 degrees with a few chromas and tones",
 ["src/hct/src/hct_solver.rs","src/hct/hct.rs"],[("find_result_by_j / bisect_to_limit","src/hct/src/hct_solver.rs")],
 "grid; near-neutral hue tolerance is derived from 8-bit rounding",EX)
p("C03","Out-of-range HCT requests are clamped, never rejected",
 "Hues outside 0..360 are wrapped, negative chromas count as zero and tones outside 0..100 are clamped, both on construction and through the setters. No finite request panics or produces a color outside sRGB.",
 ["inputs"],"every combination of in-range and out-of-range values for the three coordinates","tests only use in-range requests",
 ["src/hct/hct.rs","src/hct/src/hct_solver.rs"],[("solve_to_int entry checks","src/hct/src/hct_solver.rs")],"",EX)
p("C04","Mutating an HCT color equals rebuilding it",
 "After any sequence of setting hue, chroma or tone, the object's color, hue, chroma and tone all describe the same color, which is the color one gets by building it anew from the set coordinate and the two coordinates the object reported before. Reading never changes the object.",
 ["histories"],"all histories of setter calls up to a depth, over an alphabet of values, from several starting colors","tests call single setters on one color",
 ["src/hct/hct.rs"],[("set_hue / set_chroma / set_tone / _set_internal_state","src/hct/hct.rs")],"breadth-first search over reachable colors plus all live sequences",HI)
p("C05","CAM16 matches its definition and inverts",
 "For every color and viewing condition, hue, chroma, lightness, brightness, colorfulness, saturation and the uniform-space coordinates equal the published CAM16 equations. Rebuilding from lightness/chroma/hue or from the uniform coordinates gives the same attributes and the same color back, and the distance is the CAM16-UCS distance.",
 ["inputs","configurations"],"all 2^24 colors under default conditions; a lattice of colors under a grid of viewing conditions; all pairs of a lattice for distance","tests check three primaries plus black and white under default conditions",
 ["src/hct/cam16.rs"],[("Cam16::from_xyz_in_viewing_conditions, from_jch*, from_ucs*, xyz_in_viewing_conditions, distance","src/hct/cam16.rs")],"floating tolerance 1e-6 or tighter",EX)
p("C06","sRGB, XYZ, L*a*b* and channel conversions are exact and invertible",
 "Splitting a color into channels, converting it to linear RGB, XYZ, L*a*b* or L*, follows the sRGB and CIE definitions, and converting back restores every 24-bit color exactly. Values outside the gamut are clipped per channel, and alpha is carried or ignored as documented.",
 ["inputs"],"all 2^24 colors, all alphas on a lattice, dense grids of free XYZ and L*a*b* values","tests check a few values and an unsaturated grid",
 ["src/utils/color_utils.rs"],[("xyz_from_argb, argb_from_xyz, lab_from_argb, argb_from_lab, linearized, delinearized","src/utils/color_utils.rs")],"complete on 24-bit colors",EX)
p("C07","Tone and luminance are exact inverses on one increasing scale",
 "Luminance from tone and tone from luminance follow the CIE definition, are inverse to each other, and increase strictly over 0..100. A grey made from a tone has that tone up to 8-bit rounding, and tones beyond the ends give black or white.",
 ["inputs"],"tones and luminances on grids of millions of points, the knee included, plus out-of-range tones","tests check about 60 listed values",
 ["src/utils/color_utils.rs"],[("y_from_lstar, lstar_from_y, argb_from_lstar, lstar_from_argb","src/utils/color_utils.rs")],"",EX)
p("C08","Angles and numeric helpers are total and in range",
 "Sanitizing any integer or finite angle gives an equivalent angle in [0,360); the difference of two angles is the shorter arc, and the rotation direction is the one that shortens it. Clamping, interpolation, sign and the matrix product follow their definitions for every argument.",
 ["inputs"],"integers and doubles including extremes, signed zeros and denormals; all pairs of whole-degree and half-degree angles","tests check one fixed list of rotation directions",
 ["src/utils/math_utils.rs"],[("sanitize_degrees_*, difference_degrees, rotation_direction, lerp, clamp_*, matrix_multiply","src/utils/math_utils.rs")],"",EX)
p("C09","Hex text and colors convert both ways without loss",
 "Every color's hex text is its six hexadecimal digits in upper case, with or without the leading sign as asked, and parsing that text (either case, with or without the sign) gives back the same red, green and blue. Text that is not hexadecimal is reported as unparsable and never panics.",
 ["inputs"],"all 2^24 colors; all strings up to 6-7 characters over a mixed alphabet","no test touches it",
 ["src/utils/string_utils.rs"],[("hex_from_argb, argb_from_hex","src/utils/string_utils.rs")],"complete on 24-bit colors",EX)
p("C10","Viewing conditions follow CAM16 and keep their defaults",
 "The factors derived from white point, adapting luminance, background, surround and discounting equal the CAM16 definitions, with omitted values meaning the documented sRGB defaults. Translating a color into other viewing conditions follows CAM16, and the default conditions change no color.",
 ["configurations","inputs"],"a grid of viewing conditions times a lattice of colors","tests use default conditions and a couple of relative-color examples",
 ["src/hct/viewing_conditions.rs","src/hct/hct.rs"],[("ViewingConditions::make","src/hct/viewing_conditions.rs"),("Hct::in_viewing_conditions","src/hct/hct.rs")],"",EX)
p("C11","Contrast primitives reach the requested ratio or say they cannot",
 "The contrast ratio of two tones is the WCAG ratio and is symmetric; the lighter and darker tones for a ratio reach it on the right side or report that no tone does, and the unsafe forms fall back to white or black. The foreground chosen for a background reaches the ratio if any tone can and otherwise is the best of the two sides, and contrast curves interpolate between their four values and are constant beyond the ends.",
 ["inputs"],"all tones in and out of range times all ratios 1..21 on dense grids; all curve levels from -2 to 2","tests check a dozen points",
 ["src/contrast/contrast.rs","src/dynamiccolor/dynamic_color.rs","src/dynamiccolor/src/contrast_curve.rs"],[("ratio_of_tones, lighter, darker","src/contrast/contrast.rs"),("foreground_tone, enable_light_foreground, tone_prefers_light_foreground","src/dynamiccolor/dynamic_color.rs"),("ContrastCurve::get","src/dynamiccolor/src/contrast_curve.rs")],"",EX)
p("C12","Every color role has the tone of the design specification",
 "For every variant, source color, brightness and contrast level, each of the 54 color roles resolves to the tone the Material design specification gives it, and its color is that tone rendered from the palette the specification names. Fidelity and content containers track the source color as specified, and monochrome uses its own tones.",
 ["configurations","inputs"],"9 variants x source colors x light/dark x contrast levels x 54 roles","tests check a few variants with two source colors at three contrast levels and only minimum contrast",
 ["src/dynamiccolor/material_dynamic_colors.rs","src/dynamiccolor/dynamic_color.rs"],[("role definitions","src/dynamiccolor/material_dynamic_colors.rs"),("DynamicColor::get_tone / get_hct","src/dynamiccolor/dynamic_color.rs")],"model: independent executable restatement of the role table and tone resolution",CF)
p("C13","Text and icons stay legible on their backgrounds in every theme",
 "In every theme and at every contrast level, each foreground role keeps the contrast ratio its contrast curve demands against each of its backgrounds (or the best ratio any tone could reach), both in tone and in the rendered colors. Primary text stays legible on every surface container.",
 ["configurations","inputs"],"9 variants x source colors x light/dark x contrast levels x all foreground/background pairs","scheme correctness tests sample 2 source colors and 4 contrast levels with a fixed list of pairs",
 ["src/dynamiccolor/material_dynamic_colors.rs","src/dynamiccolor/dynamic_color.rs"],[("DynamicColor::get_tone contrast adjustment","src/dynamiccolor/dynamic_color.rs")],"intrinsic check, independent of the role model",CF)
p("C14","Custom roles obey tone pairs, backgrounds and polarity",
 "For application-defined roles, a tone pair keeps its required distance in the required direction whenever 0..100 leaves room, both members avoid the awkward 50s and stay on one side when asked to stay together, and each still contrasts with its background. A role with one or two backgrounds contrasts with both where that is possible, and a role without a background keeps its tone at every contrast level.",
 ["configurations"],"initial tones x background tones x distance x polarity x stay-together x curve x brightness x contrast level","no test defines custom roles or pairs",
 ["src/dynamiccolor/dynamic_color.rs","src/dynamiccolor/src/tone_delta_pair.rs"],[("DynamicColor::get_tone","src/dynamiccolor/dynamic_color.rs")],"",CF)
p("C15","A scheme's accessors return the role they name, from its palette",
 "For every theme, each named accessor of a scheme returns exactly the color of the role with that name, and each role is drawn from the palette the specification assigns to it. Asking through the role object, through the generic accessor or through the named accessor gives one answer.",
 ["configurations","inputs"],"9 variants x source colors x light/dark x contrast levels x 54 accessors","tests call a handful of accessors",
 ["src/dynamiccolor/dynamic_scheme.rs","src/dynamiccolor/material_dynamic_colors.rs"],[("DynamicScheme::get_*","src/dynamiccolor/dynamic_scheme.rs")],"",CF)
p("C16","Each scheme variant derives its palettes as specified, from any color",
 "For every source color, brightness and contrast level, each of the nine variants builds its six palettes with the hue rotation and chroma the design specification gives it, with content and fidelity taking their tertiary hue from color temperature. No source color makes a variant fail, and brightness and contrast do not change palettes.",
 ["inputs","configurations"],"9 variants x a lattice of source colors plus greys and hues next to 0/360, light/dark, contrast levels","tests check rotations of three hues and a few variants",
 ["src/scheme/*.rs","src/dynamiccolor/dynamic_scheme.rs"],[("Scheme*::new","src/scheme"),("DynamicScheme::get_rotated_hue","src/dynamiccolor/dynamic_scheme.rs")],"",CF)
p("C17","Resolving a role never depends on what was resolved before",
 "A role object may be resolved against any number of schemes in any order: each answer is the one a newly made role gives for that scheme. Schemes that differ in a single ingredient are never confused, however many other schemes were resolved in between.",
 ["histories"],"all sequences of schemes (differing in one field) resolved by one role object, up to depth 6-9","tests resolve each role object once",
 ["src/dynamiccolor/dynamic_color.rs","src/dynamiccolor/dynamic_scheme.rs"],[("DynamicColor::get_hct cache","src/dynamiccolor/dynamic_color.rs"),("DynamicScheme Eq/Hash","src/dynamiccolor/dynamic_scheme.rs")],"",HI)
p("C18","Tonal palettes keep hue and chroma at every tone",
 "For every hue and chroma, a tonal palette answers each tone, whole or fractional, with the color of that hue, chroma and tone, as ARGB and as HCT alike. Its key color is the tone closest to the middle at which the requested chroma (or the closest reachable one) exists, and a palette made from a color has exactly that color's hue and chroma.",
 ["inputs"],"grid of hues x chromas x all whole and fractional tones","tests check a few hues and tones",
 ["src/palettes/tonal_palette.rs"],[("TonalPalette::of, from_hct, get, get_hct, create_key_color","src/palettes/tonal_palette.rs")],"",EX)
p("C19","Palette answers do not depend on earlier queries",
 "Whatever has been asked of a palette before, in whatever order, each query gives the answer an unused palette gives, and equality, hash and text form stay the same. Turning a palette into its list of common tones and back is lossless, and a palette built from a list returns exactly the listed colors and otherwise the hue and chroma of its most colorful entry.",
 ["histories","inputs"],"all sequences of 4 operations over get/get_hct/list/text/compare/clone on six kinds of palettes","tests query fresh palettes in one order",
 ["src/palettes/tonal_palette.rs"],[("TonalPalette cache, from_list, get_as_list, Eq/Hash/ToString","src/palettes/tonal_palette.rs")],"",HI)
p("C20","Core palettes and classic schemes follow the specification",
 "For every source color, the plain and content core palettes have the specified hue and chroma for each of their six palettes and survive conversion to a list and back. The classic light and dark schemes built from them give each of their 29 colors as the specified tone of the specified palette.",
 ["inputs","configurations"],"lattice of source colors x plain/content x light/dark x 29 colors","tests check blue and a few list conversions",
 ["src/palettes/core_palette.rs","src/scheme/scheme.rs"],[("CorePalette::of/content_of/from_list/as_list","src/palettes/core_palette.rs"),("Scheme::light/dark...","src/scheme/scheme.rs")],"",CF)
p("C21","Color temperature ranks, complements and analogues are right",
 "Raw temperature follows its formula for every color; the coldest and warmest colors are the extremes of the source's hue circle; relative temperature runs from 0 to 1 between them. The complement has the mirrored relative temperature across the circle, and analogous colors are the requested number, centered on the source and evenly spaced in temperature, for every source, count and division.",
 ["inputs"],"all 2^24 colors for raw temperature; source lattice x counts x divisions","tests check a few sources with default counts",
 ["src/temperature/temperature_cache.rs"],[("TemperatureCache::*","src/temperature/temperature_cache.rs")],"ties in temperature tolerated either way",EX)
p("C22","Temperature queries are total and order-independent",
 "Any sequence of temperature queries on one object answers each query as a fresh object would. No source color, greys and hues next to 0 or 360 degrees included, makes any query fail or hang.",
 ["histories","inputs"],"all query sequences up to depth 4-5 for several sources; all near-0/360 hues and all greys","tests ask one query per object",
 ["src/temperature/temperature_cache.rs"],[("TemperatureCache memo fields","src/temperature/temperature_cache.rs")],"",HI)
p("C23","Disliked colors are exactly the specified zone and get fixed",
 "A color is disliked exactly when its hue, chroma and tone fall in the specified dark yellow-green zone. Fixing a disliked color keeps its hue and chroma, lightens it to a liked color, and leaves every liked color untouched.",
 ["inputs"],"all 2^24 colors","tests check ten swatches",
 ["src/dislike/dislike_analyzer.rs"],[("is_disliked, fix_if_disliked","src/dislike/dislike_analyzer.rs")],"complete",EX)
p("C24","Blending and harmonizing move colors the specified way",
 "Harmonizing rotates the design color's hue toward the source by half their distance and at most 15 degrees, by the shorter way, keeping chroma and tone. Blending in CAM16 interpolates linearly with exact endpoints, hue blending takes the blended hue with the first color's chroma and tone, and blending a color with itself changes nothing.",
 ["inputs"],"all ordered pairs of a color lattice x blend amounts; all lattice colors with themselves","tests check eight color pairs",
 ["src/blend/blend.rs"],[("harmonize, hct_hue, cam16_ucs","src/blend/blend.rs")],"",EX)
p("C25","Histogram quantizers count exactly and reduce by variance",
 "The counting quantizer returns every opaque color with its exact number of pixels. The box-cutting quantizer ignores transparent pixels, never returns more colors than asked, returns exactly the image's colors when they fit and are distinguishable, and otherwise the rounded mean colors of boxes obtained by repeatedly splitting the box of greatest variance at the best plane, whatever the image size.",
 ["inputs"],"all pixel sequences to depth 7-9; all subsets and multiplicities of color alphabets; all pairs of cell-edge colors; pictures up to 8 million pixels","tests check one to three pure colors",
 ["src/quantize/quantizer_map.rs","src/quantize/quantizer_wu.rs"],[("QuantizerMap::quantize","src/quantize/quantizer_map.rs"),("QuantizerWu::{construct_histogram,compute_moments,create_boxes,cut,maximize,create_result}","src/quantize/quantizer_wu.rs")],"model: exact-integer reference reduction with nondeterministic tie-breaking",CF)
p("C26","Clustering loses no pixel and reports true means and counts",
 "In a clustering result the populations add up to the number of pixels, there are at most as many colors as asked, every distinct pixel maps to a reported color, and each reported color is the perceptual mean of the pixels mapped to it with their exact count. An image with no more distinguishable colors than asked comes back exactly, more iterations never give a worse fit, and at convergence every pixel belongs to its nearest color.",
 ["inputs","configurations"],"all pixel sequences to depth 5-6 x number of colors x starting clusters x iterations; all subsets of alphabets through the combined quantizer","tests check one to three pure colors",
 ["src/quantize/quantizer_wsmeans.rs","src/quantize/quantizer_celebi.rs"],[("QuantizerWsmeans::quantize","src/quantize/quantizer_wsmeans.rs"),("QuantizerCelebi::quantize","src/quantize/quantizer_celebi.rs")],"",EX)
p("C27","Quantizing and ranking are reproducible",
 "The same image and parameters always give the same colors, populations, mapping and ranking: no answer depends on hash order, on the order in which equal pixels are listed for the histogram quantizers, or on what a quantizer object processed before.",
 ["histories","schedules"],"every iteration order of population maps of 3-4 colors, all permutations of 5 pixels, all sequences of images through one quantizer object","tests run each image once, and hash order changes from run to run",
 ["src/score/score.rs","src/quantize/quantizer_celebi.rs","src/quantize/quantizer_wu.rs"],[("HashMap iteration","src/score/score.rs"),("construct_histogram reset","src/quantize/quantizer_wu.rs")],"",HI)
p("C28","Ranking theme colors follows the documented score",
 "Ranking returns between one and the requested number of colors, best first by the documented mix of neighborhood population and chroma, chosen as far apart in hue as possible and never closer than 15 degrees. With filtering, colors with too little chroma or usage never appear, and if nothing is suitable (or nothing is given) the fallback alone is returned.",
 ["inputs","configurations"],"all population assignments to color sets x filter x count; all hue neighborhoods; colour wheels up to 40 colors","tests check about ten example maps",
 ["src/score/score.rs"],[("Score::score","src/score/score.rs")],"reference ranking; equal scores may come in any order",CF)
p("C29","Equality, hashing and text forms identify values faithfully",
 "Colors, palettes, core palettes and schemes compare equal exactly when their ingredients are equal, equal values hash alike (both zeros included), and using a value never changes its identity. Changing any single ingredient of a scheme makes it unequal, and the text form of a color is its rounded hue, chroma and tone.",
 ["inputs","configurations"],"all pairs over grids of colors, palettes and schemes; all single-field changes","tests compare a few palettes",
 ["src/hct/hct.rs","src/palettes/tonal_palette.rs","src/palettes/core_palette.rs","src/dynamiccolor/dynamic_scheme.rs"],[("PartialEq/Hash/ToString impls","src")],"hash agreement claimed between palettes made the same way",CF)
p("C30","From image to theme the whole pipeline is total and faithful",
 "Quantizing any image, ranking its colors and building a theme never fails: the theme's source is a color of the image, or the fallback only when the image has no suitable color. Every role of the theme is an opaque color, and repeating the pipeline, resolving roles in any order, gives the same theme.",
 ["inputs","configurations"],"every subset of a color alphabet as image x variant x brightness x contrast, plus pictures of many colors","no test connects the stages",
 ["src/quantize","src/score/score.rs","src/scheme","src/dynamiccolor"],[("composition of public entry points","src/lib.rs")],"",CF)

p("C31","Color roles declare what the specification gives them",
 "For every theme, each of the 54 public color roles carries its own specified name, the palette it is drawn from, its starting tone, whether it is a background, the backgrounds it must be read on, the contrast it must keep at each contrast level, and the tone distance it keeps from its partner. The highest surface is the bright surface in dark themes and the dim surface in light ones.",
 ["configurations","inputs"],"54 roles x 9 variants, hand-assembled palettes included, x source colors x light/dark x contrast levels","tests look at a handful of resolved colors; a wrong background, flag or curve shows only in schemes that stress it",
 ["src/dynamiccolor/material_dynamic_colors.rs","src/dynamiccolor/dynamic_color.rs"],[("MaterialDynamicColors::* declarations","src/dynamiccolor/material_dynamic_colors.rs"),("MaterialDynamicColors::highest_surface","src/dynamiccolor/material_dynamic_colors.rs")],"",CF)

if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for x in P:
            f.write(json.dumps(dict(id=x["id"],title=x["title"],statement=x["stmt"],quantifier=dict(over=x["over"],text=x["qtext"]),why_tests_cant=x["why"],
              anchors=dict(files=x["files"],mechanism=[dict(name=a,where=b) for a,b in x["mech"]])))+"\n")
    m=dict(version=1,setup_cmd="bash /verif/run.sh build",checks=[],not_applicable=[],
      notes="One explorer binary (mc/) built against /repo's working tree; no hooks are needed because every module is public. Bounds, oracles and costs: DESIGN.md.")
    for x in P:
        m["checks"].append(dict(property=x["id"],quick_cmd=f"bash /verif/run.sh {x['id']} quick",thorough_cmd=f"bash /verif/run.sh {x['id']} thorough",
          technique=x["technique"],level="model_checking",level_note=(x["note"] or "exhaustive within the stated grid; see evidence sections for exact sizes")))
    json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
