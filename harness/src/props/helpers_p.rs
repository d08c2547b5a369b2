//! C25: lengths, colours and picture sizes mean the same in every notation.
//! C29: ready-made helpers (positions, tables, deck outlines, shapes) produce what they are given.
use super::deck_p::{check_slide_text, e, norm, open, para_text, sp_text, tree};
use crate::engine::*;
use crate::gen;
use crate::opc::Pkg;
use crate::xml::El;
use ppt_rs::core::{Dimension, FlexPosition, FlexSize, ToXml};
use ppt_rs::elements::{Color, Position, RgbColor, SchemeColor, Size, Transform};
use ppt_rs::generator::images::ImageEffect;
use ppt_rs::generator::*;
use ppt_rs::helpers::{self, ColorValue, QuickTable, ShapeExt};
use ppt_rs::prelude::{self, layouts, QuickPptx};
use ppt_rs::templates;

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    ensure!(got == want, "{what}: expected {want:?}, got {got:?}");
    Ok(())
}
/// `got` is `exact` up to one unit (lengths are whole numbers), at the ends of the range when it does not fit.
fn near(what: &str, got: f64, exact: f64, max: f64) -> Res {
    let x = exact.clamp(0.0, max);
    ensure!((got - x).abs() <= 1.0, "{what}: expected {x}, got {got}");
    Ok(())
}
const IN: f64 = 914_400.0;
const CM: f64 = 360_000.0;
const PT: f64 = 12_700.0;
const W: f64 = 9_144_000.0;
const H: f64 = 6_858_000.0;
const MAX: f64 = u32::MAX as f64;

fn length(s: &mut Src) -> f64 {
    match s.below(10) {
        0 => 0.0,
        1 => s.range(1, 10) as f64,
        2 => s.range(0, 1000) as f64 / 10.0,
        3 => s.range(-500, 0) as f64 / 100.0,
        4 => s.range(0, 1_000_000_000) as f64,
        5 => 1.0 / (1 + s.below(1000)) as f64,
        _ => s.range(0, 200_000) as f64 / 1000.0,
    }
}
/// A dimension and what it is in EMU for a reference length.
fn dimension(s: &mut Src) -> (Dimension, Box<dyn Fn(f64) -> f64>) {
    let v = length(s);
    match s.below(6) {
        0 => {
            let k = s.below(1 << 32) as u32;
            (if s.bool() { Dimension::emu(k) } else { k.into() }, Box::new(move |_| k as f64))
        }
        1 => (Dimension::inches(v), Box::new(move |_| v * IN)),
        2 => (Dimension::cm(v), Box::new(move |_| v * CM)),
        3 => (Dimension::pt(v), Box::new(move |_| v * PT)),
        4 => {
            let r = s.range(-200, 1200) as f64 / 1000.0;
            (Dimension::ratio(r), Box::new(move |k| r.clamp(0.0, 1.0) * k))
        }
        _ => {
            let r = s.range(-200, 1200) as f64 / 10.0;
            (Dimension::percent(r), Box::new(move |k| (r / 100.0).clamp(0.0, 1.0) * k))
        }
    }
}
fn place(el: &El) -> Vec<f64> {
    let f = el.els().find(|k| k.name == "xfrm").or_else(|| el.child("spPr").and_then(|s| s.child("xfrm")));
    let g = |c: &str, a: &str| f.and_then(|f| f.child(c)).and_then(|k| k.attr(a)).and_then(|v| v.parse().ok()).unwrap_or(-1.0);
    vec![g("off", "x"), g("off", "y"), g("ext", "cx"), g("ext", "cy")]
}
fn save(title: &str, slides: Vec<SlideContent>) -> Result<(Pkg, Vec<String>), Fail> {
    let d = gen::Deck { title: title.into(), slides, settings: None };
    let b = super::deck_p::build(&d)?;
    open(&d, &b)
}
fn lengths(c: &mut Ctx) -> Res {
    let s = &mut c.s;
    // plain conversions
    let v = length(s);
    let k = s.below(1 << 32) as u32;
    near("inches", prelude::inches(v) as f64, v * IN, MAX)?;
    near("cm", prelude::cm(v) as f64, v * CM, MAX)?;
    near("pt", prelude::pt(v) as f64, v * PT, MAX)?;
    near("inches_to_emu", shapes::inches_to_emu(v) as f64, v * IN, MAX)?;
    near("cm_to_emu", shapes::cm_to_emu(v) as f64, v * CM, MAX)?;
    near("emu back", shapes::inches_to_emu(shapes::emu_to_inches(k)) as f64, k as f64, MAX)?;
    let (w, h) = (length(s), length(s));
    let t = Transform::from_inches(v, w, h, v);
    let p = Position::from_cm(v, w);
    let z = Size::from_cm(h, v);
    for (n, got, want) in [
        ("x inches", t.position.x, v * IN),
        ("y inches", t.position.y, w * IN),
        ("width inches", t.size.width, h * IN),
        ("height inches", t.size.height, v * IN),
        ("x cm", p.x, v * CM),
        ("y cm", p.y, w * CM),
        ("width cm", z.width, h * CM),
        ("height cm", z.height, v * CM),
    ] {
        ensure!((got as f64 - want).abs() <= 1.0, "{n}: expected {want}, got {got}");
    }
    for (n, got, want) in [("x", t.position.x_inches(), v), ("y", t.position.y_inches(), w), ("width", t.size.width_inches(), h), ("height", t.size.height_inches(), v)] {
        ensure!((got - want).abs() <= 2.0 / IN, "{n} back in inches: expected {want}, got {got}");
    }
    let deg = s.range(-720, 720) as f64 + *s.pick(&[0.0, 0.5, 0.25]);
    let x = e(crate::xml::parse(&format!("<r xmlns:a=\"a\">{}</r>", t.with_rotation(deg).to_xml())))?;
    let Some(f) = x.child("xfrm") else { return fail("no transform") };
    eq("rotation", f.attr("rot").unwrap_or("0").parse::<i64>().ok(), Some((deg * 60000.0) as i64))?;
    eq("transform", place(&x), vec![t.position.x as f64, t.position.y as f64, t.size.width as f64, t.size.height as f64])?;
    // dimensions with any reference
    let (d, f) = dimension(s);
    let r = s.below(60_000_000) as u32;
    near("dimension", d.to_emu(r) as f64, f(r as f64), MAX)?;
    let (d2, f2) = dimension(s);
    let (a, b) = FlexPosition::new(d.clone(), d2.clone()).to_emu_with(r, k);
    near("flexible x", a as f64, f(r as f64), MAX)?;
    near("flexible y", b as f64, f2(k as f64), MAX)?;
    let (a, b) = FlexSize::new(d.clone(), d2.clone()).to_emu();
    near("flexible width", a as f64, f(W), MAX)?;
    near("flexible height", b as f64, f2(H), MAX)?;
    // what arrives in the file
    let ty = *s.pick(&[ShapeType::Rectangle, ShapeType::Ellipse, ShapeType::Cloud]);
    let mut want = vec![];
    let mut all = vec![];
    let n = s.len(1, 4);
    for _ in 0..n {
        let (x, fx) = dimension(s);
        let (y, fy) = dimension(s);
        let (w, fw) = dimension(s);
        let (h, fh) = dimension(s);
        let sh = match s.below(3) {
            0 => Shape::from_dimensions(ty, x, y, w, h),
            1 => prelude::shapes::dim(ty, x, y, w, h),
            _ => Shape::new(ty, 1, 2, 3, 4).at(x, y).with_dimensions(w, h),
        };
        want.push(vec![fx(W), fy(H), fw(W), fh(H)]);
        all.push(sh);
    }
    let m = s.len(0, 4);
    for _ in 0..m {
        let (x, y, w, h) = (length(s), length(s), length(s), length(s));
        let i = vec![x * IN, y * IN, w * IN, h * IN];
        let (sh, v) = match s.below(7) {
            0 => (helpers::rect(x, y, w, h), i),
            1 => (helpers::ellipse(x, y, w, h), i),
            2 => (helpers::circle(x, y, w), vec![i[0], i[1], i[2], i[2]]),
            3 => (prelude::shapes::rect(x, y, w, h), i),
            4 => (prelude::shapes::rect_ratio(x, y, w, h), vec![x, y, w, h].into_iter().zip([W, H, W, H]).map(|(a, b)| a.clamp(0.0, 1.0) * b).collect()),
            5 => (prelude::shapes::rounded_rect(x, y, w, h), i),
            _ => (helpers::triangle(x, y, w, h), i),
        };
        all.push(sh);
        want.push(v);
    }
    c.note(|| format!("{v} {k} {deg} {want:?}"));
    c.nontrivial(v != 0.0);
    let (p, sl) = save("lengths", vec![SlideContent::new("t").layout(SlideLayout::TitleOnly).with_shapes(all)])?;
    let t = e(tree(&p, &sl[0]))?;
    ensure!(t.sps.len() == want.len() + 1, "{} shapes in the file", t.sps.len());
    for (i, (sp, w)) in t.sps[1..].iter().zip(&want).enumerate() {
        for (n, (g, x)) in ["x", "y", "width", "height"].iter().zip(place(sp).into_iter().zip(w)) {
            near(&format!("shape {i}: {n}"), g, *x, MAX)?;
        }
    }
    Ok(())
}
fn step(what: &str, got: [u8; 4], want: [f64; 4]) -> Res {
    for i in 0..4 {
        ensure!((got[i] as f64 - want[i]).abs() <= 1.001, "{what}: expected about {want:?}, got {got:?}");
    }
    Ok(())
}
fn colours(c: &mut Ctx) -> Res {
    let s = &mut c.s;
    let byte = |s: &mut Src| *s.pick(&[0u8, 255, 1, 254, 127, 128]);
    let any = |s: &mut Src| if s.chance(30) { byte(s) } else { s.below(256) as u8 };
    let (r, g, b, a) = (any(s), any(s), any(s), any(s));
    let (r2, g2, b2, a2) = (any(s), any(s), any(s), any(s));
    let q = match s.below(5) {
        0 => 0.0,
        1 => 1.0,
        2 => *s.pick(&[-3.0, 2.0, f32::INFINITY, f32::NEG_INFINITY]),
        _ => s.range(0, 1000) as f32 / 1000.0,
    };
    let k = q.clamp(0.0, 1.0) as f64;
    let v = ColorValue::rgba(r, g, b, a);
    let o = ColorValue::rgba(r2, g2, b2, a2);
    let arr = |v: ColorValue| [v.r, v.g, v.b, v.a];
    let f = |v: ColorValue| arr(v).map(|x| x as f64);
    // notations
    let hex = format!("{r:02X}{g:02X}{b:02X}");
    let as_written = match s.below(4) {
        0 => hex.clone(),
        1 => format!("#{hex}"),
        2 => hex.to_lowercase(),
        _ => format!("#{}", hex.to_lowercase()),
    };
    c.note(|| format!("{as_written} alpha {a} with {r2},{g2},{b2},{a2} by {q}"));
    c.nontrivial(k > 0.0 && k < 1.0);
    let s = &mut c.s;
    eq("hex", v.to_hex(), hex.clone())?;
    eq("hex with alpha", v.to_hex_alpha(), format!("{hex}{a:02X}"))?;
    eq("from hex", arr(ColorValue::from_hex(&as_written)), [r, g, b, 255])?;
    eq("from hex with alpha", arr(ColorValue::from_hex(&format!("{as_written}{a:02x}"))), [r, g, b, a])?;
    eq("colour of hex", RgbColor::from_hex(&as_written), Some(RgbColor::new(r, g, b)))?;
    eq("hex of colour", RgbColor::new(r, g, b).to_hex(), hex.clone())?;
    eq("hex helper", helpers::hex(&as_written), Color::rgb(r, g, b))?;
    eq("to colour", v.to_color(), helpers::rgb(r, g, b))?;
    eq("colour enum", Color::from_hex(&as_written), Some(Color::rgb(r, g, b)))?;
    // arithmetic
    let lighter: Vec<f64> = f(v)[..3].iter().map(|x| x + (255.0 - x) * k).collect();
    step("lighter", arr(v.lighter(q)), [lighter[0], lighter[1], lighter[2], a as f64])?;
    let darker: Vec<f64> = f(v)[..3].iter().map(|x| x * (1.0 - k)).collect();
    step("darker", arr(v.darker(q)), [darker[0], darker[1], darker[2], a as f64])?;
    let m: Vec<f64> = f(v).iter().zip(f(o)).map(|(x, y)| x * (1.0 - k) + y * k).collect();
    step("mix", arr(v.mix(&o, q)), [m[0], m[1], m[2], m[3]])?;
    step("opacity", arr(v.opacity(q)), [r as f64, g as f64, b as f64, 255.0 * k])?;
    let pc = s.below(256) as u8;
    step("transparent", arr(v.transparent(pc)), [r as f64, g as f64, b as f64, 255.0 * (100 - pc.min(100)) as f64 / 100.0])?;
    let y = 0.299 * r as f64 + 0.587 * g as f64 + 0.114 * b as f64;
    step("grayscale", arr(v.grayscale()), [y, y, y, a as f64])?;
    eq("invert twice", arr(v.invert().invert()), arr(v))?;
    eq("invert", arr(v.invert()), [255 - r, 255 - g, 255 - b, a])?;
    // ends are exact
    eq("lighter by nothing", arr(v.lighter(0.0)), arr(v))?;
    eq("lighter by all", arr(v.lighter(1.0)), [255, 255, 255, a])?;
    eq("darker by nothing", arr(v.darker(0.0)), arr(v))?;
    eq("darker by all", arr(v.darker(1.0)), [0, 0, 0, a])?;
    eq("mix with none of the other", arr(v.mix(&o, 0.0)), arr(v))?;
    eq("mix with all of the other", arr(v.mix(&o, 1.0)), arr(o))?;
    eq("opaque", arr(v.opacity(1.0)), [r, g, b, 255])?;
    eq("see-through", arr(v.opacity(0.0)), [r, g, b, 0])?;
    // more is never less
    let q2 = s.range(0, 1000) as f32 / 1000.0;
    let (lo, hi) = (q2.min(k as f32), q2.max(k as f32));
    for i in 0..3 {
        ensure!(arr(v.lighter(lo))[i] <= arr(v.lighter(hi))[i], "lighter {hi} is darker than lighter {lo}");
        ensure!(arr(v.darker(lo))[i] >= arr(v.darker(hi))[i], "darker {hi} is lighter than darker {lo}");
    }
    ensure!(v.opacity(lo).a <= v.opacity(hi).a, "opacity {hi} is less than {lo}");
    // arbitrary text is a colour only if it is one, and never a crash
    let junk: String = {
        let n = s.len(0, 9);
        (0..n).map(|_| *s.pick(&['0', '9', 'a', 'F', 'g', '#', '+', '-', ' ', 'é', '中', '😀', '\u{0}'])).collect()
    };
    let core = junk.strip_prefix('#').unwrap_or(&junk);
    let ok = core.len() == 6 && core.bytes().all(|b| b.is_ascii_hexdigit());
    let hashes = core.starts_with('#');
    let got = guard(|| RgbColor::from_hex(&junk)).map_err(|m| Fail { msg: format!("from_hex({junk:?}): {}", m.msg) })?;
    ensure!(hashes || got.is_some() == ok, "from_hex({junk:?}) is {got:?}");
    let (x, y) = guard(|| (ColorValue::from_hex(&junk), helpers::hex(&junk))).map_err(|m| Fail { msg: format!("hex {junk:?}: {}", m.msg) })?;
    if ok {
        eq("hex of text", x.to_color(), y.clone())?;
        eq("hex of text", Some(y), got.map(Color::Rgb))?;
    }
    let w = guard(|| Color::from_hex(&junk)).map_err(|m| Fail { msg: format!("Color::from_hex({junk:?}): {}", m.msg) })?;
    ensure!(hashes || w.is_some() == ok, "Color::from_hex({junk:?}) is {w:?}");
    // names
    let (n, f, h) = *s.pick(NAMES);
    eq(n, f().to_hex_alpha(), format!("{h}FF"))?;
    let (n, k, h) = match s.below(5) {
        0 => ("black", RgbColor::black(), "000000"),
        1 => ("white", RgbColor::white(), "FFFFFF"),
        2 => ("red", RgbColor::red(), "FF0000"),
        3 => ("blue", RgbColor::blue(), "0000FF"),
        _ => ("black", RgbColor::default(), "000000"),
    };
    eq(n, k.to_xml(), format!(r#"<a:srgbClr val="{h}"/>"#))?;
    {
        use SchemeColor::*;
        let (k, n) = s.pick(&[
            (Accent1, "accent1"), (Accent2, "accent2"), (Accent3, "accent3"), (Accent4, "accent4"), (Accent5, "accent5"), (Accent6, "accent6"), (Dark1, "dk1"), (Dark2, "dk2"), (Light1, "lt1"),
            (Light2, "lt2"), (Hyperlink, "hlink"), (FollowedHyperlink, "folHlink"), (Background1, "bg1"), (Background2, "bg2"), (Text1, "tx1"), (Text2, "tx2"),
        ]).clone();
        eq("theme colour", k.to_xml(), format!(r#"<a:schemeClr val="{n}"/>"#))?;
    }
    // what arrives in the file
    let pt = s.range(0, 400) as f64 / 4.0;
    let sh = helpers::rect(1.0, 1.0, 1.0, 1.0).fill(v.to_color()).stroke(o.to_color(), pt).text("x");
    let (p, sl) = save("colours", vec![SlideContent::new("t").layout(SlideLayout::TitleOnly).with_shapes(vec![sh])])?;
    let t = e(tree(&p, &sl[0]))?;
    let Some(pr) = t.sps.get(1).and_then(|k| k.child("spPr")) else { return fail("no shape in the file") };
    let col = |k: Option<&El>| k.and_then(|k| k.path(&["solidFill", "srgbClr"])).and_then(|k| k.attr("val")).map(|k| k.to_uppercase());
    eq("fill in the file", col(Some(pr)), Some(hex))?;
    eq("line in the file", col(pr.child("ln")), Some(o.to_hex()))?;
    let w: f64 = pr.child("ln").and_then(|l| l.attr("w")).and_then(|v| v.parse().ok()).unwrap_or(-1.0);
    near("line width", w, pt * PT, MAX)
}
/// Colours by name: those of CSS and of the Material palette (shade 500).
const NAMES: &[(&str, fn() -> ColorValue, &str)] = {
    use ppt_rs::helpers::colors::*;
    &[
        ("red", red, "FF0000"), ("blue", blue, "0000FF"), ("yellow", yellow, "FFFF00"), ("cyan", cyan, "00FFFF"), ("magenta", magenta, "FF00FF"), ("white", white, "FFFFFF"), ("black", black, "000000"),
        ("gray", gray, "808080"), ("grey", grey, "808080"), ("light_gray", light_gray, "D3D3D3"), ("light_grey", light_grey, "D3D3D3"), ("silver", silver, "C0C0C0"), ("orange", orange, "FFA500"),
        ("purple", purple, "800080"), ("pink", pink, "FFC0CB"), ("brown", brown, "A52A2A"), ("navy", navy, "000080"), ("teal", teal, "008080"), ("olive", olive, "808000"), ("maroon", maroon, "800000"),
        ("lime", lime, "00FF00"), ("aqua", aqua, "00FFFF"),
        ("material_red", material_red, "F44336"), ("material_pink", material_pink, "E91E63"), ("material_purple", material_purple, "9C27B0"), ("material_indigo", material_indigo, "3F51B5"),
        ("material_blue", material_blue, "2196F3"), ("material_cyan", material_cyan, "00BCD4"), ("material_teal", material_teal, "009688"), ("material_green", material_green, "4CAF50"),
        ("material_lime", material_lime, "CDDC39"), ("material_amber", material_amber, "FFC107"), ("material_orange", material_orange, "FF9800"), ("material_brown", material_brown, "795548"),
        ("material_gray", material_gray, "9E9E9E"), ("material_grey", material_grey, "9E9E9E"),
    ]
};
/// Header bytes of a picture of the given size, and its format.
fn picture(s: &mut Src) -> (Vec<u8>, u64, u64, &'static str) {
    let small = |s: &mut Src| if s.chance(20) { *s.pick(&[1u64, 255, 256, 65535, 16384]) } else { 1 + s.below(5000) };
    let (w, h) = (small(s), small(s));
    let mut b: Vec<u8> = vec![];
    let pad = s.bytes(0, 40);
    match s.below(7) {
        0 => {
            b.extend(b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR");
            b.extend((w as u32).to_be_bytes());
            b.extend((h as u32).to_be_bytes());
            b.extend([8, 6, 0, 0, 0]);
            b.extend(pad);
            (b, w, h, "png")
        }
        1 => {
            b.extend(if s.bool() { b"GIF89a" } else { b"GIF87a" });
            b.extend((w as u16).to_le_bytes());
            b.extend((h as u16).to_le_bytes());
            b.extend([0, 0, 0]);
            b.extend(pad);
            (b, w.min(65535), h.min(65535), "gif")
        }
        2 | 3 => {
            b.extend([0xff, 0xd8]);
            let n = s.len(0, 5);
            for _ in 0..n {
                // segments before the frame: application data, tables, comments, with fill bytes
                let m = *s.pick(&[0xe0u8, 0xe1, 0xdb, 0xc4, 0xfe, 0xdd, 0xee]);
                let data = s.bytes(0, 30);
                for _ in 0..s.usize(3) {
                    b.push(0xff);
                }
                b.extend([0xff, m]);
                b.extend((data.len() as u16 + 2).to_be_bytes());
                b.extend(data);
            }
            // baseline, extended, progressive; Huffman or arithmetic
            b.extend([0xff, *s.pick(&[0xc0u8, 0xc0, 0xc2, 0xc1, 0xc9, 0xca]), 0, 17, 8]);
            b.extend((h as u16).to_be_bytes());
            b.extend((w as u16).to_be_bytes());
            b.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
            b.extend(pad);
            (b, w, h, "jpeg")
        }
        4 => {
            let top_down = s.chance(30);
            b.extend(b"BM");
            b.extend([0u8; 8]);
            b.extend(54u32.to_le_bytes());
            if s.chance(25) {
                b.extend(12u32.to_le_bytes());
                b.extend((w as u16).to_le_bytes());
                b.extend((h as u16).to_le_bytes());
                b.extend([1, 0, 24, 0]);
            } else {
                b.extend(40u32.to_le_bytes());
                b.extend((w as i32).to_le_bytes());
                b.extend((if top_down { -(h as i32) } else { h as i32 }).to_le_bytes());
                b.extend([1, 0, 24, 0]);
            }
            b.extend([0u8; 24]);
            (b, w, h, "bmp")
        }
        5 => {
            let (w, h) = (w.min(16383), h.min(16383));
            b.extend(b"RIFF\0\0\0\0WEBPVP8 \0\0\0\0");
            b.extend([0x30, 1, 0, 0x9d, 1, 0x2a]);
            let sc = s.below(4) as u16;
            b.extend((w as u16 | sc << 14).to_le_bytes());
            b.extend((h as u16 | sc << 14).to_le_bytes());
            b.extend(pad);
            b.extend([0u8; 8]);
            (b, w, h, "webp")
        }
        _ => {
            let (w, h) = (w.min(16384), h.min(16384));
            b.extend(b"RIFF\0\0\0\0WEBPVP8L\0\0\0\0\x2f");
            b.extend(((w as u32 - 1) | (h as u32 - 1) << 14 | (s.below(2) as u32) << 28).to_le_bytes());
            b.extend([0u8; 8]);
            b.extend(pad);
            (b, w, h, "webp")
        }
    }
}
fn pictures(c: &mut Ctx) -> Res {
    let (b, w, h, fmt) = picture(&mut c.s);
    c.label(fmt);
    c.note(|| format!("{fmt} {w}x{h}: {b:02x?}"));
    c.nontrivial(true);
    let f = c.file(&format!("p.{fmt}"));
    let _ = std::fs::write(&f, &b);
    let i = guard(|| Image::from_path(&f)).map_err(|m| Fail { msg: format!("from_path: {}", m.msg) })?;
    let i = match i {
        Ok(i) => i,
        Err(m) => return fail(format!("{fmt} of {w}x{h}: {m}")),
    };
    eq("size of the picture", (i.width as u64, i.height as u64), ((w * 9525).min(u32::MAX as u64), (h * 9525).min(u32::MAX as u64)))?;
    eq("format", i.format.to_lowercase().replace("jpg", "jpeg"), fmt.to_string())?;
    // scaling keeps the proportions
    let k = 1 + c.s.below(20_000_000) as u32;
    let (a, z) = (i.clone().scale_to_width(k), i.clone().scale_to_height(k));
    let r = h as f64 / w as f64;
    eq("scaled width", a.width, k)?;
    near("scaled height", a.height as f64, k as f64 * r, MAX)?;
    eq("scaled height", z.height, k)?;
    near("scaled width", z.width as f64, k as f64 / r, MAX)?;
    // the builder keeps everything it was told, in any order of calls
    let au = helpers::image(b.clone());
    let (x, y, bw, bh) = (gen::emu(&mut c.s), gen::emu(&mut c.s), gen::ext(&mut c.s), gen::ext(&mut c.s));
    let mut bu = au.at(x, y).size(bw, bh);
    let mut eff: Vec<ImageEffect> = vec![];
    let mut crop = None;
    let n = c.s.len(0, 4);
    for _ in 0..n {
        bu = match c.s.below(7) {
            0 => { eff.push(ImageEffect::Shadow); bu.shadow() }
            1 => { eff.push(ImageEffect::Reflection); bu.reflection() }
            2 => { eff.push(ImageEffect::Glow); bu.glow() }
            3 => { eff.push(ImageEffect::SoftEdges); bu.soft_edges() }
            4 => { eff.push(ImageEffect::InnerShadow); bu.inner_shadow() }
            5 => { eff.push(ImageEffect::Blur); bu.blur() }
            _ => { crop = Some((0.125, 0.25, 0.0, 0.5)); bu.crop(0.125, 0.25, 0.0, 0.5) }
        };
    }
    let j = match c.s.below(9) {
        0 => { eff.push(ImageEffect::Shadow); bu.build_with_shadow() }
        1 => { eff.push(ImageEffect::Reflection); bu.build_with_reflection() }
        2 => { eff.push(ImageEffect::Shadow); eff.push(ImageEffect::Reflection); bu.build_with_effects() }
        3 => { eff.push(ImageEffect::Glow); bu.build_with_glow() }
        4 => { eff.push(ImageEffect::SoftEdges); bu.build_with_soft_edges() }
        5 => { eff.push(ImageEffect::InnerShadow); bu.build_with_inner_shadow() }
        6 => { eff.push(ImageEffect::Blur); bu.build_with_blur() }
        7 => { crop = Some((0.5, 0.0, 0.25, 0.125)); bu.build_with_crop(0.5, 0.0, 0.25, 0.125) }
        _ => bu.build(),
    };
    eq("place and size", (j.x, j.y, j.width, j.height), (x, y, bw, bh))?;
    eq("recognised format", j.format.to_lowercase().replace("jpg", "jpeg"), fmt.to_string())?;
    let key = |v: &[ImageEffect]| { let mut v: Vec<String> = v.iter().map(|k| format!("{k:?}")).collect(); v.sort(); v.dedup(); v };
    eq("effects", key(&j.effects), key(&eff))?;
    eq("crop", j.crop.as_ref().map(|k| (k.left, k.top, k.right, k.bottom)), crop)?;
    ensure!(j.get_bytes() == Some(b), "the builder's picture has other bytes");
    Ok(())
}
fn noise(c: &mut Ctx) -> Res {
    let mut b = if c.s.chance(70) { picture(&mut c.s).0 } else { vec![] };
    let n = c.s.len(0, 6);
    for _ in 0..n {
        if b.is_empty() || c.s.chance(20) {
            let x = c.s.bytes(1, 30);
            b.extend(x);
        } else if c.s.chance(20) {
            let k = c.s.usize(b.len());
            b.truncate(k);
        } else {
            let k = c.s.usize(b.len());
            b[k] = *c.s.pick(&[0, 255, 1, 0xc0, 0xd8, 128]);
        }
    }
    c.note(|| format!("{b:02x?}"));
    c.nontrivial(b.len() > 10);
    let f = c.file("p.bin");
    let _ = std::fs::write(&f, &b);
    let _ = guard(|| Image::from_path(&f)).map_err(|m| Fail { msg: format!("from_path: {}", m.msg) })?;
    let i = guard(|| helpers::image(b.clone()).build()).map_err(|m| Fail { msg: format!("auto: {}", m.msg) })?;
    ensure!(i.get_bytes() == Some(b), "picture has other bytes");
    Ok(())
}
fn probe_scheme() -> Res {
    let sh = helpers::rect(1.0, 1.0, 1.0, 1.0).fill(Color::scheme(SchemeColor::Accent1));
    let (p, sl) = save("c", vec![SlideContent::new("t").layout(SlideLayout::TitleOnly).with_shapes(vec![sh])])?;
    let t = e(tree(&p, &sl[0]))?;
    let pr = t.sps.get(1).and_then(|k| k.child("spPr"));
    let v = pr.and_then(|k| k.path(&["solidFill", "schemeClr"])).and_then(|k| k.attr("val"));
    ensure!(v == Some("accent1"), "a shape filled with a theme colour is filled black");
    Ok(())
}
pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "lengths: a length other than 0; colours: a real blend; pictures: any; noise: more than 10 bytes",
        assumptions: &["lengths are whole EMU, so a conversion may be off by one; colour arithmetic may be off by one step except at its ends"],
        subs: vec![
            Sub { name: "lengths", quick: 8000, run: lengths },
            Sub { name: "colours", quick: 8000, run: colours },
            Sub { name: "pictures", quick: 8000, run: pictures },
            Sub { name: "noise", quick: 4000, run: noise },
        ],
        probes: vec![Probe { key: "scheme-colour-black", run: probe_scheme }],
    }
}

// ------------------------------------------------------------------ C29
const SW: u64 = 9_144_000;
const SH: u64 = 6_858_000;
fn positions(c: &mut Ctx) -> Res {
    let s = &mut c.s;
    let size = |s: &mut Src| match s.below(8) {
        0 => 0u32,
        1 => s.below(1 << 32) as u32,
        _ => s.below(3_000_000) as u32,
    };
    let (w, h, gap, at) = (size(s), size(s), size(s), gen::emu(s));
    let n = s.len(0, 9);
    let (r, k) = (s.len(0, 5), s.len(0, 5));
    c.note(|| format!("shape {w}x{h}, gap {gap}, at {at}, count {n}, grid {r}x{k}"));
    let fits = |n: usize, w: u32, gap: u32, all: u64| n as u64 * w as u64 + (n.max(1) as u64 - 1) * gap as u64 <= all;
    c.nontrivial(n > 1 && fits(n, w, gap, SW));
    let g = |what: &str, f: &mut dyn FnMut() -> Vec<(u32, u32)>| -> Result<Vec<(u64, u64)>, Fail> {
        guard(|| f()).map(|v| v.into_iter().map(|(a, b)| (a as u64, b as u64)).collect()).map_err(|m| Fail { msg: format!("{what}: {}", m.msg) })
    };
    // one shape
    let p = g("center", &mut || vec![layouts::center(w, h)])?[0];
    for (n, p, l, all) in [("horizontal", p.0, w as u64, SW), ("vertical", p.1, h as u64, SH)] {
        if l <= all {
            ensure!((2 * p + l).abs_diff(all) <= 1, "{n} centre of {l}: starts at {p}");
        }
    }
    eq("center_x", g("center_x", &mut || vec![(layouts::center_x(w), layouts::center_y(h))])?[0], p)?;
    // rows of shapes: even gaps, same line, the row in the middle
    let row = |what: &str, v: Vec<u64>, n: usize, w: u32, gap: u32, all: u64| -> Res {
        ensure!(v.len() == n, "{what}: {} positions for {n} shapes", v.len());
        if n > 0 && fits(n, w, gap, all) {
            let step = w as u64 + gap as u64;
            for i in 1..n {
                ensure!(v[i] == v[i - 1] + step, "{what}: shapes at {v:?}, expected steps of {step}");
            }
            let end = v[n - 1] + w as u64;
            ensure!((v[0] + end).abs_diff(all) <= 1, "{what}: {v:?} is not in the middle");
        }
        Ok(())
    };
    let v = g("stack_horizontal", &mut || layouts::stack_horizontal(n, w, gap, at))?;
    ensure!(v.iter().all(|p| p.1 == at as u64), "stack_horizontal: not on one line");
    row("stack_horizontal", v.iter().map(|p| p.0).collect(), n, w, gap, SW)?;
    let v = g("stack_vertical", &mut || layouts::stack_vertical(n, h, gap, at))?;
    ensure!(v.iter().all(|p| p.0 == at as u64), "stack_vertical: not on one line");
    row("stack_vertical", v.iter().map(|p| p.1).collect(), n, h, gap, SH)?;
    let v = g("grid", &mut || layouts::grid(r, k, w, h))?;
    ensure!(v.len() == r * k, "grid {r}x{k} has {} cells", v.len());
    if r * k > 0 {
        for y in 0..r {
            row("row of the grid", v[y * k..(y + 1) * k].iter().map(|p| p.0).collect(), k, w, 0, SW)?;
            ensure!(v[y * k..(y + 1) * k].iter().all(|p| p.1 == v[y * k].1), "grid row {y} is not on one line");
        }
        row("column of the grid", (0..r).map(|y| v[y * k].1).collect(), r, h, 0, SH)?;
    }
    let v = g("distribute_horizontal", &mut || layouts::distribute_horizontal(n, w, at))?;
    ensure!(v.len() == n && v.iter().all(|p| p.1 == at as u64), "distribute_horizontal: {v:?}");
    let m = 457_200u64;
    if n == 1 {
        row("distribute_horizontal", v.iter().map(|p| p.0).collect(), 1, w, 0, SW)?;
    } else if n > 1 && n as u64 * w as u64 <= SW - 2 * m {
        ensure!(v[0].0 == m, "distribute_horizontal: first at {}", v[0].0);
        let d = v[1].0 - v[0].0;
        ensure!(d >= w as u64 && v.windows(2).all(|p| p[1].0 - p[0].0 == d), "distribute_horizontal: uneven or overlapping: {v:?}");
        let end = v[n - 1].0 + w as u64;
        ensure!(end <= SW - m && SW - m - end < n as u64, "distribute_horizontal: last ends at {end}");
    }
    Ok(())
}
struct Want {
    text: String,
    header: bool,
    fill: Option<String>,
    bold: bool,
}
fn tables(c: &mut Ctx) -> Res {
    let s = &mut c.s;
    let txt = gen::text0;
    let nc = s.len(1, 5);
    let mut rows: Vec<Vec<Want>> = vec![];
    let plain = |t: &str| Want { text: t.into(), header: false, fill: None, bold: false };
    let head = |t: &str| Want { text: t.into(), header: true, fill: Some("1F4E79".into()), bold: true };
    let mut widths: Vec<f64> = vec![(SW / nc as u64) as f64; nc];
    let row = |s: &mut Src, nc: usize| -> Vec<String> {
        let n = if s.chance(15) { s.len(0, nc + 2) } else { nc };
        (0..n).map(|_| txt(s)).collect()
    };
    fn strs(v: &[String]) -> Vec<&str> {
        v.iter().map(|x| x.as_str()).collect()
    }
    let kind = s.below(5);
    let mut pos = (0.0, 0.0);
    let tb = match kind {
        0 => {
            let n = s.len(1, 5);
            for _ in 0..n {
                rows.push((0..nc).map(|_| plain("")).collect());
            }
            helpers::simple_table(n, nc).build()
        }
        1 => {
            let h: Vec<String> = (0..nc).map(|_| txt(s)).collect();
            let n = s.len(0, 4);
            rows.push(h.iter().map(|t| head(t)).collect());
            for _ in 0..n {
                rows.push((0..nc).map(|_| plain("")).collect());
            }
            helpers::table_with_header(&strs(&h), n).build()
        }
        2 => {
            let mut data: Vec<Vec<String>> = vec![(0..nc).map(|_| txt(s)).collect()];
            let n = s.len(0, 4);
            for _ in 0..n {
                data.push(row(s, nc));
            }
            for r in &data {
                rows.push(r.iter().map(|t| plain(t)).collect());
            }
            let w = if s.bool() {
                let w: Vec<f64> = (0..nc).map(|_| s.range(1, 400) as f64 / 100.0).collect();
                widths = w.iter().map(|x| x * IN).collect();
                Some(w)
            } else {
                None
            };
            helpers::table_from_data(&data.iter().map(|r| strs(r)).collect::<Vec<_>>(), w).build()
        }
        _ => {
            let mut q = if s.bool() {
                let w: Vec<f64> = (0..nc).map(|_| s.range(1, 400) as f64 / 100.0).collect();
                widths = w.iter().map(|x| x * IN).collect();
                QuickTable::with_widths(&w)
            } else {
                QuickTable::new(nc)
            };
            let n = s.len(1, 5);
            for _ in 0..n {
                q = match s.below(5) {
                    0 => {
                        let r = row(s, nc);
                        rows.push(r.iter().map(|t| head(t)).collect());
                        q.header(&strs(&r))
                    }
                    1 => {
                        let many: Vec<Vec<String>> = { let k = s.len(0, 3); (0..k).map(|_| row(s, nc)).collect() };
                        for r in &many {
                            rows.push(r.iter().map(|t| plain(t)).collect());
                        }
                        q.rows(&many.iter().map(|r| strs(r)).collect::<Vec<_>>())
                    }
                    2 => {
                        let r = row(s, nc);
                        let col = gen::hex(s);
                        let k = s.below(3);
                        rows.push(r.iter().map(|t| match k { 0 => plain(t), 1 => head(t), _ => Want { text: t.clone(), header: false, fill: Some(col.clone()), bold: true } }).collect());
                        q.styled_row(r.iter().map(|t| match k { 0 => helpers::cell(t), 1 => helpers::header_cell(t), _ => helpers::highlight_cell(t, &col) }).collect())
                    }
                    _ => {
                        let r = row(s, nc);
                        rows.push(r.iter().map(|t| plain(t)).collect());
                        q.row(&strs(&r))
                    }
                };
            }
            if s.bool() {
                let (x, y) = (s.range(0, 900) as f64 / 100.0, s.range(0, 700) as f64 / 100.0);
                pos = (x * IN, y * IN);
                q = q.at(x, y);
            }
            q.build()
        }
    };
    c.label(["simple", "header", "data", "quick", "quick"][kind as usize]);
    c.note(|| format!("{} rows of {nc} columns: {:?}", rows.len(), rows.iter().map(|r| r.iter().map(|w| w.text.clone()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    c.nontrivial(rows.iter().any(|r| r.iter().any(|w| !w.text.trim().is_empty())));
    if rows.is_empty() {
        return Ok(());
    }
    let cols = rows.iter().map(|r| r.len()).max().unwrap_or(0).max(nc);
    let (p, sl) = save("tables", vec![SlideContent::new("t").table(tb)])?;
    let t = e(tree(&p, &sl[0]))?;
    ensure!(t.tables.len() == 1, "{} tables in the file", t.tables.len());
    let el = &t.tables[0];
    let pl = place(el);
    near("table x", pl[0], pos.0, MAX)?;
    near("table y", pl[1], pos.1, MAX)?;
    let gw: Vec<f64> = el.all("gridCol").iter().map(|g| g.attr("w").and_then(|v| v.parse().ok()).unwrap_or(-1.0)).collect();
    ensure!(gw.len() == cols, "table has {} columns, expected {cols}", gw.len());
    for (i, (a, b)) in gw.iter().zip(&widths).enumerate() {
        near(&format!("width of column {i}"), *a, *b, MAX)?;
    }
    let trs = el.all("tr");
    ensure!(trs.len() == rows.len(), "table has {} rows, expected {}", trs.len(), rows.len());
    for (ri, (tr, row)) in trs.iter().zip(&rows).enumerate() {
        let tcs: Vec<&El> = tr.els().filter(|k| k.name == "tc").collect();
        ensure!(tcs.len() == cols, "row {ri} has {} cells, the table {cols} columns", tcs.len());
        for (ci, tc) in tcs.iter().enumerate() {
            let w = format!("cell {ri},{ci}");
            let none = plain("");
            let want = row.get(ci).unwrap_or(&none);
            let b = tc.child("txBody");
            let got: String = b.map(|b| b.all("p").iter().map(|p| para_text(p)).collect::<Vec<_>>().join("\n")).unwrap_or_default();
            eq(&w, norm(&got), norm(&want.text))?;
            let fill = tc.path(&["tcPr", "solidFill", "srgbClr"]).and_then(|k| k.attr("val")).map(|k| k.to_uppercase());
            eq(&format!("{w}: background"), fill, want.fill.clone())?;
            if !norm(&want.text).is_empty() {
                let bold = tc.find("rPr").is_some_and(|k| matches!(k.attr("b"), Some("1") | Some("true")));
                eq(&format!("{w}: bold"), bold, want.bold)?;
                if want.header {
                    let al = tc.find("pPr").and_then(|k| k.attr("algn")).unwrap_or("l");
                    eq(&format!("{w}: alignment"), al, "ctr")?;
                }
            }
        }
    }
    Ok(())
}
/// Titles and bullets of a deck, outline by outline.
type Outline = Vec<(String, Vec<String>)>;
fn strings(s: &mut Src, lo: usize) -> Vec<String> {
    let n = s.len(lo, 4);
    (0..n).map(|_| gen::text(s)).collect()
}
fn pairs(s: &mut Src) -> Vec<(String, String)> {
    let n = s.len(0, 4);
    (0..n).map(|_| (gen::text(s), gen::text(s))).collect()
}
fn nested(s: &mut Src) -> Vec<(String, Vec<String>)> {
    let n = s.len(0, 4);
    (0..n).map(|_| (gen::text(s), strings(s, 0))).collect()
}
fn r(v: &[String]) -> Vec<&str> {
    v.iter().map(|x| x.as_str()).collect()
}
fn rp(v: &[(String, String)]) -> Vec<(&str, &str)> {
    v.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect()
}
fn rn(v: &[(String, Vec<String>)]) -> Vec<(&str, Vec<&str>)> {
    v.iter().map(|x| (x.0.as_str(), r(&x.1))).collect()
}
/// Every given text, in this order; the outline may frame them with slides of its own.
fn outline_has(got: &Outline, want: &[(Option<&str>, Vec<String>)]) -> Res {
    let mut at = 0;
    for (t, b) in want {
        let b: Vec<String> = b.iter().map(|x| norm(x)).collect();
        let hit = got[at..].iter().position(|(gt, gb)| t.is_none_or(|t| norm(t) == *gt) && *gb == b);
        match hit {
            Some(i) => at += i + 1,
            None => return fail(format!("no slide {t:?} with bullets {b:?} from slide {} on in {got:?}", at + 1)),
        }
    }
    Ok(())
}
fn outlines(c: &mut Ctx) -> Res {
    let s = &mut c.s;
    let title = gen::text(s);
    let by = gen::text(s);
    let kind = s.below(7);
    let sep = |v: &[(String, String)], m: &str| -> Vec<String> { v.iter().map(|(a, b)| format!("{a}{m}{b}")).collect() };
    let lines = |v: &[String]| v.to_vec();
    let mut exact: Option<usize> = None;
    let mut none: Vec<&str> = vec![];
    let (b, want): (Result<Vec<u8>, String>, Vec<(Option<&str>, Vec<String>)>);
    let first = (Some(title.as_str()), vec![by.clone()]);
    let (a1, a2, a3, a4, a5) = (strings(s, 0), strings(s, 0), strings(s, 0), strings(s, 0), strings(s, 0));
    let (p1, p2) = (pairs(s), pairs(s));
    let nn = nested(s);
    match kind {
        0 => {
            b = templates::business_proposal(&title, &by, templates::ProposalContent { executive_summary: r(&a1), problem: r(&a2), solution: r(&a3), timeline: rp(&p1), budget: rp(&p2), next_steps: r(&a4) }).map_err(|e| e.to_string());
            want = vec![first, (None, lines(&a1)), (None, lines(&a2)), (None, lines(&a3)), (None, sep(&p1, ": ")), (None, sep(&p2, ": ")), (None, lines(&a4))];
        }
        1 => {
            b = templates::training_material(&title, &by, templates::TrainingContent { objectives: r(&a1), modules: rn(&nn), exercises: r(&a2), summary: r(&a3) }).map_err(|e| e.to_string());
            let mut w = vec![first, (None, lines(&a1))];
            w.extend(nn.iter().map(|(t, v)| (Some(t.as_str()), v.clone())));
            w.extend([(None, lines(&a2)), (None, lines(&a3))]);
            want = w;
        }
        2 => {
            b = templates::status_report(&title, &by, templates::StatusContent { summary: r(&a1), completed: r(&a2), in_progress: r(&a3), blocked: r(&a4), next_week: r(&a5), metrics: rp(&p1) }).map_err(|e| e.to_string());
            let mut w = vec![first, (None, lines(&a1)), (None, lines(&a2)), (None, lines(&a3))];
            if !a4.is_empty() {
                w.push((None, lines(&a4)));
            } else {
                none.push("Blocked / Risks");
            }
            w.push((None, lines(&a5)));
            if !p1.is_empty() {
                w.push((None, sep(&p1, ": ")));
            } else {
                none.push("Key Metrics");
            }
            exact = Some(w.len());
            want = w;
        }
        3 => {
            b = templates::technical_doc(&title, &by, templates::TechnicalContent { overview: r(&a1), architecture: r(&a2), components: rn(&nn), api_examples: rp(&p1), best_practices: r(&a3) }).map_err(|e| e.to_string());
            let mut w = vec![(Some(title.as_str()), vec![format!("Version {by}")]), (None, lines(&a1)), (None, lines(&a2))];
            w.extend(nn.iter().map(|(t, v)| (Some(t.as_str()), v.clone())));
            if !p1.is_empty() {
                w.push((None, sep(&p1, " - ")));
            } else {
                none.push("API Reference");
            }
            w.push((None, lines(&a3)));
            exact = Some(w.len());
            want = w;
        }
        4 => {
            let v: Vec<(&str, Vec<&str>)> = rn(&nn);
            let v: Vec<(&str, &[&str])> = v.iter().map(|(t, b)| (*t, b.as_slice())).collect();
            b = templates::simple(&title, &v).map_err(|e| e.to_string());
            want = nn.iter().map(|(t, v)| (Some(t.as_str()), v.clone())).collect();
            exact = Some(nn.len());
        }
        _ => {
            let mut q = if kind == 5 { QuickPptx::new(&title) } else { ppt_rs::pptx!(&title) };
            for (i, (t, v)) in nn.iter().enumerate() {
                q = match (i + a1.len()) % 3 {
                    0 if v.is_empty() => q.title_slide(t),
                    1 => q.content_slide(v.iter().fold(SlideContent::new(t), |k, x| k.add_bullet(x))),
                    _ => q.slide(t, &r(v)),
                };
            }
            b = if kind == 5 {
                q.build().map_err(|e| e.to_string())
            } else {
                let f = c.file("quick.pptx");
                q.save(&f.to_string_lossy()).map_err(|e| e.to_string()).and_then(|_| std::fs::read(&f).map_err(|e| e.to_string()))
            };
            exact = Some(nn.len().max(1));
            want = nn.iter().map(|(t, v)| (Some(t.as_str()), v.clone())).collect();
        }
    }
    c.label(["proposal", "training", "status", "technical", "simple", "quick", "macro"][kind as usize]);
    c.note(|| format!("{title:?} {by:?} {want:?}"));
    c.nontrivial(want.len() > 1);
    let b = match b {
        Ok(b) => b,
        Err(m) => {
            // nothing to show is refused rather than written
            ensure!(want.is_empty(), "refused: {m}");
            return Ok(());
        }
    };
    let p = e(crate::opc::check_package(&b))?;
    let mut got: Outline = vec![];
    for sl in e(p.slide_paths())? {
        let t = e(tree(&p, &sl))?;
        let title = t.sps.first().map(|k| norm(&sp_text(k))).unwrap_or_default();
        let body = t.sps.get(1).map(|k| norm(&sp_text(k))).unwrap_or_default();
        got.push((title, if body.is_empty() { vec![] } else { body.split('\n').map(|x| x.to_string()).collect() }));
    }
    if let Some(n) = exact {
        ensure!(got.len() == n, "{} slides, expected {n}", got.len());
    }
    for n in none {
        ensure!(want.iter().any(|w| w.0 == Some(n)) || got.iter().all(|g| g.0 != n), "slide {n:?} for nothing");
    }
    outline_has(&got, &want)?;
    super::deck_p::check_core_title(&p, &title)
}
/// Shape helpers: kind, place, text and colours in the file.
fn shape_helpers(c: &mut Ctx) -> Res {
    use prelude::shapes as q;
    let s = &mut c.s;
    let n = s.len(1, 6);
    let mut all = vec![];
    let mut want: Vec<(ShapeType, Vec<f64>, String)> = vec![];
    for _ in 0..n {
        let l = |s: &mut Src| s.range(0, 1000) as f64 / 100.0;
        let (x, y, w, h) = (l(s), l(s), l(s), l(s));
        let t = gen::text(s);
        let t = t.as_str();
        let no = String::new();
        let kind = s.below(24);
        let (sh, ty, sq, tx) = match kind {
            0 => (q::circle(x, y, w), ShapeType::Circle, true, no),
            1 => (q::text_box(x, y, w, h, t), ShapeType::Rectangle, false, t.into()),
            2 => (q::arrow_right(x, y, w, h), ShapeType::RightArrow, false, no),
            3 => (q::arrow_left(x, y, w, h), ShapeType::LeftArrow, false, no),
            4 => (q::arrow_up(x, y, w, h), ShapeType::UpArrow, false, no),
            5 => (q::arrow_down(x, y, w, h), ShapeType::DownArrow, false, no),
            6 => (q::diamond(x, y, w), ShapeType::Diamond, true, no),
            7 => (q::triangle(x, y, w, h), ShapeType::Triangle, false, no),
            8 => (q::star(x, y, w), ShapeType::Star5, true, no),
            9 => (q::heart(x, y, w), ShapeType::Heart, true, no),
            10 => (q::cloud(x, y, w, h), ShapeType::Cloud, false, no),
            11 => (q::callout(x, y, w, h, t), ShapeType::WedgeRectCallout, false, t.into()),
            12 => (q::process(x, y, w, h, t), ShapeType::FlowChartProcess, false, t.into()),
            13 => (q::decision(x, y, w, t), ShapeType::FlowChartDecision, true, t.into()),
            14 => (q::document(x, y, w, h, t), ShapeType::FlowChartDocument, false, t.into()),
            15 => (q::data(x, y, w, h, t), ShapeType::FlowChartData, false, t.into()),
            16 => (q::terminator(x, y, w, h, t), ShapeType::FlowChartTerminator, false, t.into()),
            17 => (helpers::diamond(x, y, w, h), ShapeType::Diamond, false, no),
            18 => (helpers::rounded_rect(x, y, w, h), ShapeType::RoundedRectangle, false, no),
            19 => (helpers::circle(x, y, w).text(t), ShapeType::Ellipse, true, t.into()),
            20 => (ppt_rs::shape!(rect x, y, w, h), ShapeType::Rectangle, false, no),
            21 => (ppt_rs::shape!(circle x, y, w), ShapeType::Circle, true, no),
            22 => (q::colored(q::rect(x, y, w, h), "FF0000", Some("00FF00")), ShapeType::Rectangle, false, no),
            _ => (q::text_box_ratio(x / 10.0, y / 10.0, w / 10.0, h / 10.0, t), ShapeType::Rectangle, false, t.into()),
        };
        let mut v = vec![x * IN, y * IN, w * IN, if sq { w * IN } else { h * IN }];
        if kind == 23 {
            v = vec![x / 10.0 * W, y / 10.0 * H, w / 10.0 * W, h / 10.0 * H];
        }
        want.push((ty, v, tx));
        all.push(sh);
    }
    c.note(|| format!("{want:?}"));
    c.nontrivial(n > 1);
    let slide = SlideContent::new("t").layout(SlideLayout::TitleOnly).with_shapes(all);
    let (p, sl) = save("shapes", vec![slide.clone()])?;
    check_slide_text(&p, &sl[0], &slide, 1)?;
    let t = e(tree(&p, &sl[0]))?;
    for (i, (sp, (ty, w, tx))) in t.sps[1..].iter().zip(&want).enumerate() {
        let pre = sp.find("prstGeom").and_then(|k| k.attr("prst")).map(|k| k.to_string());
        eq(&format!("shape {i}"), pre, super::deck_p::preset(*ty))?;
        for (n, (g, x)) in ["x", "y", "width", "height"].iter().zip(place(sp).into_iter().zip(w)) {
            near(&format!("shape {i} {ty:?}: {n}"), g, *x, MAX)?;
        }
        eq(&format!("shape {i}: text"), norm(&sp_text(sp)), norm(tx))?;
    }
    Ok(())
}
pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "positions: several shapes that fit; tables: a visible text; outlines: more than one slide; shapes: more than one",
        assumptions: &["arrangements larger than the slide need only not crash and give one position per shape"],
        subs: vec![
            Sub { name: "positions", quick: 30000, run: positions },
            Sub { name: "tables", quick: 5000, run: tables },
            Sub { name: "outlines", quick: 3000, run: outlines },
            Sub { name: "shapes", quick: 3000, run: shape_helpers },
        ],
        probes: vec![],
    }
}
