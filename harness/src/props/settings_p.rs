//! C15: presentation settings, document properties, transitions, ink and layouts arrive in the package;
//! C29 (part): decks made from a template keep its masters, layouts and theme.
use super::deck_p::{body_text, build, e, norm, open};
use crate::engine::*;
use crate::foreign;
use crate::gen;
use crate::opc::{self, Pkg};
use crate::xml::El;
use ppt_rs::generator::slide_content::TransitionType;
use ppt_rs::generator::*;
use std::io::Cursor;

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    ensure!(got == want, "{what}: expected {want:?}, package has {got:?}");
    Ok(())
}
fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or(0)
}
/// Seconds of a W3CDTF date, by walking the calendar.
pub fn seconds(t: &str) -> Option<i64> {
    let v: Vec<&str> = t.strip_suffix('Z')?.split(['-', 'T', ':']).collect();
    let n: Vec<i64> = v.iter().map(|x| x.parse().ok()).collect::<Option<Vec<_>>>()?;
    if n.len() != 6 || v[0].len() != 4 || v[1..].iter().any(|x| x.len() != 2) {
        return None;
    }
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let days = |y: i64, m: i64| match m { 2 => 28 + leap(y) as i64, 4 | 6 | 9 | 11 => 30, _ => 31 };
    if !(1..=12).contains(&n[1]) || n[2] < 1 || n[2] > days(n[0], n[1]) || n[3] > 23 || n[4] > 59 || n[5] > 59 {
        return None;
    }
    let d: i64 = (1970..n[0]).map(|y| 365 + leap(y) as i64).sum::<i64>() + (1..n[1]).map(|m| days(n[0], m)).sum::<i64>() + n[2] - 1;
    Some(((d * 24 + n[3]) * 60 + n[4]) * 60 + n[5])
}
fn val(x: &El, path: &[&str]) -> String {
    x.path(path).map(|k| k.text()).unwrap_or_else(|| "<missing>".into())
}
fn check_theme(p: &Pkg, master: &str, t: Option<&PresentationTheme>) -> Res {
    let th = e(p.related(master, "theme"))?;
    ensure!(th.len() == 1, "master has {} themes", th.len());
    let x = e(p.xml(&th[0]))?;
    let t = t.cloned().unwrap_or(PresentationTheme::office());
    eq("theme name", x.attr("name").unwrap_or(""), norm(&t.name).as_str())?;
    let c = &t.colors;
    for (n, v) in [("dk1", &c.dk1), ("lt1", &c.lt1), ("dk2", &c.dk2), ("lt2", &c.lt2), ("accent1", &c.accent1), ("accent2", &c.accent2), ("accent3", &c.accent3), ("accent4", &c.accent4), ("accent5", &c.accent5), ("accent6", &c.accent6), ("hlink", &c.hlink), ("folHlink", &c.fol_hlink)] {
        let s = x.path(&["themeElements", "clrScheme", n]);
        // the default theme names window colours and what they were
        let got = s.and_then(|k| k.child("srgbClr").and_then(|k| k.attr("val")).or_else(|| k.child("sysClr").and_then(|k| k.attr("lastClr"))));
        eq(&format!("theme colour {n}"), got.unwrap_or("none"), v.as_str())?;
    }
    if t != PresentationTheme::office() {
        for (n, v) in [("majorFont", &t.fonts.major), ("minorFont", &t.fonts.minor)] {
            let got = x.path(&["themeElements", "fontScheme", n, "latin"]).and_then(|k| k.attr("typeface")).unwrap_or("none");
            eq(&format!("theme {n}"), got, norm(v).as_str())?;
        }
    }
    Ok(())
}
fn check_show(p: &Pkg, main: &str, s: Option<&SlideShowSettings>) -> Res {
    let pp = e(p.related(main, "presProps"))?;
    ensure!(pp.len() == 1, "{} presentation property parts", pp.len());
    let x = e(p.xml(&pp[0]))?;
    let sh = x.child("showPr");
    let Some(s) = s else {
        ensure!(sh.is_none(), "slide show settings nobody asked for");
        return Ok(());
    };
    let Some(sh) = sh else { return fail("slide show settings are missing") };
    let flag = |n: &str, def: bool| match sh.attr(n) { None => def, Some(v) => v == "1" || v == "true" };
    eq("loop", flag("loop", false), s.loop_continuously)?;
    eq("showNarration", flag("showNarration", false), !s.show_without_narration)?;
    eq("showAnimation", flag("showAnimation", true), !s.show_without_animation)?;
    eq("useTimings", flag("useTimings", true), s.use_timings)?;
    let kinds: Vec<&str> = sh.els().map(|k| k.name.as_str()).filter(|n| ["present", "browse", "kiosk"].contains(n)).collect();
    eq("show type", kinds, vec![match s.show_type { ShowType::Speaker => "present", ShowType::Kiosk => "kiosk", ShowType::Browsed => "browse" }])?;
    let rng = match (sh.child("sldAll"), sh.child("sldRg")) {
        (Some(_), None) => SlideRange::All,
        (None, Some(r)) => SlideRange::Range { start: r.attr("st").and_then(|v| v.parse().ok()).unwrap_or(0), end: r.attr("end").and_then(|v| v.parse().ok()).unwrap_or(0) },
        _ => return fail("not exactly one slide range"),
    };
    eq("slide range", rng, s.slide_range.clone())?;
    eq("pen colour", sh.path(&["penClr", "srgbClr"]).and_then(|k| k.attr("val")).unwrap_or("none"), s.pen_color.color.as_str())?;
    eq("media controls", sh.find("showMediaCtrls").is_some_and(|k| k.attr("val") == Some("1")), s.show_media_controls)
}
/// Placeholder type -> text of the shapes of a master.
fn placeholders(x: &El) -> Vec<(String, String)> {
    x.all("sp").iter().filter_map(|s| Some((s.find("ph")?.attr("type").unwrap_or("obj").to_string(), s.child("txBody").map(body_text).unwrap_or_default()))).collect()
}
fn check_print(p: &Pkg, main: &str, master: &str, s: Option<&PrintSettings>) -> Res {
    let hm = e(p.related(main, "handoutMaster"))?;
    let want = s.is_some_and(|s| s.print_what == PrintWhat::Handouts);
    eq("number of handout masters", hm.len(), want as usize)?;
    let m = e(p.xml(main))?;
    let listed: Vec<String> = m.all("handoutMasterId").iter().filter_map(|k| k.attr_ns("http://schemas.openxmlformats.org/officeDocument/2006/relationships", "id")).map(|s| s.to_string()).collect();
    eq("listed handout masters", listed.len(), want as usize)?;
    let mut roots = vec![("slide master", e(p.xml(master))?)];
    if want {
        eq("handout master", e(p.resolve(main, &listed[0]))?, Some(hm[0].clone()))?;
        roots.push(("handout master", e(p.xml(&hm[0]))?));
    }
    for (n, x) in roots {
        let ph = placeholders(&x);
        let get = |t: &str| ph.iter().filter(|(k, _)| k == t).map(|(_, v)| v.as_str()).collect::<Vec<_>>();
        let num = |o: bool| o as usize;
        eq(&format!("{n}: header placeholders"), get("hdr").len(), num(s.is_some_and(|s| s.header.is_some())))?;
        if let (Some(h), true) = (s.and_then(|s| s.header.as_ref()), n == "handout master") {
            eq("header", get("hdr")[0], norm(h).as_str())?;
        }
        let f: Vec<String> = s.and_then(|s| s.footer.as_ref()).map(|f| norm(f)).into_iter().collect();
        eq(&format!("{n}: footer"), get("ftr"), f.iter().map(|x| x.as_str()).collect())?;
        eq(&format!("{n}: date placeholders"), get("dt").len(), num(s.is_some_and(|s| s.print_date)))?;
        eq(&format!("{n}: slide number placeholders"), get("sldNum").len(), num(s.is_some_and(|s| s.print_page_numbers)))?;
        ensure!(n == "slide master" || x.all("fld").len() == num(s.is_some_and(|s| s.print_date)) + num(s.is_some_and(|s| s.print_page_numbers)), "{n}: fields");
    }
    Ok(())
}
pub const CHARSETS: &[FontCharset] = &{
    use FontCharset::*;
    [Ansi, Symbol, ShiftJis, Hangul, Gb2312, ChineseBig5, Greek, Turkish, Hebrew, Arabic, Baltic, Russian, Thai, EastEurope]
};
/// The character sets of Windows fonts.
pub fn charset(c: FontCharset) -> u8 {
    use FontCharset::*;
    match c {
        Ansi => 0,
        Symbol => 2,
        ShiftJis => 128,
        Hangul => 129,
        Gb2312 => 134,
        ChineseBig5 => 136,
        Greek => 161,
        Turkish => 162,
        Hebrew => 177,
        Arabic => 178,
        Baltic => 186,
        Russian => 204,
        Thai => 222,
        EastEurope => 238,
    }
}
fn check_fonts(p: &Pkg, main: &str, l: Option<&EmbeddedFontList>) -> Res {
    let x = e(p.xml(main))?;
    let got: Vec<&El> = x.path(&["embeddedFontLst"]).map(|k| k.els().collect()).unwrap_or_default();
    let fonts: Vec<&EmbeddedFont> = l.map(|l| l.fonts().iter().collect()).unwrap_or_default();
    let mut faces: Vec<&str> = vec![];
    for f in &fonts {
        if !faces.contains(&f.typeface.as_str()) {
            faces.push(&f.typeface);
        }
    }
    eq("embedded font families", got.iter().map(|g| g.child("font").and_then(|f| f.attr("typeface")).unwrap_or("?").to_string()).collect::<Vec<_>>(), faces.iter().map(|f| norm(f)).collect())?;
    for (g, face) in got.iter().zip(&faces) {
        let mut mine: Vec<&&EmbeddedFont> = fonts.iter().filter(|f| f.typeface == *face).collect();
        let rank = |f: &EmbeddedFont| match f.style { FontStyle::Regular => 0, FontStyle::Bold => 1, FontStyle::Italic => 2, FontStyle::BoldItalic => 3 };
        mine.sort_by_key(|f| rank(f));
        let d = g.child("font").unwrap();
        eq("font charset", d.attr("charset").unwrap_or("1"), (charset(mine[0].charset) as i8).to_string().as_str())?;
        eq("font pitch", d.attr("pitchFamily").unwrap_or("0"), (mine[0].pitch_family as i8).to_string().as_str())?;
        eq("font classification", d.attr("panose"), mine[0].panose.as_deref())?;
        let styles: Vec<&El> = g.els().filter(|k| k.name != "font").collect();
        eq("font styles", styles.iter().map(|k| k.name.as_str()).collect::<Vec<_>>(), mine.iter().map(|f| ["regular", "bold", "italic", "boldItalic"][rank(f)]).collect())?;
        for (k, f) in styles.iter().zip(&mine) {
            let id = k.attr_ns("http://schemas.openxmlformats.org/officeDocument/2006/relationships", "id").unwrap_or("");
            let Some(part) = e(p.resolve(main, id))? else { return fail(format!("font data of {face:?} is external")) };
            ensure!(p.parts.get(&part) == Some(&f.data), "{face:?} {:?}: {part} holds other data", f.style);
        }
    }
    Ok(())
}
fn check_signature(p: &Pkg, d: Option<&DigitalSignature>) -> Res {
    let o = e(p.related("", "origin"))?;
    eq("signature origins", o.len(), d.is_some() as usize)?;
    let Some(d) = d else { return Ok(()) };
    let s = e(p.related(&o[0], "signature"))?;
    ensure!(s.len() == 1, "{} signatures", s.len());
    let x = e(p.xml(&s[0]))?;
    let t = |n: &str| x.find(n).map(|k| k.text());
    eq("key name", t("KeyName"), Some(norm(&d.signer.name)))?;
    eq("signature text", t("SignatureText"), Some(norm(&d.signer.name)))?;
    eq("signature comments", t("SignatureComments"), d.comments.as_ref().map(|c| norm(c)))?;
    eq("signature method", x.find("SignatureMethod").and_then(|k| k.attr("Algorithm")), Some(d.hash_algorithm.uri()))?;
    eq("manifest hash", t("ManifestHashAlgorithm").as_deref(), Some(d.hash_algorithm.uri()))?;
    eq("commitment", t("CommitmentTypeId").as_deref(), Some(d.commitment_type.uri()))?;
    if let Some(w) = &d.sign_date {
        eq("signing time", t("SigningTime"), Some(norm(w)))?;
    }
    let g = t("SignatureProviderId").unwrap_or_default();
    ensure!(g.len() == 38 && g.starts_with('{') && g.ends_with('}'), "provider id {g:?} is no GUID");
    Ok(())
}
fn check_doc_props(p: &Pkg, d: &gen::Deck, from: i64, to: i64) -> Res {
    let x = e(p.xml("docProps/core.xml"))?;
    eq("title", val(&x, &["title"]), norm(&d.title))?;
    for n in ["created", "modified"] {
        let t = val(&x, &[n]);
        match seconds(&t) {
            Some(s) if (from..=to).contains(&s) => {}
            _ => return fail(format!("{n} is {t:?} (between {from} and {to} seconds since 1970)")),
        }
    }
    let x = e(p.xml("docProps/app.xml"))?;
    eq("number of slides", val(&x, &["Slides"]), d.slides.len().to_string())?;
    eq("number of notes", val(&x, &["Notes"]), d.slides.iter().filter(|s| s.notes.is_some()).count().to_string())?;
    let want: Vec<String> = d.slides.iter().enumerate().map(|(i, s)| if s.title.trim().is_empty() { format!("Slide {}", i + 1) } else { norm(&s.title) }).collect();
    let got: Vec<String> = x.path(&["TitlesOfParts"]).map(|k| k.all("lpstr").iter().map(|t| t.text()).collect()).unwrap_or_default();
    eq("titles of parts", got, want)?;
    eq("heading count", x.path(&["HeadingPairs"]).and_then(|k| k.find("i4")).map(|k| k.text()), Some(d.slides.len().to_string()))?;
    eq("size of titles", x.path(&["TitlesOfParts", "vector"]).and_then(|k| k.attr("size")).unwrap_or(""), d.slides.len().to_string().as_str())
}
fn settings(c: &mut Ctx) -> Res {
    let mut d = gen::deck(&mut c.s, gen::text0, false);
    let n = d.slides.len();
    let set = c.s.chance(85);
    if set {
        d.settings = Some(gen::settings(&mut c.s, n));
    }
    c.note(|| format!("{:?} {:?}", d.title, d.settings));
    let o = d.settings.clone().unwrap_or_default();
    c.nontrivial(o.has_settings());
    for (k, v) in [("theme", o.theme.is_some()), ("show", o.slide_show.is_some()), ("print", o.print.is_some()), ("fonts", o.embedded_fonts.is_some()), ("signature", o.digital_signature.is_some())] {
        if v {
            c.label(k);
        }
    }
    let from = now() - 2;
    let b = build(&d)?;
    let (p, _) = open(&d, &b)?;
    let main = e(p.main_part())?;
    let ms = e(p.related(&main, "slideMaster"))?;
    ensure!(ms.len() == 1, "{} slide masters", ms.len());
    check_theme(&p, &ms[0], o.theme.as_ref())?;
    check_show(&p, &main, o.slide_show.as_ref())?;
    check_print(&p, &main, &ms[0], o.print.as_ref())?;
    check_fonts(&p, &main, o.embedded_fonts.as_ref())?;
    check_signature(&p, o.digital_signature.as_ref())?;
    check_doc_props(&p, &d, from, now() + 2)
}
/// What a slide has besides its shapes: layout, transition, ink, notes.
fn extras(c: &mut Ctx) -> Res {
    let mut d = gen::deck(&mut c.s, gen::text0, false);
    let mut inks = 0;
    for s in &mut d.slides {
        s.transition = *c.s.pick(&[TransitionType::None, TransitionType::Cut, TransitionType::Fade, TransitionType::Push, TransitionType::Wipe, TransitionType::Split, TransitionType::Reveal, TransitionType::Cover, TransitionType::Zoom]);
        s.ink_annotations = match c.s.below(3) {
            0 => None,
            1 if c.s.chance(20) => Some(InkAnnotations::new()),
            _ => Some(gen::ink(&mut c.s)),
        };
        inks += s.ink_annotations.is_some() as usize;
        s.layout = *c.s.pick(gen::LAYOUTS);
    }
    c.note(|| format!("{:?}", d.slides.iter().map(|s| (s.layout, s.transition, &s.ink_annotations)).collect::<Vec<_>>()));
    c.nontrivial(inks > 0 || d.slides.iter().any(|s| s.transition != TransitionType::None));
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    for (i, (s, path)) in d.slides.iter().zip(&sl).enumerate() {
        let w = format!("slide {i}");
        let x = e(p.xml(path))?;
        let lay = e(p.related(path, "slideLayout"))?;
        ensure!(lay.len() == 1, "{w}: {} layouts", lay.len());
        let lx = e(p.xml(&lay[0]))?;
        let (ty, name) = match s.layout {
            SlideLayout::CenteredTitle => ("title", "Title Slide"),
            SlideLayout::TitleAndContent => ("obj", "Title and Content"),
            SlideLayout::TwoColumn => ("twoObj", "Two Content"),
            SlideLayout::SectionHeader => ("secHead", "Section Header"),
            SlideLayout::Blank => ("blank", "Blank"),
            SlideLayout::TitleOnly => ("titleOnly", "Title Only"),
            SlideLayout::TitleAndBigContent => ("obj", "Title and Big Content"),
        };
        eq(&format!("{w}: layout"), (lx.attr("type").unwrap_or(""), lx.path(&["cSld"]).and_then(|k| k.attr("name")).unwrap_or("")), (ty, name))?;
        let tr: Vec<&El> = x.els().filter(|k| k.name == "transition").collect();
        let eff: Vec<String> = tr.iter().flat_map(|t| t.els()).map(|k| k.name.clone()).collect();
        let want: Vec<String> = match s.transition {
            TransitionType::None | TransitionType::Cut => vec![],
            TransitionType::Fade => vec!["fade".into()],
            TransitionType::Push => vec!["push".into()],
            TransitionType::Wipe => vec!["wipe".into()],
            TransitionType::Split => vec!["split".into()],
            TransitionType::Reveal => vec!["pull".into()],
            TransitionType::Cover => vec!["cover".into()],
            TransitionType::Zoom => vec!["zoom".into()],
        };
        eq(&format!("{w}: transition"), eff, want)?;
        check_ink(&p, path, &x, s.ink_annotations.as_ref(), &w)?;
        let nt = e(super::deck_p::notes_text(&p, path))?;
        eq(&format!("{w}: notes"), nt, s.notes.as_ref().map(|n| norm(n)))?;
    }
    Ok(())
}
fn check_ink(p: &Pkg, path: &str, x: &El, a: Option<&InkAnnotations>, w: &str) -> Res {
    let parts: Vec<String> = e(p.rels(path))?.into_iter().filter(|r| r.kind() == "ink" || r.target.contains("/ink/")).map(|r| opc::resolve(path, &r.target)).collect();
    let refs = x.all("contentPart");
    let shown = a.is_some_and(|a| !a.is_empty());
    // ink without strokes may be written as an empty ink part
    ensure!(refs.len() == shown as usize || a.is_some_and(|a| a.is_empty()) && refs.len() == 1, "{w}: {} ink references", refs.len());
    let Some(a) = a.filter(|a| !a.is_empty()) else { return Ok(()) };
    let id = refs[0].attr_ns("http://schemas.openxmlformats.org/officeDocument/2006/relationships", "id").unwrap_or("");
    let Some(part) = e(p.resolve(path, id))? else { return fail(format!("{w}: ink is external")) };
    ensure!(parts == [part.clone()], "{w}: ink parts {parts:?}, reference leads to {part}");
    let x = e(p.xml(&part))?;
    let br = x.all("brush");
    let tr = x.all("trace");
    eq(&format!("{w}: strokes"), tr.len(), a.len())?;
    for (t, s) in tr.iter().zip(a.strokes()) {
        let want: Vec<String> = s.points.iter().map(|q| format!("{} {}", q.x as i64, q.y as i64)).collect();
        let got: Vec<String> = t.text().split(',').map(|q| q.trim().to_string()).filter(|q| !q.is_empty()).collect();
        eq(&format!("{w}: points"), got, want)?;
        let r = t.attr("brushRef").unwrap_or("").trim_start_matches('#').to_string();
        let Some(b) = br.iter().find(|b| b.attr_ns("http://www.w3.org/XML/1998/namespace", "id") == Some(r.as_str())) else { return fail(format!("{w}: stroke uses unknown brush {r:?}")) };
        let f = |n: &str| b.attr(n).unwrap_or("").to_string();
        eq(&format!("{w}: pen"), (f("color"), f("width"), f("tip")), (format!("#{}", s.pen.color), s.pen.width.to_string(), s.pen.tip.to_xml().to_string()))?;
        let tp: f32 = b.attr("transparency").and_then(|v| v.parse().ok()).unwrap_or(0.0);
        ensure!((tp - (1.0 - s.pen.opacity) * 255.0).abs() <= 3.0, "{w}: transparency {tp} for opacity {}", s.pen.opacity);
    }
    Ok(())
}
/// A deck made from a template shows the template's master, layouts and theme and only the new slides.
fn template(c: &mut Ctx) -> Res {
    let mut base = gen::deck(&mut c.s, gen::text, false);
    if c.s.chance(60) {
        base.settings = Some(gen::settings(&mut c.s, base.slides.len()));
    }
    let mut tp = e(Pkg::read(&build(&base)?))?;
    // more or fewer layouts, pictures and links on master and layouts
    let mut extra = vec![];
    if c.s.chance(60) {
        c.label("pictures");
        let k = c.s.len(1, 3);
        for i in 0..k {
            let n = c.s.usize(8);
            let host = if n == 0 { "ppt/slideMasters/slideMaster1.xml".to_string() } else { format!("ppt/slideLayouts/slideLayout{n}.xml") };
            let ext = *c.s.pick(&["png", "emf", "wdp"]);
            let part = format!("ppt/media/image{}.{ext}", i + 1);
            if tp.parts.contains_key(&part) {
                continue;
            }
            let data = c.s.blob(1, 30);
            tp.put(&part, data.clone());
            let mut r = e(tp.rels(&host))?;
            let ext_link = c.s.chance(30);
            r.push(opc::Rel { id: format!("rIdT{i}"), typ: "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image".into(), target: foreign::relative(&host, &part), external: false });
            if ext_link {
                r.push(opc::Rel { id: format!("rIdL{i}"), typ: "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink".into(), target: "https://example.com/?a=1&b=%20".into(), external: true });
            }
            tp.put(&opc::rels_path(&host), foreign::rels_xml(&r));
            let mut ct = e(tp.str("[Content_Types].xml"))?.to_string();
            let ty = format!("image/x-{ext}{i}");
            ct = ct.replace("</Types>", &format!("<Override PartName=\"/{part}\" ContentType=\"{ty}\"/></Types>"));
            tp.put("[Content_Types].xml", ct);
            extra.push((host, format!("rIdT{i}"), data, ty, ext_link));
        }
    }
    if c.s.chance(40) {
        c.label("renamed");
        e(foreign::foreignize(&mut tp, &mut c.s))?;
    }
    let f = c.file("template.pptx");
    let _ = std::fs::write(&f, tp.write(true));
    let rich = c.s.chance(30);
    let mut d = gen::deck(&mut c.s, gen::text, rich);
    let mut st = if c.s.bool() { gen::settings(&mut c.s, d.slides.len()) } else { PresentationSettings::new() };
    if c.s.chance(60) {
        st.theme = None;
    }
    let st = st.template(f.to_string_lossy().to_string());
    d.settings = Some(st.clone());
    c.note(|| format!("template settings {:?}, new settings {:?}, extra {}", base.settings, st, extra.len()));
    c.nontrivial(base.settings.is_some() || !extra.is_empty());
    let b = build(&d)?;
    let (p, sl) = open(&d, &b)?;
    e(opc::check_package(&b))?;
    struct L(Vec<SlideContent>);
    impl LazySlideSource for L {
        fn slide_count(&self) -> usize {
            self.0.len()
        }
        fn generate_slide(&self, i: usize) -> Option<SlideContent> {
            self.0.get(i).cloned()
        }
    }
    let lz = create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, Box::new(L(d.slides.clone())), d.settings.clone()).map_err(|x| Fail { msg: format!("lazy: {x}") })?;
    let lz = e(opc::check_package(&lz.into_inner()))?;
    ensure!(lz.parts.keys().eq(p.parts.keys()), "lazy writer makes other parts");
    for (k, v) in &p.parts {
        ensure!(k.starts_with("docProps/") || k == "[Content_Types].xml" || lz.parts.get(k) == Some(v), "lazy writer makes another {k}");
    }
    let (m1, m2) = (e(tp.main_part())?, e(p.main_part())?);
    let (a, b) = (e(tp.related(&m1, "slideMaster"))?, e(p.related(&m2, "slideMaster"))?);
    ensure!(b.len() == 1, "{} masters", b.len());
    let (a, b) = (&a[0], &b[0]);
    ensure!(tp.parts.get(a) == p.parts.get(b), "master is not the template's");
    check_linked(&tp, a, &p, b)?;
    let th = (e(tp.related(a, "theme"))?, e(p.related(b, "theme"))?);
    if st.theme.is_some() {
        check_theme(&p, b, st.theme.as_ref())?;
    } else {
        ensure!(tp.parts.get(&th.0[0]) == p.parts.get(&th.1[0]), "theme is not the template's");
    }
    let lay = |q: &Pkg, m: &str| -> Result<std::collections::BTreeMap<String, String>, Fail> {
        let x = e(q.xml(m))?;
        let mut o = std::collections::BTreeMap::new();
        for r in e(q.rels(m))? {
            if r.kind() == "slideLayout" {
                o.insert(r.id.clone(), opc::resolve(m, &r.target));
            }
        }
        let ids = x.all("sldLayoutId").len();
        ensure!(ids == o.len(), "{ids} layouts listed, {} related", o.len());
        Ok(o)
    };
    let (la, lb) = (lay(&tp, a)?, lay(&p, b)?);
    eq("layout ids", lb.keys().collect::<Vec<_>>(), la.keys().collect::<Vec<_>>())?;
    for (id, x) in &la {
        ensure!(tp.parts.get(x) == p.parts.get(&lb[id]), "layout {id} is not the template's");
        check_linked(&tp, x, &p, &lb[id])?;
    }
    ensure!(tp.parts.get("ppt/tableStyles.xml") == p.parts.get("ppt/tableStyles.xml"), "table styles are not the template's");
    for (s, path) in d.slides.iter().zip(&sl) {
        let l = e(p.related(path, "slideLayout"))?;
        ensure!(l.len() == 1 && lb.values().any(|x| *x == l[0]), "layout of a slide is not one of the template's");
        let want = la.values().find(|x| x.ends_with(&format!("slideLayout{}.xml", s.layout.layout_number())));
        if let Some(w) = want {
            ensure!(tp.parts.get(w) == p.parts.get(&l[0]), "slide with layout {:?} has another layout", s.layout);
        }
    }
    Ok(())
}
/// Every relationship of a template part leads to the same data, with the same type.
fn check_linked(tp: &Pkg, a: &str, p: &Pkg, b: &str) -> Res {
    let (ra, rb) = (e(tp.rels(a))?, e(p.rels(b))?);
    eq(&format!("relationships of {a}"), rb.len(), ra.len())?;
    let (ta, tb) = (e(opc::content_types(tp))?, e(opc::content_types(p))?);
    for r in &ra {
        let Some(q) = rb.iter().find(|q| q.id == r.id) else { return fail(format!("{b}: relationship {} is missing", r.id)) };
        eq("relationship type", &q.typ, &r.typ)?;
        eq("relationship mode", q.external, r.external)?;
        if r.external {
            eq("relationship target", &q.target, &r.target)?;
        } else if r.kind() == "image" {
            let (x, y) = (opc::resolve(a, &r.target), opc::resolve(b, &q.target));
            ensure!(p.parts.get(&y).is_some() && tp.parts.get(&x) == p.parts.get(&y), "{b}: {} leads to other data", r.id);
            eq("content type", tb.of(&y), ta.of(&x))?;
        }
    }
    Ok(())
}
fn probe_custom() -> Res {
    let st = PresentationSettings::new().slide_show(SlideShowSettings::new().slide_range(SlideRange::Custom(vec![1])));
    let b = create_pptx_with_settings("t", &[SlideContent::new("a"), SlideContent::new("b")], Some(st)).map_err(|x| Fail { msg: x.to_string() })?;
    let p = e(Pkg::read(&b))?;
    let x = e(p.xml("ppt/presProps.xml"))?;
    let m = e(p.xml("ppt/presentation.xml"))?;
    let id = x.find("custShow").and_then(|k| k.attr("id"));
    ensure!(id.is_some() && m.all("custShow").iter().any(|k| k.attr("id") == id), "a custom show is used that the presentation does not define");
    Ok(())
}
fn probe_media() -> Res {
    let mut s = SlideContent::new("a");
    s = s.add_video(Video::new("missing-video.mp4", VideoFormat::Mp4, 0, 0, 914400, 914400));
    let b = create_pptx_with_content("t", vec![s]).map_err(|x| Fail { msg: x.to_string() });
    let Ok(b) = b else { return Ok(()) };
    let p = e(Pkg::read(&b))?;
    ensure!(e(p.rels("ppt/slides/slide1.xml"))?.iter().any(|r| r.kind() == "video" || r.kind() == "media"), "a video put on a slide is left out without an error");
    Ok(())
}
fn probe_brush() -> Res {
    let mut a = InkAnnotations::new();
    a.add_stroke(InkStroke::new(InkPen::red()).add_point(1.0, 2.0));
    let x = e(crate::xml::parse(&a.part_xml()))?;
    ensure!(x.all("brush").iter().all(|b| b.attr("color").is_none() && b.child("brushProperty").is_some()), "pen properties are not written as InkML brush properties");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "settings: at least one setting; extras: a transition or ink; template: template with settings or pictures",
        assumptions: &["print settings other than header, footer, date and page number are left out of the file by design (src/generator/package_xml.rs)", "e-mail, organisation and title of a signer are not written"],
        subs: vec![
            Sub { name: "settings", quick: 1500, run: settings },
            Sub { name: "extras", quick: 1200, run: extras },
            Sub { name: "template", quick: 700, run: template },
        ],
        probes: vec![
            Probe { key: "custom-slide-range", run: probe_custom },
            Probe { key: "media-left-out", run: probe_media },
            Probe { key: "ink-brush-properties", run: probe_brush },
        ],
    }
}
