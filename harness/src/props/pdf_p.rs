//! C24: PDF export.
use crate::engine::*;
use crate::gen;
use crate::pdf::{latin, parse, shows, Page, Pdf, Run, V};
use ppt_rs::api::Presentation;
use ppt_rs::export::pdf_export::{export_to_pdf_bytes, PdfExportOptions, PdfOrientation};
use ppt_rs::export::slide_render::render_to_pdf_bytes;
use ppt_rs::generator::*;

fn e<T>(r: Result<T, String>) -> Result<T, Fail> {
    r.map_err(|m| Fail { msg: m })
}
fn rgb(h: &str) -> [f64; 3] {
    let h = h.trim_start_matches('#');
    let p = |i: usize| u8::from_str_radix(h.get(i..i + 2).unwrap_or("0"), 16).unwrap_or(0) as f64 / 255.0;
    [p(0), p(2), p(4)]
}
fn near(a: &[f64; 3], b: &[f64; 3]) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() < 0.003)
}
fn style(what: &str, r: &Run, bold: bool, italic: bool, pt: Option<u32>, color: Option<&str>) -> Res {
    let b = r.font.contains("Bold");
    let i = r.font.contains("Oblique") || r.font.contains("Italic");
    ensure!(b == bold && i == italic, "{what} is drawn in {}, expected bold {bold} italic {italic}", r.font);
    if let Some(p) = pt {
        ensure!((r.size - p as f64 * 0.75).abs() < 0.01, "{what} is drawn with size {}, expected {p} points at three quarters", r.size);
    }
    if let Some(c) = color {
        ensure!(near(&r.rgb, &rgb(c)), "{what} is drawn in colour {:?}, expected {c}", r.rgb);
    }
    Ok(())
}
fn roman(mut n: u32) -> String {
    let mut o = String::new();
    for (v, s) in [(100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")] {
        while n >= v {
            o.push_str(s);
            n -= v;
        }
    }
    o
}
fn marker(st: BulletStyle, k: usize) -> Option<String> {
    let n = k as u32 + 1;
    let letter = |base: u8| Some(((base + (k % 26) as u8) as char).to_string().repeat(k / 26 + 1));
    match st {
        BulletStyle::Bullet => Some("\u{2022}".into()),
        BulletStyle::Number => Some(n.to_string()),
        BulletStyle::LetterLower => letter(b'a'),
        BulletStyle::LetterUpper => letter(b'A'),
        BulletStyle::RomanLower => Some(roman(n)),
        BulletStyle::RomanUpper => Some(roman(n).to_uppercase()),
        BulletStyle::Custom(c) => Some(c.to_string()),
        BulletStyle::None => None,
    }
}
fn page(pdf: &Pdf, pg: &Page, s: &SlideContent, nr: usize, total: usize) -> Res {
    let (runs, strokes) = e(pdf.runs(pg))?;
    let Some(V::Arr(mb)) = pdf.key(&pg.dict, "MediaBox") else { return fail("no size") };
    let (w, h) = (mb[2].num().unwrap(), mb[3].num().unwrap());
    ensure!(w > h, "page is {w} by {h}");
    let texts: Vec<String> = runs.iter().map(|r| latin(&r.text)).collect();
    let mut i = 0;
    let at = |i: usize, t: &str| i < texts.len() && shows(&texts[i], t);
    let hidden = s.layout == SlideLayout::Blank;
    if at(0, &s.title) {
        style("title", &runs[0], s.title_bold, s.title_italic, s.title_size, s.title_color.as_deref())?;
        i = 1;
    } else {
        ensure!(hidden, "page {nr} starts with {:?}, expected the title {:?}", texts.first(), s.title);
    }
    if s.title_underline && !matches!(s.layout, SlideLayout::CenteredTitle | SlideLayout::SectionHeader | SlideLayout::Blank) {
        ensure!(strokes > 0, "the title of page {nr} is not underlined");
    }
    ensure!(!texts.is_empty(), "page {nr} is empty");
    let foot = texts.len() - 1;
    ensure!(texts[foot] == format!("{nr} / {total}"), "page {nr} ends with {:?}, expected the slide number", texts[foot]);
    // body
    let cs = s.content_size.unwrap_or(24) as f64 * 0.75;
    let ts = s.title_size.unwrap_or(36) as f64 * 0.75;
    let mut body: Vec<(Option<BulletStyle>, String, bool, bool, Option<u32>, Option<String>)> = vec![];
    if s.bullets.is_empty() {
        for t in &s.content {
            body.push((None, t.clone(), s.content_bold, s.content_italic, s.content_size, s.content_color.clone()));
        }
    } else {
        for b in &s.bullets {
            let f = b.format.clone().unwrap_or_default();
            let st = if b.style == BulletStyle::None { None } else { Some(b.style) };
            body.push((st, b.text.clone(), s.content_bold || f.bold, s.content_italic || f.italic, f.font_size.or(s.content_size), f.color.or(s.content_color.clone())));
        }
    }
    let uniform = body.iter().all(|b| b.0 == body[0].0);
    let code: Vec<Vec<&str>> = s.code_blocks.iter().map(|c| c.code.lines().collect()).collect();
    let room = h - 108.0 - ts;
    let line = cs * 1.5;
    let fits = (body.len() as f64 + 3.0) * line < room;
    let all_fits = (body.len() as f64 + 3.0 + code.iter().map(|c| c.len() as f64 + 3.0).sum::<f64>()) * line < room;
    let mut shown = 0;
    let mut y = if i > 0 { runs[0].y } else { h };
    for (k, (st, text, bold, italic, pt, col)) in body.iter().enumerate() {
        let mut j = i;
        if st.is_some() {
            j += 1;
        }
        if j >= foot || !at(j, text) {
            break;
        }
        if let Some(st) = st {
            if let (true, Some(m)) = (uniform, marker(*st, k)) {
                let g = texts[i].trim_end_matches(['.', ')']);
                ensure!(shows(g, &m) || shows(&texts[i], &m), "bullet {k} of page {nr} is marked {:?}, expected {m:?}", texts[i]);
            }
            ensure!(runs[i].x < runs[j].x && runs[i].y == runs[j].y, "bullet {k} of page {nr}: marker at {},{}, text at {},{}", runs[i].x, runs[i].y, runs[j].x, runs[j].y);
        }
        style(&format!("bullet {k} of page {nr}"), &runs[j], *bold, *italic, *pt, col.as_deref())?;
        ensure!(runs[j].y < y, "bullet {k} of page {nr} is not below the text before it");
        y = runs[j].y;
        i = j + 1;
        shown += 1;
    }
    let may_hide = hidden || s.layout == SlideLayout::TitleOnly;
    ensure!(shown == body.len() || !fits || (may_hide && shown == 0), "page {nr} shows {shown} of {} bullets, next is {:?}: {:?}", body.len(), body[shown].1, texts);
    // code
    let mut done = shown == body.len();
    for (k, b) in code.iter().enumerate() {
        for (n, l) in b.iter().enumerate() {
            if done && i < foot && at(i, l) {
                ensure!(runs[i].font.starts_with("Courier"), "code on page {nr} is drawn in {}", runs[i].font);
                ensure!(runs[i].y < y, "line {n} of code {k} of page {nr} is not below the text before it");
                y = runs[i].y;
                i += 1;
            } else {
                ensure!(!all_fits || may_hide, "page {nr} lacks line {n} of code {k} {l:?}: {texts:?}");
                // nothing of this block follows
                if all_fits {
                    done = false;
                }
                break;
            }
        }
    }
    ensure!(i == foot, "page {nr} shows {:?} besides the slide's text", &texts[i..foot]);
    for (k, r) in runs.iter().enumerate() {
        ensure!(r.y >= 0.0 && r.y <= h, "text {:?} of page {nr} is drawn at height {}, outside the page", texts[k], r.y);
    }
    Ok(())
}
/// Texts with the signs Latin fonts have beyond ASCII.
fn signs(s: &mut Src) -> String {
    let n = s.len(1, 8);
    (0..n).map(|_| *s.pick(&['a', ' ', '€', '‚', 'ƒ', '„', '…', '†', '‡', 'ˆ', '‰', 'Š', '‹', 'Œ', 'Ž', '‘', '’', '“', '”', '•', '–', '—', '˜', '™', 'š', '›', 'œ', 'ž', 'Ÿ', 'é', 'ÿ', '¡', '×', '(', '\\'])).collect()
}
fn slides(c: &mut Ctx, plain: bool) -> (Presentation, Vec<SlideContent>) {
    let s = &mut c.s;
    let txt: fn(&mut Src) -> String = *s.pick(&[gen::words as fn(&mut Src) -> String, gen::text0, gen::text, gen::multiline, signs]);
    let txt = if plain { gen::words as fn(&mut Src) -> String } else { txt };
    let mut p = if s.bool() { Presentation::with_title(&txt(s)) } else { Presentation::new() };
    let n = s.len(1, 4);
    let mut v: Vec<SlideContent> = vec![];
    for _ in 0..n {
        let o = gen::SlideOpts { txt, slides: n, rich: s.chance(30), ink: false, notes: true, links: false, imgs: vec![] };
        let mut sl = gen::slide(s, &o);
        if s.chance(40) {
            sl = sl.title_bold(s.bool()).title_italic(s.bool()).title_underline(s.bool()).content_bold(s.bool()).content_italic(s.bool());
        }
        sl.title_size = s.opt(40, |s| s.range(1, 96) as u32);
        sl.content_size = s.opt(40, |s| s.range(4, 60) as u32);
        sl.title_color = s.opt(40, gen::color);
        sl.content_color = s.opt(40, gen::color);
        if s.chance(15) {
            for _ in 0..s.len(1, 40) {
                let b = gen::bullet(s, txt);
                sl.content.push(b.text.clone());
                sl.bullets.push(b);
            }
        }
        if s.chance(15) {
            // texts without bullets
            sl.bullets.clear();
        }
        if s.chance(20) {
            let st = gen::bullet_style(s);
            for b in &mut sl.bullets {
                b.style = st;
            }
        }
        if !plain && s.chance(25) {
            let k = gen::code(s);
            sl.code_blocks.push(k);
        }
        p = p.add_slide(sl.clone());
        v.push(sl);
    }
    (p, v)
}
fn pages(c: &mut Ctx) -> Res {
    let (p, v) = slides(c, false);
    c.note(|| format!("{:#?}", v.iter().map(|s| (&s.title, s.layout, &s.bullets, &s.content, &s.code_blocks)).collect::<Vec<_>>()));
    c.nontrivial(v.len() > 1 || v[0].bullets.len() > 1);
    let f = c.file("o.pdf");
    let to_file = c.s.chance(20);
    let b = if to_file {
        guard(|| p.save_as_pdf(&f))?.map_err(|x| Fail { msg: x.to_string() })?;
        std::fs::read(&f).map_err(|x| Fail { msg: x.to_string() })?
    } else {
        guard(|| render_to_pdf_bytes(&p))?.map_err(|x| Fail { msg: x.to_string() })?
    };
    let pdf = e(parse(&b))?;
    let pg = e(pdf.pages())?;
    ensure!(pg.len() == v.len(), "{} pages for {} slides", pg.len(), v.len());
    for (i, (g, s)) in pg.iter().zip(&v).enumerate() {
        page(&pdf, g, s, i + 1, v.len()).map_err(|f| Fail { msg: format!("{} (slide {})", f.msg, i + 1) })?;
    }
    Ok(())
}
fn document(c: &mut Ctx) -> Res {
    let (p, v) = slides(c, true);
    let s = &mut c.s;
    let land = s.bool();
    let mut o = PdfExportOptions::new().with_orientation(if land { PdfOrientation::Landscape } else { PdfOrientation::Portrait });
    if s.bool() {
        o = o.with_font_size(s.range(0, 60) as f32).with_frontmatter(s.bool()).with_notes(s.bool()).with_images(s.bool());
    }
    c.note(|| format!("{o:?} {:#?}", v.iter().map(|s| (&s.title, &s.content)).collect::<Vec<_>>()));
    c.nontrivial(v.len() > 1);
    let b = guard(|| export_to_pdf_bytes(&p, &o))?.map_err(|x| Fail { msg: x.to_string() })?;
    let pdf = e(parse(&b))?;
    let pg = e(pdf.pages())?;
    ensure!(!pg.is_empty(), "no pages");
    let (mut readable, mut text) = (true, vec![]);
    for (nr, g) in pg.iter().enumerate() {
        let Some(V::Arr(mb)) = pdf.key(&g.dict, "MediaBox") else { return fail("no size") };
        ensure!((mb[2].num() > mb[3].num()) == land, "page size {mb:?}, landscape {land}");
        if g.filtered {
            readable = false;
        } else {
            let mut runs: Vec<String> = e(pdf.runs(g))?.0.iter().map(|r| latin(&r.text)).collect();
            // the page number stands at the foot of the page, perhaps in the middle of a text
            if runs.last() == Some(&(nr + 1).to_string()) {
                runs.pop();
            }
            text.extend(runs);
        }
    }
    if readable {
        let all: String = text.join("").chars().filter(|c| c.is_alphanumeric()).collect();
        let mut at = 0;
        for (i, t) in v.iter().flat_map(|s| std::iter::once(&s.title).chain(s.content.iter())).filter(|t| t.is_ascii()).enumerate() {
            let w: String = t.chars().filter(|c| c.is_alphanumeric()).collect();
            match all[at..].find(&w) {
                Some(k) => at += k + w.len(),
                None => return fail(format!("text {i} {t:?} is missing or out of place: {text:?}")),
            }
        }
    }
    Ok(())
}
/// Strange values neither crash the export nor break the file.
fn odd(c: &mut Ctx) -> Res {
    let s = &mut c.s;
    let n = s.len(0, 3);
    let mut p = Presentation::new();
    for _ in 0..n {
        let mut sl = SlideContent::new(&gen::hostile(s)).layout(*s.pick(&[SlideLayout::CenteredTitle, SlideLayout::TitleAndContent, SlideLayout::Blank]));
        let size = |s: &mut Src| *s.pick(&[0u32, 1, 7, 400, 4_000_000_000]);
        sl.title_size = s.opt(50, size);
        sl.content_size = s.opt(50, size);
        let col = |s: &mut Src| s.pick(&["", "#", "red", "ééé", "FFé00", "+1+1+1", "#FFFFFFFF", "12345", "ff00ff"]).to_string();
        sl.title_color = s.opt(50, col);
        sl.content_color = s.opt(50, col);
        for _ in 0..s.len(0, 40) {
            let t = gen::hostile(s);
            let st = gen::bullet_style(s);
            sl = sl.add_styled_bullet(&t, st);
        }
        p = p.add_slide(sl);
    }
    c.note(|| format!("{:#?}", p.slides().iter().map(|s| (&s.title, s.title_size, s.content_size, &s.title_color, s.bullets.len())).collect::<Vec<_>>()));
    c.nontrivial(n > 0);
    let r = guard(|| render_to_pdf_bytes(&p))?;
    if n == 0 {
        ensure!(r.is_err(), "a presentation without slides gave a file");
        return Ok(());
    }
    let b = r.map_err(|x| Fail { msg: x.to_string() })?;
    let pdf = e(parse(&b))?;
    let pg = e(pdf.pages())?;
    ensure!(pg.len() == n, "{} pages for {n} slides", pg.len());
    for g in &pg {
        e(pdf.runs(g))?;
    }
    Ok(())
}
/// A title with a line holding only a bar crashes the document export.
fn probe_bar() -> Res {
    let p = Presentation::with_title("a\n|").add_slide(SlideContent::new("s"));
    guard(|| export_to_pdf_bytes(&p, &PdfExportOptions::default()))?.map_err(|x| Fail { msg: x.to_string() })?;
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "more than one slide or bullet",
        assumptions: &[
            "characters outside the Latin set of the fonts may be replaced, one by one",
            "bullets and code that do not fit on the page may be left out from the end",
            "tables, shapes, charts and pictures are not drawn by design; text the slide layout hides may be drawn or not",
        ],
        subs: vec![Sub { name: "pages", quick: 15000, run: pages }, Sub { name: "document", quick: 400, run: document }, Sub { name: "odd", quick: 6000, run: odd }],
        probes: vec![Probe { key: "pdf-document-bar", run: probe_bar }],
    }
}
